//go:build go1.22

// C22: the name of a dataset cannot reach outside its folder.
//
// The file calls of the code are recorded by engine/vfs, which executes only what lies in the scratch folder;
// names climb less far up than the scratch folder is deep, and the process runs as a user that owns nothing else.
package c22

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/go-cache"
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vfs"
)

const deep = "l1/l2/l3/l4/l5/l6/l7/l8"

// allNames lists the names of the stated space once.
func allNames(thorough bool, root string) []string {
	seen := map[string]bool{}
	var l []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	// character level
	alpha := []string{".", "/", "a", "%", "\\"}
	n := 4
	if thorough {
		n = 5
		alpha = append(alpha, "~")
	}
	var chars func(p string, k int)
	chars = func(p string, k int) {
		add(p)
		if k == 0 {
			return
		}
		for _, c := range alpha {
			chars(p+c, k-1)
		}
	}
	chars("", n)
	// segment level
	segs := []string{"..", ".", "a", "b", "A", "", "%2e%2e", "%2F", "..a", "data", "index.save"}
	k := 3
	if thorough {
		k = 4
		segs = append(segs, "%2E", "...", "a..", "l8")
	}
	var rec func(p []string)
	rec = func(p []string) {
		if len(p) > 0 {
			add(strings.Join(p, "/"))
		}
		if len(p) == k {
			return
		}
		for _, s := range segs {
			rec(append(append([]string(nil), p...), s))
		}
	}
	rec(nil)
	for _, s := range []string{"../../..", "../../../..", "../../../../..", "../../../../x", "a/../../../..", "a\x00b", "a\x00", "ab", "_", "a_b", "a-b", "_a", "a_", "__", "\xff", "\n", "a\nb", " ", "\t", "ü", "$HOME", "$(x)", "*", "?", "[a]", "a:b", "CON", "con", "Ü", "a ", " a", "a.", "A.", "a b", "a+b", "a%20b", "a%2520b", "ü\u0308", "u\u0308\u0308", "%61", "%41", "\xfe", "\xc3",
		"\u202e", "..%00", "%", "%2", "%25", "%252e%252e", "..\\..", "..;/..", strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("ü/", 200), strings.Repeat("../", 4) + "a"} {
		add(s)
	}
	return l
}

// tree lists the files below a folder.
func tree(d string) string {
	var l []string
	filepath.Walk(d, func(p string, i os.FileInfo, err error) error {
		if err == nil {
			l = append(l, strings.TrimPrefix(p, d))
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func put(x *kit.X, p string) bool {
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		return false
	}
	return os.WriteFile(p, []byte("sentinel"), 0644) == nil
}

// folderOf is the folder of a dataset; it must lie directly in the data folder.
func folderOf(x *kit.X, dt *data.Data, dir string, name string) (string, bool) {
	p, _ := filepath.Abs(dt.DBPath)
	if filepath.Dir(p) != dir || p == dir {
		x.Failf("folder", "the folder of dataset %q is %s, not directly inside %s", name, p, dir)
		return p, false
	}
	return p, true
}

var companions = []string{"a", "b", "..", ".", "", "a/b", "../a", "a/..", "%2e%2e", "data", "a%2Fb"}

var ways = []string{"delete", "maintenance", "close", "retention", "recreate"}

func run(x *kit.X, name, how string) {
	base := x.Tmp()
	base, _ = filepath.EvalSymlinks(base)
	folder := filepath.Join(base, deep, "node")
	os.MkdirAll(folder, 0755)
	vfs.Reset(base)
	dataDir := filepath.Join(folder, "data")
	// things around it
	out := []string{filepath.Join(base, "x"), filepath.Join(base, "l1/a/b"), filepath.Join(base, deep, "a"), filepath.Join(base, deep, "b/a"), filepath.Join(folder, "a"), filepath.Join(folder, "b/c"),
		filepath.Join(base, deep, "x"), filepath.Join(folder, "keep")}
	for _, p := range out {
		if !put(x, p) {
			panic(p)
		}
	}
	s := data.NewDataset(folder)
	defer func() {
		synctest.Wait()
		for _, it := range s.DataList.Items() {
			if d, ok := it.Object.(*data.Data); ok {
				lib.Kill(d)
			}
		}
		cache.VerifStopAll()
		time.Sleep(3 * time.Second)
		synctest.Wait()
	}()
	others := map[string]string{}
	for _, c := range companions {
		if c == name {
			continue
		}
		cfg := lib.Config(c)
		cfg.Retention = 1000000
		o, err := s.GetOrCreateIfNotExists(cfg)
		if err != nil {
			continue // refusing a name is fine
		}
		o.Insert(lib.D(1, 1, "g", "l"), nil)
		p, ok := folderOf(x, o, dataDir, c)
		if !ok {
			return
		}
		if put(x, filepath.Join(p, "file")) {
			others[c] = p
		}
	}
	cfg := lib.Config(name)
	cfg.Retention = 60
	dt, err := s.GetOrCreateIfNotExists(cfg)
	if err != nil {
		x.Out("refused")
		return
	}
	p, ok := folderOf(x, dt, dataDir, name)
	if !ok {
		return
	}
	for c, o := range others {
		if vfs.Inside(o, p) || vfs.Inside(p, o) {
			x.Failf("shared", "datasets %q and %q share folder %s (%s)", name, c, p, o)
			return
		}
	}
	own := put(x, filepath.Join(p, "file"))
	put(x, filepath.Join(p, "sub/file"))
	if how != "maintenance" {
		dt.Insert(lib.D(1, 2, "g", "l"), nil)
	}
	synctest.Wait()
	x.Step(len(others) + 3)
	gone := true
	switch how {
	case "delete":
		if err := s.Delete(name); err != nil {
			x.Failf("error", "%v", err)
		}
	case "maintenance":
		s.ReloadRuns()
	case "close":
		dt.Close()
	case "retention":
		time.Sleep(25 * time.Minute)
		gone = false // (when it is removed is C26)
	case "recreate":
		s.Delete(name)
		s.GetOrCreateIfNotExists(cfg)
		s.Delete(name)
	}
	synctest.Wait()
	for _, o := range out {
		if b, err := os.ReadFile(o); err != nil || string(b) != "sentinel" {
			x.Failf("escape", "dataset %q, %s: %s outside the data folder is gone or changed", name, how, o)
			return
		}
	}
	for c, o := range others {
		if _, err := os.Stat(filepath.Join(o, "file")); err != nil {
			x.Failf("other", "dataset %q, %s: the files of dataset %q are gone", name, how, c)
			return
		}
	}
	if own && gone {
		if _, err := os.Stat(filepath.Join(p, "file")); err == nil && how != "close" {
			x.Failf("left", "dataset %q, %s: its files are still there", name, how)
		}
	}
	tmp, _ := filepath.Abs(os.TempDir())
	for _, o := range vfs.Ops() {
		switch {
		case vfs.Inside(base, o.Path):
			switch {
			case filepath.Dir(o.Path) == dataDir: // a dataset's folder
			case filepath.Dir(filepath.Dir(o.Path)) == dataDir && strings.HasPrefix(o.Path, p): // inside its own
			case o.Path == dataDir && (o.Call == "MkdirAll" || o.Call == "Mkdir"):
			case filepath.Dir(o.Path) == folder && o.Call != "RemoveAll": // the list of datasets
			default:
				x.Failf("escape", "dataset %q, %s: %s %s", name, how, o.Call, o.Path)
			}
		case filepath.Dir(o.Path) == tmp && o.Call != "RemoveAll": // index files
		default:
			x.Failf("escape", "dataset %q, %s: %s %s (recorded, not executed: %v)", name, how, o.Call, o.Path, !o.Executed)
		}
	}
	x.Out("ok")
}

func gen(g *kit.G) {
	for _, n := range allNames(g.Thorough(), "") {
		for _, h := range ways {
			n, h := n, h
			g.Case(func() string { return fmt.Sprintf("name %.60q, %s", n, h) }, func(x *kit.X) { run(x, n, h) })
		}
	}
}

// withNeighbours adds the names that a lossy folder name would mix up with the given ones.
func withNeighbours(names []string) []string {
	seen := map[string]bool{}
	var l []string
	add := func(s string) {
		if !seen[s] && len(s) < 600 {
			seen[s] = true
			l = append(l, s)
		}
	}
	for _, n := range names {
		add(n)
	}
	for _, n := range names {
		for _, c := range []string{"/", "\\", ".", "%", "\x00", "..", " ", ":", "\n"} {
			for _, r := range []string{"_", "-", "", "+", " ", "__", "%2F", "\x00"} {
				add(strings.ReplaceAll(n, c, r))
			}
		}
		add(strings.ToUpper(n))
		add(strings.ToLower(n))
		add(strings.TrimSpace(n))
		add(n + "\x00")
		add("\x00" + n)
		add(n + "_")
		add(n + "/")
	}
	return l
}

// pairs: no two names share a folder, and none lies in another's.
func pairs(g *kit.G) {
	for _, dir := range []string{"/base/node/data", "rel/data", "/base//node/./data/"} {
		dir := dir
		g.Case(func() string { return "all pairs of names in " + dir }, func(x *kit.X) {
			by := map[string]string{}
			want := filepath.Clean(dir)
			for _, n := range withNeighbours(allNames(g.Thorough(), "")) {
				p := filepath.Clean(data.NewPreData(lib.Config(n), dir).DBPath)
				x.Step(1)
				if filepath.Dir(p) != want {
					x.Failf("folder", "the folder of dataset %q is %s, not directly inside %s", n, p, want)
					return
				}
				if o, ok := by[p]; ok {
					x.Failf("shared", "datasets %q and %q share folder %s", n, o, p)
					return
				}
				by[p] = n
			}
			x.State(fmt.Sprint(len(by)))
		})
	}
}

// nodes: the same through the service.
func nodes(g *kit.G) {
	l := allNames(false, "")
	for i, n := range l {
		if i%7 != 0 && i < len(l)-40 && !g.Thorough() {
			continue
		}
		n := n
		g.Case(func() string { return fmt.Sprintf("through the service: name %.60q", n) }, func(x *kit.X) {
			nlib.Reset()
			base := x.Tmp()
			base, _ = filepath.EvalSymlinks(base)
			folder := filepath.Join(base, deep, "node")
			vfs.Reset(base)
			out := []string{filepath.Join(base, "x"), filepath.Join(base, deep, "a"), filepath.Join(folder, "a"), filepath.Join(folder, "keep")}
			for _, p := range out {
				put(x, p)
			}
			nd := nlib.NewIn(folder, 0)
			defer nlib.Stop(nd)
			synctest.Wait()
			if _, err := nlib.Create(nlib.Addr(0), lib.Config(n)); err != nil {
				x.Out("refused")
			}
			time.Sleep(70 * time.Second) // maintenance removes the empty dataset
			nlib.Insert(nlib.Addr(0), n, lib.D(1, 1, "g", "l"), nil)
			nlib.Info(nlib.Addr(0), n)
			time.Sleep(70 * time.Second)
			nd.Close()
			synctest.Wait()
			x.Step(5)
			for _, o := range out {
				if _, err := os.Stat(o); err != nil {
					x.Failf("escape", "dataset %q: %s is gone", n, o)
					return
				}
			}
			if _, err := os.Stat(filepath.Join(folder, "data")); err != nil {
				x.Failf("escape", "dataset %q: the data folder is gone", n)
			}
			if b, err := os.ReadFile(filepath.Join(folder, "index.save")); err != nil {
				x.Failf("escape", "dataset %q: the list of datasets is gone (%v) %d", n, err, len(b))
			}
			x.Out("ok")
		})
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "names", Gen: gen, Share: 3},
		kit.Family{Name: "pairs", Gen: pairs, NoBubble: true},
		kit.Family{Name: "service", Gen: nodes},
	)
}
