//go:build go1.22

// C29: a server process does what it was configured to do, and ends without loss.
package c29

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/cmd"
	"github.com/bgokden/veri/node"
	server "github.com/bgokden/veri/server"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vfs"
	"github.com/bgokden/veri/zzverif/vmc"
	"github.com/bgokden/veri/zzverif/vnet"
	"github.com/bgokden/veri/zzverif/vsys"
)

type conf struct {
	services, broadcast string
	port                int
	dir                 string
}

func (c conf) m() map[string]interface{} {
	return map[string]interface{}{"services": c.services, "port": c.port, "broadcast": c.broadcast, "directory": c.dir}
}

// begin starts the process.
func begin(c conf, inUse ...int) {
	vsys.Reset(inUse...)
	vfs.Dead = false
	go run(c)
}

func run(c conf) {
	defer vsys.Return()
	server.RunServer(c.m())
}

func nodes() []*node.Node {
	var l []*node.Node
	for _, k := range vsys.Kept() {
		if n, ok := k.(*node.Node); ok {
			l = append(l, n)
		}
	}
	return l
}

// over ends what is left of the process.
func over(port int) {
	vfs.Dead = true
	vsys.Cleanup()
	vnet.Unregister(fmt.Sprint("localhost:", port))
	nlib.Stop(nodes()...)
	synctest.Wait()
}

func get(p int, path string) int {
	h := vsys.HTTP(p)
	if h == nil {
		return 0
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("GET", path, nil))
	return w.Code
}

// files: what the user has in the folder.
var precious = map[string]string{"precious.txt": "keep me", "a/b/c.txt": "keep me too", ".hidden": "h", "node": "not a folder", "tmp.bak": "", "data/other.txt": "not a dataset"}

// others: what others have in the folder of temporary files.
var others = map[string]string{"other.txt": "o", "node/files.txt": "n", "node123/x": "x", "data/y": "y", "veri/z": "z"}

func fill(dir string) {
	for n, c := range precious {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0755)
		os.WriteFile(filepath.Join(dir, n), []byte(c), 0644)
	}
}

func kept(x *kit.X, what, dir string) {
	for n, c := range precious {
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil || string(b) != c {
			x.Failf("files", "%s: the user's file %s in the data folder is gone or changed (%v)", what, n, err)
			return
		}
	}
}

// outside: nothing is removed or written outside the data folder and what is temporary.
func outside(x *kit.X, dirs ...string) {
	for n, c := range others {
		b, err := os.ReadFile(filepath.Join(x.Dir, "tmp", n))
		if err != nil || string(b) != c {
			x.Failf("outside", "the file %s of others in the folder of temporary files is gone or changed (%v)", n, err)
			return
		}
	}
	for _, o := range vfs.Ops() {
		ok := false
		for _, d := range dirs {
			ok = ok || vfs.Inside(d, o.Path)
		}
		if !ok && !vfs.Inside(filepath.Join(x.Dir, "tmp"), o.Path) {
			x.Failf("outside", "%s of %s, which is not in the data folder %v", o.Call, o.Path, dirs)
			return
		}
	}
}

func prepare(x *kit.X) func() {
	nlib.Reset()
	x.Tmp()
	vfs.Reset(x.Dir)
	t := filepath.Join(x.Dir, "tmp")
	os.MkdirAll(t, 0755)
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", t)
	for n, c := range others {
		os.MkdirAll(filepath.Dir(filepath.Join(t, n)), 0755)
		os.WriteFile(filepath.Join(t, n), []byte(c), 0644)
	}
	return func() { os.Setenv("TMPDIR", old) }
}

func split(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

// advertised: the addresses a server with this configuration tells others.
func advertised(broadcast string, port int) []string {
	var l []string
	seen := map[string]bool{}
	for _, a := range split(broadcast) {
		if !strings.Contains(a, ":") {
			a = fmt.Sprintf("%s:%d", a, port)
		}
		if !seen[a] {
			l = append(l, a)
		}
		seen[a] = true
	}
	sort.Strings(l)
	return l
}

func joins() map[string][][]string {
	m := map[string][][]string{}
	for _, c := range vnet.Calls() {
		if c.Method == "Join" {
			l := append([]string(nil), c.Req.(*pb.JoinRequest).GetPeer().GetAddressList()...)
			sort.Strings(l)
			m[c.To] = append(m[c.To], l)
		}
	}
	return m
}

func configurations(g *kit.G) {
	broadcasts := []string{"", "h1", "h1:9", "h1,h2", "h1:9,h2", "h1,h1", "10.0.0.7", "h1,h2:5,h3", "::1", "[::1]:9", "[::1]:9,h1"}
	serviceLists := []string{"", "localhost:7001", "localhost:7001,localhost:7002", "localhost:7009", "localhost:7009,localhost:7002", "localhost:7002,localhost:7002", "localhost:7001,localhost:7002,localhost:7003"}
	for _, b := range broadcasts {
		for _, s := range serviceLists {
			for _, port := range []int{7000, 10000, 7555} {
				for _, d := range []string{"", "new", "new/deep/er", "full"} {
					for _, use := range []string{"free", "port in use", "8000 in use", "6060 in use", "8000 and 6060 in use"} {
						c := conf{broadcast: b, services: s, port: port, dir: d}
						use := use
						g.Case(func() string { return fmt.Sprintf("%+v, %s", c, use) }, func(x *kit.X) { configured(x, c, use) })
					}
				}
			}
		}
	}
}

func configured(x *kit.X, c conf, use string) {
	defer prepare(x)()
	vnet.LogCalls = true
	want := c.dir
	var dirs []string
	if c.dir != "" {
		c.dir = filepath.Join(x.Dir, c.dir)
		dirs = append(dirs, c.dir)
		if want == "full" {
			fill(c.dir)
		}
	}
	var inUse []int
	switch use {
	case "port in use":
		inUse = []int{c.port}
	case "8000 in use":
		inUse = []int{8000}
	case "6060 in use":
		inUse = []int{6060}
	case "8000 and 6060 in use":
		inUse = []int{8000, 6060}
	}
	nlib.NewFake(1)
	nlib.NewFake(2)
	nlib.NewFake(3)
	begin(c, inUse...)
	defer over(c.port)
	synctest.Wait()
	x.Step(1)
	addr := fmt.Sprint("localhost:", c.port)
	if use == "port in use" {
		time.Sleep(10 * time.Second)
		if e, _ := vsys.Ended(); !e {
			x.Failf("hangs", "the port is in use and the server neither serves nor ends")
		}
		if want == "full" {
			kept(x, "the port is in use", c.dir)
		}
		outside(x, dirs...)
		x.Out("in use")
		return
	}
	time.Sleep(5 * time.Second)
	if e, code := vsys.Ended(); e {
		x.Failf("ended", "the server ended with %d", code)
		return
	}
	if err := nlib.Ping(addr); err != nil {
		x.Failf("unreachable", "the server does not answer at port %d: %v", c.port, err)
		return
	}
	if !strings.Contains(use, "8000") {
		for path, code := range map[string]int{"/": 200, "/health": 200, "/ready": 200} {
			if got := get(8000, path); got != code {
				x.Failf("http", "GET %s gives %d", path, got)
			}
		}
	}
	// joined
	j := joins()
	adv := advertised(c.broadcast, c.port)
	for _, s := range split(c.services) {
		if s == "localhost:7009" {
			continue // is down
		}
		if len(j[s]) == 0 {
			x.Failf("join", "the server did not join %s", s)
			return
		}
		for _, l := range j[s] {
			if strings.Join(l, ",") != strings.Join(adv, ",") {
				x.Failf("advertised", "the server told %s the addresses %v, not %v", s, l, adv)
				return
			}
		}
	}
	for to := range j {
		if !strings.Contains(","+c.services+",", ","+to+",") {
			x.Failf("join", "the server joined %s", to)
		}
	}
	// works, and keeps its files in the folder
	d := lib.D(1, 2, "g", "l")
	if err := nlib.Insert(addr, "d", d, &pb.InsertConfig{Count: 1}); err != nil {
		x.Failf("insert", "%v", err)
		return
	}
	time.Sleep(130 * time.Second)
	if r, err := nlib.Search(addr, nlib.Req("d", 5, lib.D(1, 2, "", ""))); err != nil || len(r) != 1 {
		x.Failf("search", "%s, %v", lib.ShowRes(r), err)
	}
	if want == "full" {
		kept(x, "while it runs", c.dir)
	}
	if c.dir != "" {
		if l, _ := os.ReadDir(c.dir); len(l) == 0 {
			x.Failf("folder", "the configured data folder is not used")
		}
		if l, _ := os.ReadDir(filepath.Join(x.Dir, "tmp")); !onlyAnnoy(filepath.Join(x.Dir, "tmp"), l) {
			x.Failf("folder", "a folder is configured and a temporary one is used: %v", l)
		}
	}
	outside(x, dirs...)
	vsys.Raise(syscall.SIGTERM)
	select {
	case <-vsys.End():
	case <-time.After(10 * time.Minute):
		x.Failf("hangs", "the server does not end after SIGTERM")
		return
	}
	if _, code := vsys.Ended(); code != 0 {
		x.Failf("code", "exit code %d after SIGTERM", code)
	}
	if want == "full" {
		kept(x, "after SIGTERM", c.dir)
	}
	outside(x, dirs...)
	x.Out("%d joins", len(j))
}

func onlyAnnoy(dir string, l []os.DirEntry) bool {
	for _, e := range l {
		_, err := os.Stat(filepath.Join(dir, e.Name()))
		known := false
		for n := range others {
			known = known || strings.Split(n, "/")[0] == e.Name()
		}
		if !known && err == nil && !strings.Contains(e.Name(), "annoy") {
			return false
		}
	}
	return true
}

// stops: a signal at some time of a history.
func stops(g *kit.G) {
	for _, at := range []time.Duration{0, time.Millisecond, 5 * time.Second, 59 * time.Second, 60 * time.Second, 61 * time.Second, 75 * time.Second, 119 * time.Second, 120 * time.Second, 121 * time.Second, 200 * time.Second, 310 * time.Second} {
		for _, sig := range []syscall.Signal{syscall.SIGTERM, syscall.SIGINT} {
			for _, again := range []int{0, 1, 2} {
				for _, peer := range []string{"none", "accepts", "slow", "full", "down"} {
					for _, n := range []int{0, 1, 3, 150} {
						at, sig, again, peer, n := at, sig, again, peer, n
						if n == 150 && at%(60*time.Second) != 0 && !g.Thorough() {
							continue
						}
						g.Case(func() string {
							return fmt.Sprintf("%v after %v (and %d more), peer %s, %d data", sig, at, again, peer, n)
						}, func(x *kit.X) { stopped(x, at, sig, again, peer, n) })
					}
				}
			}
		}
	}
}

func stopped(x *kit.X, at time.Duration, sig syscall.Signal, again int, peer string, n int) {
	defer prepare(x)()
	dir := filepath.Join(x.Dir, "dir")
	fill(dir)
	c := conf{services: "localhost:7001", broadcast: "localhost", port: 7000, dir: dir}
	addr := nlib.Addr(0)
	var f *nlib.Fake
	if peer != "none" {
		f = nlib.NewFake(1)
	}
	if peer == "slow" {
		f.Slow = 2 * time.Second
	}
	if peer == "full" {
		f.Accept = func(int, *pb.InsertionRequest) error { return fmt.Errorf("Number of elements is over the target") }
	}
	begin(c)
	ended := false
	defer func() {
		if !ended {
			over(c.port)
		}
	}()
	synctest.Wait()
	t0 := time.Now()
	cfg := lib.Config("d")
	cfg.NoTarget = true
	if f != nil && at >= time.Second {
		nlib.Announce(addr, nlib.Addr(1), cfg)
	}
	put := 0
	var acked []*pb.Datum
	insert := func(k int) {
		for ; k > 0 && put < n; k-- {
			d := lib.D(float32(put), 1, "g", fmt.Sprint("l", put))
			put++
			if nlib.Insert(addr, "d", d, &pb.InsertConfig{Count: 1}) == nil {
				acked = append(acked, d)
			}
		}
	}
	insert((n + 1) / 2)
	if at > 0 {
		time.Sleep(at - time.Since(t0))
	}
	synctest.Wait()
	insert(n)
	synctest.Wait()
	x.Step(1)
	known := at >= 61*time.Second
	if peer == "down" {
		nlib.Down(1)
	}
	if code := get(8000, "/health"); code != 200 {
		x.Failf("health", "GET /health gives %d", code)
	}
	vsys.Raise(sig)
	for i := 0; i < again; i++ {
		if i == 1 {
			time.Sleep(500 * time.Millisecond)
		}
		vsys.Raise(syscall.SIGTERM)
	}
	synctest.Wait()
	if e, _ := vsys.Ended(); !e {
		if code := get(8000, "/ready"); code != http.StatusServiceUnavailable {
			x.Failf("ready", "GET /ready of a server that ends gives %d", code)
		}
		if code := get(8000, "/health"); code != 200 {
			x.Failf("health", "GET /health of a server that ends gives %d", code)
		}
		if err := nlib.Insert(addr, "d", lib.D(99, 9, "g", "late"), &pb.InsertConfig{Count: 1}); err == nil {
			x.Failf("admitted", "a server that ends takes an insert")
		}
	}
	select {
	case <-vsys.End():
	case <-time.After(30 * time.Minute):
		x.Failf("hangs", "the server does not end after %v", sig)
		return
	}
	took := time.Since(t0) - at
	if _, code := vsys.Ended(); code != 0 {
		x.Failf("code", "exit code %d after %v", code, sig)
	}
	if known && (peer == "accepts" || peer == "slow") {
		for _, d := range acked {
			if f.Has("d", d) == 0 {
				x.Failf("lost", "%s was acknowledged, the server has ended (after %v) and no peer has it", lib.KeyOf(d), took)
				return
			}
		}
	}
	kept(x, "after the signal", dir)
	outside(x, dir)
	// the same folder again
	over(c.port)
	ended = true
	nlib.Reset()
	begin(c)
	defer over(c.port)
	time.Sleep(time.Second)
	if e, code := vsys.Ended(); e {
		x.Failf("ended", "started again, the server ended with %d", code)
		return
	}
	if at >= 61*time.Second && n > 0 && peer != "accepts" && peer != "slow" { // an emptied one may be dropped
		if len(nodes()) != 1 || !strings.Contains(","+strings.Join(nlib.Names(nodes()[0]), ",")+",", ",d,") {
			x.Failf("list", "started again on its folder, the server does not know dataset d")
		}
	}
	x.Out("%v", took > 30*time.Second)
}

// ---- command line

type report struct {
	Listens []string
	Joins   map[string][][]string
	Dirs    []string
	Ended   bool
	Code    int
}

// TestChild is the process of one case of the command line family.
func TestChild(t *testing.T) {
	spec := os.Getenv("VERIF_C29_ARGS")
	if spec == "" {
		return
	}
	var args []string
	json.Unmarshal([]byte(spec), &args)
	var r report
	synctest.Test(t, func(t *testing.T) {
		nlib.Reset()
		vfs.Reset(os.Getenv("VERIF_C29_DIR"))
		vnet.LogCalls = true
		vsys.Reset()
		nlib.NewFake(1)
		nlib.NewFake(2)
		os.Args = append([]string{"veri"}, args...)
		go func() {
			defer vsys.Return()
			cmd.Execute()
		}()
		time.Sleep(5 * time.Second)
		r.Ended, r.Code = vsys.Ended()
		r.Joins = joins()
		for _, p := range []int{7000, 7100, 10000} {
			if nlib.Ping(fmt.Sprint("localhost:", p)) == nil {
				r.Listens = append(r.Listens, fmt.Sprint(p))
			}
		}
		seen := map[string]bool{}
		for _, o := range vfs.Ops() {
			if !seen[o.Path] {
				seen[o.Path] = true
				r.Dirs = append(r.Dirs, o.Path)
			}
		}
		b, _ := json.Marshal(r)
		os.WriteFile(os.Getenv("VERIF_C29_OUT"), b, 0644)
		os.Exit(0)
	})
}

type cl struct {
	flag, env, file, by string // broadcast: flag, environment, config file and how the file is given
	port, services, dir string
	short               bool
}

func commandLine(g *kit.G) {
	for _, flag := range []string{"", "fl", "fl:1,fm"} {
		for _, env := range []string{"", "en", "en:2,em"} {
			for _, by := range []string{"", "flag", "env", "home"} {
				for _, file := range []string{"", "cf", "cf,cg:3"} {
					if by == "" && file != "" {
						continue
					}
					for _, port := range []string{"", "7100", "x"} {
						for _, services := range []string{"", "localhost:7001", "localhost:7001,localhost:7002"} {
							for _, dir := range []string{"", "dd"} {
								for _, short := range []bool{false, true} {
									if services == "localhost:7001" && !g.Thorough() || short && (env != "" || by != "") && !g.Thorough() {
										continue
									}
									c := cl{flag, env, file, by, port, services, dir, short}
									g.Case(func() string { return fmt.Sprintf("%+v", c) }, func(x *kit.X) { command(x, c) })
								}
							}
						}
					}
				}
			}
		}
	}
}

func command(x *kit.X, c cl) {
	root := x.Tmp()
	home := filepath.Join(root, "home")
	tmp := filepath.Join(root, "tmp")
	os.MkdirAll(filepath.Join(home, ".veri"), 0755)
	os.MkdirAll(tmp, 0755)
	args := []string{"serve"}
	opt := func(long, short, v string) {
		if v == "" {
			return
		}
		if c.short {
			args = append(args, "-"+short, v)
		} else {
			args = append(args, "--"+long+"="+v)
		}
	}
	opt("broadcast", "b", c.flag)
	opt("port", "p", c.port)
	opt("services", "s", c.services)
	dir := ""
	if c.dir != "" {
		dir = filepath.Join(root, c.dir)
		opt("directory", "d", dir)
	}
	env := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + home, "TMPDIR=" + tmp}
	if c.env != "" {
		env = append(env, "BROADCAST="+c.env)
	}
	text := "other: 1\n"
	if c.file != "" {
		text += "broadcast: \"" + c.file + "\"\n"
	}
	switch c.by {
	case "flag":
		p := filepath.Join(root, "c.yaml")
		os.WriteFile(p, []byte(text), 0644)
		args = append(args, "--config", p)
	case "env":
		p := filepath.Join(root, "c.yaml")
		os.WriteFile(p, []byte(text), 0644)
		env = append(env, "VERICONFIG="+p)
	case "home":
		os.WriteFile(filepath.Join(home, ".veri", "config.yaml"), []byte(text), 0644)
	}
	spec, _ := json.Marshal(args)
	out := filepath.Join(root, "report.json")
	env = append(env, "VERIF_C29_ARGS="+string(spec), "VERIF_C29_OUT="+out, "VERIF_C29_DIR="+root)
	p := exec.Command(os.Args[0], "-test.run", "^TestChild$")
	p.Env = env
	p.Dir = root
	log, err := p.CombinedOutput()
	var r report
	b, rerr := os.ReadFile(out)
	if rerr != nil || json.Unmarshal(b, &r) != nil {
		x.Failf("process", "veri %v: %v %v: %.1500s", args, err, rerr, log)
		return
	}
	x.Step(1)
	if c.port == "x" {
		if !r.Ended || r.Code == 0 {
			x.Failf("accepted", "port x: the process ended %v with %d", r.Ended, r.Code)
		}
		x.Out("refused")
		return
	}
	if r.Ended {
		x.Failf("ended", "veri %v ended with %d: %.1500s", args, r.Code, log)
		return
	}
	port := c.port
	if port == "" {
		port = "10000"
	}
	if strings.Join(r.Listens, ",") != port {
		x.Failf("port", "veri %v listens at %v, not %s", args, r.Listens, port)
	}
	b0 := c.flag
	if b0 == "" {
		b0 = c.env
	}
	if b0 == "" {
		b0 = c.file
	}
	var pn int
	fmt.Sscan(port, &pn)
	want := strings.Join(advertised(b0, pn), ",")
	if len(r.Joins) != len(split(c.services)) {
		x.Failf("join", "veri %v joined %v", args, r.Joins)
	}
	for _, s := range split(c.services) {
		for _, l := range r.Joins[s] {
			if strings.Join(l, ",") != want {
				x.Failf("advertised", "veri %v (env %q, file %q by %s) tells %s the addresses %v, not %s", args, c.env, c.file, c.by, s, l, want)
				return
			}
		}
	}
	used := false
	for _, d := range r.Dirs {
		used = used || dir != "" && vfs.Inside(dir, d)
		if !vfs.Inside(tmp, d) && (dir == "" || !vfs.Inside(dir, d)) {
			x.Failf("folder", "veri %v changes %s", args, d)
			return
		}
	}
	if dir != "" && !used {
		x.Failf("folder", "veri %v uses %v, not %s", args, r.Dirs, dir)
	}
	x.Out("%s %s", r.Listens, want)
}

// ---- schedules: a signal and inserts at any moment

func signals(n int) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		defer prepare(x)()
		dir := filepath.Join(x.Dir, "dir")
		c := conf{services: "localhost:7001", broadcast: "localhost", port: 7000, dir: dir}
		f := nlib.NewFake(1)
		cfg := lib.Config("d")
		cfg.NoTarget = true
		begin(c)
		defer over(c.port)
		synctest.Wait()
		nlib.Announce(nlib.Addr(0), nlib.Addr(1), cfg)
		first := lib.D(1, 1, "g", "first")
		nlib.Insert(nlib.Addr(0), "d", first, &pb.InsertConfig{Count: 1})
		time.Sleep(125 * time.Second)
		synctest.Wait()
		acked := []*pb.Datum{first}
		fs := []func(){func() { vsys.Raise(syscall.SIGTERM) }}
		for i := 0; i < n; i++ {
			i := i
			fs = append(fs, func() {
				d := lib.D(float32(i+2), 1, "g", fmt.Sprint("l", i))
				if nlib.Insert(nlib.Addr(0), "d", d, &pb.InsertConfig{Count: 1}) == nil {
					if e, _ := vsys.Ended(); !e {
						acked = append(acked, d)
					}
				}
			})
		}
		fs = append(fs, func() {
			<-vsys.End()
			for _, d := range acked {
				if f.Has("d", d) == 0 {
					x.Failf("lost", "the process has ended and the peer does not have %s", lib.KeyOf(d))
				}
			}
		})
		lib.Run(x, e, fs...)
		if _, code := vsys.Ended(); code != 0 {
			x.Failf("code", "exit code %d", code)
		}
		x.Out("%d", len(acked))
	}
}

// starting: a signal at any moment of the start; it may end the process at once as long as nobody listens to
// signals, but it is never lost.
func starting(wait bool, sigs ...syscall.Signal) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		defer prepare(x)()
		dir := filepath.Join(x.Dir, "dir")
		fill(dir)
		c := conf{services: "localhost:7001", broadcast: "localhost", port: 7000, dir: dir}
		nlib.NewFake(1)
		vsys.Reset()
		vfs.Dead = false
		defer func() {
			vsys.Raise(syscall.SIGTERM) // who listens only now
			time.Sleep(time.Hour)
			over(c.port)
		}()
		hangs := false
		fs := []func(){func() {
			go run(c)
		}}
		for _, s := range sigs {
			s := s
			var c <-chan bool
			if wait {
				c = vsys.Listens(s)
			}
			fs = append(fs, func() {
				if c != nil {
					<-c
				}
				vsys.Raise(s)
			})
		}
		fs = append(fs, func() {
			select {
			case <-vsys.End():
			case <-time.After(30 * time.Minute):
				hangs = true
			}
		})
		lib.Run(x, e, fs...)
		_, code := vsys.Ended()
		switch {
		case hangs:
			x.Failf("hangs", "%v is lost: the server is still running after half an hour", sigs)
		case code == 0:
		case !wait && code == 128+int(sigs[0]) || !wait && code == 128+int(sigs[len(sigs)-1]):
		default:
			x.Failf("code", "exit code %d", code)
		}
		kept(x, "after the signal", dir)
		x.Out("%d", code)
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "configurations", Gen: configurations, Share: 2},
		kit.Family{Name: "stops", Gen: stops, Share: 2},
		kit.Family{Name: "command-line", Gen: commandLine, NoBubble: true, Share: 2},
		kit.Family{Name: "schedules-signal", Bound: 1, BoundThorough: 2, Delay: true, Sched: signals(1), Share: 2},
		kit.Family{Name: "schedules-start", Bound: 1, BoundThorough: 2, Delay: true, Sched: starting(false, syscall.SIGTERM), Share: 2},
		kit.Family{Name: "schedules-start-listens", Bound: 1, BoundThorough: 2, Delay: true, Sched: starting(true, syscall.SIGTERM), Share: 2},
		kit.Family{Name: "schedules-start-two", Bound: 1, BoundThorough: 2, Delay: true, Sched: starting(false, syscall.SIGINT, syscall.SIGTERM), Share: 2},
	)
}
