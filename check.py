#!/usr/bin/env python3
"""Runs one check:  check.py C04 [quick|thorough] [--replay FILE] [--keep] [--family SUBSTR]

Builds the units of the check from /repo's current working tree (into a scratch directory, through a build
overlay; /repo is not written), runs them in 8 shards, merges the coverage into evidence/<id>.json.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check could not run.
"""
import sys, os, json, subprocess, tempfile, shutil, time, signal, re, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NSH = int(os.environ.get("VERIF_SHARDS", "8"))
HANG = 90  # seconds without progress of one case (cases take milliseconds)

UNPRIV = 65534
RUNTMP = None

ENV = dict(os.environ)
ENV.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1", GONOSUMDB="*",
           GONOSUMCHECK="1", GOFLAGS_EXTRA="")
ENV.setdefault("HOME", "/root")


def die(msg):
    print("check.py: " + msg)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tool(scratch):
    out = os.path.join(scratch, "instrument")
    r = sh(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "tools/instrument"), env=ENV)
    if r.returncode:
        die("cannot build the instrumenter:\n" + r.stdout)
    return out


def modfile(scratch):
    d = os.path.join(scratch, "mod")
    os.makedirs(d)
    s = open(os.path.join(REPO, "go.mod")).read()
    s += "\nreplace github.com/bgokden/go-cache => %s\n" % os.path.join(VERIF, "third_party/go-cache")
    open(os.path.join(d, "go.mod"), "w").write(s)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))
    return os.path.join(d, "go.mod")


def overlay_dir(rep, src, dst, tests=False):
    for f in sorted(glob.glob(os.path.join(src, "*.go"))):
        rep[os.path.join(REPO, "zzverif", dst, os.path.basename(f))] = f


def build_unit(unit, scratch, tool, mod):
    """Returns the path of the test binary."""
    d = os.path.join(scratch, unit["dir"])
    os.makedirs(d, exist_ok=True)
    rep = {}
    for e in ("vmc", "kit", "vnet", "vfs", "vsys"):
        overlay_dir(rep, os.path.join(VERIF, "engine", e), e)
    for l in ("lib", "nlib"):
        overlay_dir(rep, os.path.join(VERIF, "checks", l), l)
    overlay_dir(rep, os.path.join(VERIF, "checks", unit["dir"]), unit["dir"])
    if unit.get("stub"):
        rep[os.path.join(REPO, "annoyindex/annoyindex.go")] = os.path.join(VERIF, "engine/annoystub/annoyindex.go")
        for f in glob.glob(os.path.join(REPO, "annoyindex", "*")):
            if f.endswith((".cxx", ".h", ".cc", ".cpp")):
                rep[f] = ""
    pkgs = unit.get("pkgs", "data,node,util")
    if unit.get("points") or unit.get("net", True) or unit.get("fs") or unit.get("srv"):
        args = [tool, "-repo", REPO, "-out", os.path.join(d, "src"), "-modfile", mod, "-pkgs", pkgs,
                "-sites", os.path.join(d, "sites")]
        if unit.get("points"):
            args += ["-points", "-nopoints", unit.get("nopoints", "")]
        if unit.get("net", True):
            args += ["-net"]
        if unit.get("fs"):
            args += ["-fs"]
        if unit.get("srv"):
            args += ["-srv"]
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV)
        if r.returncode:
            die("instrumentation of %s failed:\n%s" % (unit["dir"], r.stderr))
        for line in r.stdout.splitlines():
            a, b = line.split("\t")
            rep[a] = b
    # engine packages exist only in the overlay; export data for go list is not needed for them
    ov = os.path.join(d, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    binp = os.path.join(d, "t.bin")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-overlay", ov, "-o", binp]
    if unit.get("race"):
        cmd.append("-race")
    r = sh(cmd + ["./zzverif/" + unit["dir"]], cwd=REPO, env=ENV)
    if r.returncode or not os.path.exists(binp):
        die("building %s failed:\n%s" % (unit["dir"], r.stdout[-6000:]))
    return binp


class Shard:
    def __init__(self, binp, i, n, budget, tier, d, extra, unpriv=False):
        self.out = os.path.join(d, "out.%d" % i)
        self.status = os.path.join(d, "status.%d" % i)
        self.log = os.path.join(d, "log.%d" % i)
        self.tmp = os.path.join(RUNTMP or d, os.path.basename(d) + ".tmp.%d" % i)
        os.makedirs(self.tmp, exist_ok=True)
        env = dict(ENV)
        env.update(VERIF_OUT=self.out, VERIF_STATUS=self.status, VERIF_SHARD="%d/%d" % (i, n), VERIF_TIER=tier,
                   VERIF_BUDGET=str(budget), TMPDIR=self.tmp, GOMAXPROCS="2", GOTRACEBACK="single")
        env.update(extra)
        kw = dict(cwd=self.tmp, env=env, stdout=open(self.log, "w"), stderr=subprocess.STDOUT, start_new_session=True)
        cmd = [binp, "-test.run", "^TestCheck$", "-test.timeout", "0"]
        self.p = None
        if unpriv:  # as a user that owns nothing but this scratch folder
            try:
                for f in (self.tmp, d):
                    os.chown(f, UNPRIV, UNPRIV)
                for f in (d, os.path.dirname(d), os.path.dirname(self.tmp), os.path.dirname(binp), os.path.dirname(os.path.dirname(binp))):
                    os.chmod(f, 0o755)
                self.p = subprocess.Popen(cmd, user=UNPRIV, group=UNPRIV, extra_groups=[], **kw)
            except (OSError, subprocess.SubprocessError):
                self.p = None  # not permitted here; the recording file calls still confine it
        if self.p is None:
            self.p = subprocess.Popen(cmd, **kw)
        self.hung = False
        self.t0 = time.time()

    def poll(self):
        rc = self.p.poll()
        if rc is None:
            try:
                m = os.stat(self.status).st_mtime
            except OSError:
                m = self.t0
            if time.time() - max(m, self.t0) > HANG:
                self.hung = True
                self.kill()
        return rc

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def result(self):
        try:
            return json.load(open(self.out))
        except Exception:
            return None

    def case(self):
        try:
            return json.loads(open(self.status).read().split("\n")[0])
        except Exception:
            return None

    def tail(self):
        try:
            s = open(self.log, errors="replace").read()
        except OSError:
            return ""
        i = s.find("panic:")
        j = s.find("fatal error:")
        k = min([x for x in (i, j) if x >= 0], default=max(0, len(s) - 2500))
        return s[k:k + 2500]


def run_shards(binp, n, budget, tier, d, extra, unpriv=False):
    os.makedirs(d, exist_ok=True)
    shards = [Shard(binp, i, n, budget, tier, d, extra, unpriv) for i in range(n)]
    end = time.time() + budget + HANG + 60
    while True:
        live = [s for s in shards if s.poll() is None and not s.hung]
        if not live:
            break
        if time.time() > end:
            for s in live:
                s.hung = True
                s.kill()
            break
        time.sleep(0.05)
    return shards


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(p)).get("findings", [])
    except FileNotFoundError:
        return []


def main():
    args = sys.argv[1:]
    keep = "--keep" in args
    args = [a for a in args if a != "--keep"]
    replay = None
    extra = {}
    if "--replay" in args:
        i = args.index("--replay")
        replay = json.load(open(args[i + 1]))
        del args[i:i + 2]
    if "--family" in args:
        i = args.index("--family")
        extra["VERIF_FAMILY"] = args[i + 1]
        del args[i:i + 2]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    conf = json.load(open(os.path.join(VERIF, "checks", "checks.json")))[pid]
    budget = float(os.environ.get("VERIF_BUDGET_S", conf.get("budget", {}).get(tier, 30 if tier == "quick" else 300)))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vrf-%s-" % pid)
    ENV["TMPDIR"] = scratch
    rc = 2
    global RUNTMP
    if os.access("/dev/shm", os.W_OK):  # the files of the cases are small and short-lived
        RUNTMP = tempfile.mkdtemp(prefix="vrf-%s-" % pid, dir="/dev/shm")
    try:
        rc = work(pid, tier, conf, budget, scratch, replay, extra, t0)
    finally:
        if RUNTMP:
            shutil.rmtree(RUNTMP, ignore_errors=True)
        if keep:
            print("scratch kept: " + scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def work(pid, tier, conf, budget, scratch, replay, extra, t0):
    tool = build_tool(scratch)
    mod = modfile(scratch)
    units = conf["units"]
    fams, viols, flaky, crashed = {}, [], [], []
    for u in units:
        if u.get("only") and u["only"] != tier:
            continue
        if replay and replay.get("unit") != u["dir"]:
            continue
        binp = build_unit(u, scratch, tool, mod)
        if os.environ.get("VERIF_DEBUG"):
            print("built %s at %.1fs" % (u["dir"], time.time() - t0))
        if replay:
            d = os.path.join(scratch, "replay")
            e = dict(extra, VERIF_REPLAY=json.dumps(replay))
            s = run_shards(binp, 1, 600, tier, d, e, u.get("unpriv"))[0]
            res = s.result()
            if s.hung or s.p.returncode not in (0,) or res is None:
                print(s.tail())
                print("VIOLATION property=%s replay=%s" % (pid, "(replayed: crash or hang)"))
                return 1
            for v in res["violations"] or []:
                print(json.dumps(v, indent=1))
                print("VIOLATION property=%s replay=%s" % (pid, "(replayed)"))
                return 1
            print("replay: no violation")
            return 0
        share = u.get("share", 1.0) / sum(x.get("share", 1.0) for x in units if not x.get("only") or x["only"] == tier)
        d = os.path.join(scratch, "run-" + u["dir"])
        shards = run_shards(binp, u.get("shards", NSH), budget * share, tier, d, extra, u.get("unpriv"))
        sites = []
        try:
            sites = open(os.path.join(scratch, u["dir"], "sites")).read().split("\n")
        except OSError:
            pass
        for s in shards:
            res = s.result() or {"families": [], "violations": [], "flaky": [], "done": False}
            for f in res["families"] or []:
                g = fams.setdefault(u["dir"] + "/" + f["name"], dict(cases=0, execs=0, steps=0, decisions=0, outcomes=set(),
                                    states=set(), bound=99, target=0, capped=False, leaks=0, samples=[], wall=0.0, shards=0))
                for k in ("cases", "execs", "steps", "decisions", "leaks"):
                    g[k] += f[k]
                g["outcomes"].update(f["outcomes"] or [])
                g["states"].update(f["states"] or [])
                g["bound"] = min(g["bound"], f["bound"])
                g["target"] = max(g["target"], f["target"])
                g["capped"] = g["capped"] or f["capped"]
                g["wall"] = max(g["wall"], f["wall"])
                g["shards"] += 1
                if len(g["samples"]) < 3:
                    g["samples"] += (f["samples"] or [])[:3 - len(g["samples"])]
            for v in res["violations"] or []:
                v["unit"] = u["dir"]
                v["trace"] = [re.sub(r"@(\d+)$", lambda m: "@" + sites[int(m.group(1))].replace(REPO + "/", ""), t)
                              if re.search(r"@\d+$", t) and int(t.rsplit("@", 1)[1]) < len(sites) else t
                              for t in v.get("trace") or []]
                viols.append(v)
            flaky += res["flaky"] or []
            if s.hung or s.p.returncode != 0 or not res.get("done"):
                c = s.case() or {}
                if c.get("family"):
                    # confirm: the case alone must crash or hang again
                    rep = 0
                    if [v for v in viols if v["sig"] in ("hang", "crash")]:
                        continue  # one confirmed case is enough
                    for k in range(3):
                        if k and time.time() - t0 > 600 and tier == "quick":
                            break
                        e = dict(extra, VERIF_REPLAY=json.dumps(c))
                        r = run_shards(binp, 1, 300, tier, os.path.join(d, "confirm%d" % k), e, u.get("unpriv"))[0]
                        rr = r.result()
                        if r.hung or r.p.returncode != 0 or rr is None or rr.get("violations"):
                            rep += 1
                            break
                    what = "does not terminate" if s.hung else "process crashed"
                    v = dict(unit=u["dir"], family=c["family"], idx=c.get("idx", 0), schedule=c.get("schedule"), starve=c.get("starve", False),
                             sig="hang" if s.hung else "crash", msg=what + "\n" + s.tail(), desc="", repro=rep + 1, tries=2)
                    (viols if rep else flaky).append(v)
                    crashed.append(v)
                else:
                    crashed.append(dict(msg="shard ended with %s\n%s" % (s.p.returncode, s.tail())))
        if viols and not os.environ.get("VERIF_ALL"):
            break
    known = load_known()
    news, seen = [], []
    for v in viols:
        k = None
        for f in known:
            if f["property"] == pid and re.search(f["family"], v["family"]) and f["sig"] == v["sig"] and \
                    re.search(f.get("match", ""), v.get("desc", "") + "\n" + v.get("msg", "")):
                k = f
        if k:
            if k not in seen:
                seen.append(k)
        else:
            news.append(v)
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    states = sum(len(g["states"]) or len(g["outcomes"]) or g["cases"] for g in fams.values())
    trans = sum(g["steps"] for g in fams.values())
    execs = sum(g["execs"] for g in fams.values())
    outcomes = sum(len(g["outcomes"]) for g in fams.values())
    exhaustive = all(not g["capped"] and g["shards"] > 0 for g in fams.values()) and not crashed and bool(fams)
    fam_out = []
    samples = []
    for n, g in sorted(fams.items()):
        fam_out.append(dict(family=n, cases=g["cases"], executions=g["execs"], transitions=g["steps"], decisions=g["decisions"],
                            distinct_outcomes=len(g["outcomes"]), distinct_states=len(g["states"]), deviation_bound_completed=g["bound"],
                            deviation_bound_target=g["target"], capped=g["capped"], abandoned_goroutine_sets=g["leaks"],
                            wall_s=round(g["wall"], 2)))
        samples += [dict(family=n, case=s) for s in g["samples"][:2]]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=conf.get("level", "model_checking"),
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=execs, distinct_outcomes=outcomes,
                            exhaustive=exhaustive, families=fam_out, samples=samples,
                            note="every execution is an execution of the real code of /repo (no separate model)",
                            unreproduced=[dict(family=v.get("family"), sig=v.get("sig"), msg=v.get("msg", "")[:300]) for v in flaky][:10]),
              assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(news))
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d outcomes, exhaustive=%s, %.1fs" % (
        pid, tier, execs, states, trans, outcomes, exhaustive, time.time() - t0))
    for f in fam_out:
        print("  %-40s cases=%-8d execs=%-8d steps=%-9d outcomes=%-5d bound=%d/%d capped=%s leaks=%d %.1fs" % (
            f["family"], f["cases"], f["executions"], f["transitions"], f["distinct_outcomes"], f["deviation_bound_completed"],
            f["deviation_bound_target"], f["capped"], f["abandoned_goroutine_sets"], f["wall_s"]))
    if flaky:
        print("  unreproduced observations: %d (%s)" % (len(flaky), flaky[0].get("sig", "") + ": " + flaky[0].get("msg", "")[:200]))
    for c in crashed:
        if "sig" not in c:
            print("  " + c["msg"])
    if news:
        news.sort(key=lambda v: (len([c for c in (v.get("schedule") or []) if c]), v.get("idx", 0)))
        v = news[0]
        path = os.path.join(VERIF, "evidence", "replays", "%s-%s.json" % (pid, re.sub(r"\W+", "_", v["family"] + "_" + v["sig"])))
        json.dump(v, open(path, "w"), indent=1)
        print("  property %s, family %s, %s (%d of %d tries)" % (pid, v["family"], v["sig"], v.get("repro", 0), v.get("tries", 0)))
        print("  case: " + v.get("desc", "")[:1500])
        print("  " + v["msg"][:2500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if not fams or any(("sig" not in c) for c in crashed):
        return 2
    return 0


main()
