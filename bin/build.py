#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.

  build.py OUTDIR [--race]

Produces OUTDIR/sim. Nothing is written outside OUTDIR and the Go build cache.
The shipped sources are never modified: patched copies of a few standard
library files, an instrumented copy of /repo's packages and the harness itself
are handed to the compiler with -overlay.
"""
import json, os, re, shutil, subprocess, sys, hashlib, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.27.3"
MODCACHE = "/root/go/pkg/mod"


class BuildError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOWORK="off", GOPATH="/root/go", GOMODCACHE=MODCACHE,
             GOCACHE=e.get("VERIF_GOCACHE", "/root/.cache/go-build"),
             PATH=GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin"))
    return e


def sub1(text, old, new, what, count=1):
    if text.count(old) != count:
        raise BuildError("cannot patch %s: expected %d occurrence(s) of %r, found %d"
                         % (what, count, old, text.count(old)))
    return text.replace(old, new)


def patch_std(out, replace):
    def src(p):
        with open(GOROOT + "/src/" + p) as f:
            return f.read()

    def put(p, text):
        q = out + "/std/" + p
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "w") as f:
            f.write(text)
        replace[GOROOT + "/src/" + p] = q

    t = src("runtime/proc.go")
    t = sub1(t, 'const haveSysmon = GOARCH != "wasm"', 'const haveSysmon = false', "haveSysmon")
    t = sub1(t, "const randomizeScheduler = raceenabled", "const randomizeScheduler = false", "randomizeScheduler")
    t = sub1(t, """		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
""", """		if simOn {
			if k := simPick(pp, h, t-h); k != 0 {
				gp := pp.runq[(h+k)%uint32(len(pp.runq))]
				for ; k > 0; k-- {
					pp.runq[(h+k)%uint32(len(pp.runq))] = pp.runq[(h+k-1)%uint32(len(pp.runq))]
				}
				pp.runq[h%uint32(len(pp.runq))] = gp
			}
			simHash = (simHash ^ pp.runq[h%uint32(len(pp.runq))].ptr().goid) * 1099511628211
		}
		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
""", "runqget")
    t = sub1(t, """	// Poll network.
	// This netpoll is only an optimization before we resort to stealing.
""", """	// Simulation: nothing is runnable, jump the clock to the next timer.
	if simOn && gomaxprocs == 1 && !mp.spinning && pollUntil != 0 {
		if pollUntil > faketime {
			faketime = pollUntil
		}
		goto top
	}

	// Poll network.
	// This netpoll is only an optimization before we resort to stealing.
""", "findRunnable")
    put("runtime/proc.go", t)

    t = src("runtime/panic.go")
    t = sub1(t, """func fatalpanic(msgs *_panic) {
""", """func fatalpanic(msgs *_panic) {
	simGhost()
""", "fatalpanic")
    put("runtime/panic.go", t)

    t = src("runtime/rand.go")
    t = sub1(t, """	seed := &globalRand.seed
	if len(startupRand) >= 16 &&""", """	seed := &globalRand.seed
	if true {
		for i := range seed {
			seed[i] = byte(i*7 + 1)
		}
	} else if len(startupRand) >= 16 &&""", "randinit")
    t = sub1(t, """	mp.cheaprand = uint32(rand())
	mp.cheaprand64 = rand()
""", """	mp.cheaprand = uint32(bootstrapRand())
	mp.cheaprand64 = bootstrapRand()
""", "mrandinit")
    t = sub1(t, """	mp := getg().m
	c := &mp.chacha8
""", """	if simOn {
		return simRand()
	}
	mp := getg().m
	c := &mp.chacha8
""", "rand")
    put("runtime/rand.go", t)

    t = src("runtime/select.go")
    t = sub1(t, "j := cheaprandn(uint32(norder + 1))", "j := randn(uint32(norder + 1))", "select")
    put("runtime/select.go", t)

    with open(VERIF + "/rt/time_fake.go") as f:
        put("runtime/time_fake.go", f.read())
    with open(VERIF + "/rt/runtime_sim_verif.go") as f:
        put("runtime/sim_verif.go", f.read())

    t = src("sync/pool.go")
    t = sub1(t, """	l, pid := p.pin()
	x := l.private
	l.private = nil
""", """	if p.New != nil && runtime_simPoolMiss() {
		if race.Enabled {
			race.Enable()
		}
		return p.New()
	}
	l, pid := p.pin()
	x := l.private
	l.private = nil
""", "pool.Get")
    t = sub1(t, """//go:linkname runtime_randn runtime.randn
""", """//go:linkname runtime_simPoolMiss runtime.simPoolMiss
func runtime_simPoolMiss() bool

//go:linkname runtime_randn runtime.randn
""", "pool linkname")
    put("sync/pool.go", t)

    t = src("net/dial.go")
    t = sub1(t, """func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
""", """func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if SimDial != nil {
		if d.Timeout != 0 || !d.Deadline.IsZero() {
			var cancel context.CancelFunc
			if d.Timeout != 0 {
				ctx, cancel = context.WithTimeout(ctx, d.Timeout)
				defer cancel()
			}
			if !d.Deadline.IsZero() {
				var cancel2 context.CancelFunc
				ctx, cancel2 = context.WithDeadline(ctx, d.Deadline)
				defer cancel2()
			}
		}
		return SimDial(ctx, network, address)
	}
""", "DialContext")
    t = sub1(t, """func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
""", """func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if SimListen != nil {
		return SimListen(network, address)
	}
""", "Listen")
    t += """
// Set by the simulation harness; the only network the process can reach.
var (
	SimDial   func(ctx context.Context, network, address string) (Conn, error)
	SimListen func(network, address string) (Listener, error)
)
"""
    put("net/dial.go", t)

    t = src("os/proc.go")
    t = sub1(t, """func Exit(code int) {
""", """func Exit(code int) {
	if SimExit != nil {
		SimExit(code)
	}
""", "os.Exit")
    t += """
// Set by the simulation harness: the end of a simulated process.
var SimExit func(code int)
"""
    put("os/proc.go", t)

    t = src("os/signal/signal.go")
    t = sub1(t, """func Notify(c chan<- os.Signal, sig ...os.Signal) {
""", """func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if SimNotify != nil {
		SimNotify(c, sig...)
		return
	}
""", "signal.Notify")
    t = sub1(t, """func Stop(c chan<- os.Signal) {
""", """func Stop(c chan<- os.Signal) {
	if SimStop != nil {
		SimStop(c)
		return
	}
""", "signal.Stop")
    t += """
// Set by the simulation harness: signals are simulated too.
var (
	SimNotify func(c chan<- os.Signal, sig ...os.Signal)
	SimStop   func(c chan<- os.Signal)
)
"""
    put("os/signal/signal.go", t)


def repo_packages():
    """Directories of /repo holding non-test Go files of the module's packages."""
    res = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if not x.startswith((".", "_")) and x not in ("testdata", "vendor"))
        if any(f.endswith(".go") and not f.endswith("_test.go") for f in files):
            res.append(d)
    return sorted(res)


SARAMA = ("github.com/Shopify/sarama", "v1.26.1", "github.com/!shopify/sarama@v1.26.1")


def sarama_copy():
    """A copy of the sarama module with the simulated cluster added. It lives at
    a path that depends on its content only, so the compiler's cache is of use."""
    h = hashlib.sha256()
    extra = VERIF + "/simkafka"
    for f in sorted(os.listdir(extra)):
        with open(extra + "/" + f, "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read())
    dst = VERIF + "/.build/sarama-" + h.hexdigest()[:16]
    if os.path.isdir(dst):
        return dst
    os.makedirs(VERIF + "/.build", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="sarama-tmp-", dir=VERIF + "/.build")
    src = MODCACHE + "/" + SARAMA[2]
    for f in sorted(os.listdir(src)):
        if (f.endswith(".go") and not f.endswith("_test.go")) or f in ("go.mod", "go.sum"):
            shutil.copyfile(src + "/" + f, tmp + "/" + f)
    for f in os.listdir(extra):
        shutil.copyfile(extra + "/" + f, tmp + "/" + f)
    try:
        os.rename(tmp, dst)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.path.isdir(dst):
            raise
    return dst


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def build(out, race=False):
    out = os.path.abspath(out)
    os.makedirs(out, exist_ok=True)
    env = goenv()
    replace = {}
    patch_std(out, replace)

    # instrumented copies of the code under test
    instr = out + "/instr"
    run(["go", "build", "-o", instr, "."], cwd=VERIF + "/tools/instr",
        env=dict(env, GOFLAGS="-mod=mod"))
    files = []
    for d in repo_packages():
        for f in sorted(os.listdir(d)):
            if f.endswith(".go") and not f.endswith("_test.go"):
                files.append(d + "/" + f)
    idir = out + "/repo"
    shutil.rmtree(idir, ignore_errors=True)
    mapping = json.loads(run([instr, REPO, idir] + files, env=env))
    replace.update(mapping)

    # the harness becomes package <module>/zz_verifsim
    for f in sorted(os.listdir(VERIF + "/sim")):
        if f.endswith(".go"):
            replace[REPO + "/zz_verifsim/" + f] = VERIF + "/sim/" + f
    for f in ("go.mod", "go.sum"):
        shutil.copyfile(REPO + "/" + f, out + "/" + f)
    with open(out + "/go.mod") as f:
        mod = f.read()
    if re.search(r"^\s*(require\s+)?%s\s+%s\b" % (re.escape(SARAMA[0]), re.escape(SARAMA[1])), mod, re.M) is None:
        raise BuildError("go.mod does not require %s %s" % SARAMA[:2])
    with open(out + "/go.mod", "a") as f:
        f.write("\nreplace %s => %s\n" % (SARAMA[0], sarama_copy()))

    with open(out + "/overlay.json", "w") as f:
        json.dump({"Replace": replace}, f, indent=1, sort_keys=True)

    cmd = ["go", "build", "-tags", "faketime", "-trimpath=false", "-modfile", out + "/go.mod",
           "-overlay", out + "/overlay.json", "-o", out + "/sim" + ("-race" if race else "")]
    if race:
        cmd.append("-race")
    run(cmd + ["./zz_verifsim"], cwd=REPO, env=env)
    return out + "/sim" + ("-race" if race else "")


if __name__ == "__main__":
    t0 = time.time()
    try:
        p = build(sys.argv[1], "--race" in sys.argv)
    except BuildError as e:
        print("BUILD-ERROR", e)
        sys.exit(3)
    print("built", p, "in %.1fs" % (time.time() - t0))
