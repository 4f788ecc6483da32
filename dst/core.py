"""Deterministic simulation engine: build, run, gate, minimise, report."""
import ctypes, hashlib, json, os, resource, random, shutil, subprocess, sys, tempfile, time, fcntl, signal
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))
NCPU = int(os.environ.get("DST_JOBS", "0")) or os.cpu_count() or 4

VARIANTS = {
    "plain": "-O1 -g0 -w",
    "san": "-O1 -g1 -w -fsanitize=address,bounds,null,integer-divide-by-zero,return,unreachable -fno-omit-frame-pointer",
}


class CheckError(Exception):
    pass


# ----------------------------------------------------------------- build
ALLSIMS = ["s51", "stm8", "z80", "avr", "m6800", "m68hc11", "m68hc08", "m6809", "m68hc12", "mos6502", "rxk", "tlcs",
           "xa", "st7", "pdk", "p1516", "pblaze", "i8085", "f8", "i8048", "oisc"]


def build(variant="plain", log=True, sims=None):
    """Out-of-tree build of REPO's working tree; returns the build directory."""
    sims = list(sims or ALLSIMS)
    os.makedirs(BUILD, exist_ok=True)
    b = os.path.join(BUILD, variant)
    os.makedirs(b, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    shim_src = os.path.join(VERIF, "dst", "shim.c")
    shim = os.path.join(BUILD, "libdst.so")
    with open(os.path.join(BUILD, ".lock-shim"), "w") as sl:
        fcntl.flock(sl, fcntl.LOCK_EX)
        if not os.path.exists(shim) or os.path.getmtime(shim) < os.path.getmtime(shim_src):
            subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-w", "-o", shim + ".t", shim_src, "-ldl"],
                           check=True)
            os.rename(shim + ".t", shim)
    env = {k: v for k, v in os.environ.items()
           if k not in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "MFLAGS")}
    env["LC_ALL"] = "C.UTF-8"
    fl = VARIANTS[variant]
    script = f"""
set -e
export CC=gcc CXX=g++
cd {b}
sum=$(cd {REPO} && {{ find . -path ./_build -prune -o -path ./.git -prune -o \\( -name '*.in' -o -name '*_in.*' -o -name configure -o -name .version \\) -type f -print | LC_ALL=C sort | xargs cksum; }} | cksum)
if [ ! -f config.status ] || [ "$sum {fl} {REPO}" != "$(cat .dst-configured 2>/dev/null)" ]; then
  rm -f .dst-configured
  ASAN_OPTIONS=detect_leaks=0 bash {REPO}/configure CC=gcc CXX=g++ CFLAGS='{fl}' CXXFLAGS='{fl}' || exit 1
  echo "$sum {fl} {REPO}" > .dst-configured
fi
find src -name '*.o' | while read -r o; do
  [ -e "{REPO}/${{o%.o}}.cc" ] || [ -e "{REPO}/${{o%.o}}.l" ] || [ -e "{REPO}/${{o%.o}}.y" ] || rm -f "$o"
done
find src -name '*.dep' -delete
mkdir -p src/sims/i8048.src
for h in genal.h decode.h gen.h; do ln -sf {REPO}/src/sims/i8048.src/$h src/sims/i8048.src/$h; done
export ASAN_OPTIONS=detect_leaks=0
export OPT=1
make -j{NCPU} libs MAKEDEP='g++ -E -MM -MP' || make libs MAKEDEP='g++ -E -MM -MP' || exit 1
echo {' '.join(sims)} | tr ' ' '\n' | xargs -P {NCPU} -I% make -j4 -C src/sims/%.src all MAKEDEP='g++ -E -MM -MP'
for n in {' '.join(sims)}; do
  d=src/sims/$n.src; [ $n = s51 ] && n=51
  [ -x $d/ucsim_$n ] || {{ echo "missing $d/ucsim_$n"; exit 1; }}
done
"""
    r = subprocess.run(["bash", "-c", script], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    with open(os.path.join(BUILD, f"build-{variant}.log"), "w") as f:
        f.write(r.stdout)
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:])
        raise CheckError("build failed")
    if log:
        print(f"build[{variant}] {time.time()-t0:.1f}s", flush=True)
    return b


def simbin(sim, variant="plain"):
    n = "51" if sim == "s51" else sim
    return os.path.join(BUILD, variant, "src", "sims", sim + ".src", "ucsim_" + n)


# ----------------------------------------------------------------- scenario
def hx(b):
    return b.hex() if b else "-"


class Scn:
    """One fully explicit execution: binary, arguments, environment script."""

    def __init__(self, sim, args=()):
        self.sim, self.args, self.lines, self.perturb, self.variant = sim, list(args), [], 0, "plain"

    def file(self, path, data=b""):
        self.lines.append(f"file {path} file {hx(data)}")
        return self

    def ep(self, name, kind):
        self.lines.append(f"ep {name} {kind}")
        return self

    def client(self, name, port):
        self.lines.append(f"client {name} {port}")
        return self

    def connect(self, name):
        self.lines.append(f"in {name} C")
        return self

    def data(self, name, b):
        if isinstance(b, str):
            b = b.encode("latin1")
        if b:
            self.lines.append(f"in {name} d {b.hex()}")
        return self

    def op(self, name, k, *a):
        self.lines.append(("in %s %s " % (name, k) + " ".join(str(x) for x in a)).rstrip())
        return self

    def polls(self, name, n): return self.op(name, "p", n)
    def calls(self, name, n): return self.op(name, "c", n)
    def time(self, name, ns): return self.op(name, "t", ns)
    def eof(self, name): return self.op(name, "x")
    def reset(self, name): return self.op(name, "r")
    def err(self, name, e): return self.op(name, "e", e)
    def short(self, name, n): return self.op(name, "z", n)

    def wait_out(self, name, target, pat):
        if isinstance(pat, str):
            pat = pat.encode("latin1")
        return self.op(name, "o", target, pat.hex())

    def wait_consumed(self, name, target): return self.op(name, "q", target)
    def raw(self, s):
        self.lines.append(s)
        return self

    def wfault(self, name, at, kind, n=0):
        self.lines.append(f"w {name} {at} {kind} {n}")
        return self

    def rfault(self, path, at, kind, n):
        """at-th read of a file: short n bytes | err errno"""
        self.lines.append(f"r {path} {at} {kind} {n}")
        return self

    def gfault(self, what, at, k, n):
        self.lines.append(f"f {what} {at} {k} {n}")
        return self

    def js(self):
        return {"sim": self.sim, "args": self.args, "lines": self.lines, "perturb": self.perturb,
                "variant": self.variant}

    @staticmethod
    def from_js(d):
        s = Scn(d["sim"], d["args"])
        s.lines, s.perturb, s.variant = d["lines"], d["perturb"], d.get("variant", "plain")
        return s


class EP:
    __slots__ = ("name", "cur", "nops", "unread", "nread", "polls", "writes", "accepted", "opened", "closed",
                 "wouldblock", "deadreads", "out", "segs")


class Res:
    def __init__(self):
        self.end, self.code, self.stats, self.faults, self.eps, self.hash = None, None, {}, {}, {}, None
        self.rc, self.stderr_real = None, b""

    @property
    def out(self):
        return self.eps["stdout"].out

    @property
    def text(self):
        return self.eps["stdout"].out.decode("latin1") if "stdout" in self.eps else ""

    def ok(self):
        return self.end == "exit" or self.end == "_exit"


_tmp = None


def _tmpdir():
    global _tmp
    if _tmp is None or _tmp[0] != os.getpid():
        base = os.path.join(BUILD, "run")
        os.makedirs(base, exist_ok=True)
        _tmp = (os.getpid(), tempfile.mkdtemp(dir=base))
    return _tmp[1]


_noaslr = False


def _fix_personality():
    global _noaslr
    if not _noaslr:
        ctypes.CDLL(None).personality(0x0040000)
        _noaslr = True


WALL_LIMIT = 120
CPU_LIMIT = int(os.environ.get("DST_CPU", "10"))


def _limits(n=CPU_LIMIT):
    # a simulated program that loops without ever meeting the simulated host is ended by CPU time, not by the wall clock
    resource.setrlimit(resource.RLIMIT_CPU, (n, n))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_scn(s, trace=None):
    _fix_personality()
    d = _tmpdir()
    sp, rp = os.path.join(d, "scn"), os.path.join(d, "res")
    with open(sp, "w") as f:
        f.write("\n".join(s.lines) + "\n")
    try:
        os.unlink(rp)
    except OSError:
        pass
    env = {"DST_SCN": sp, "DST_RES": rp, "PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TZ": "UTC", "LC_ALL": "C",
           "GLIBC_TUNABLES": "glibc.malloc.perturb=%d" % s.perturb,
           "LD_PRELOAD": os.path.join(BUILD, "libdst.so")}
    if s.variant == "san":
        env["LD_PRELOAD"] += " " + _asan()
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=1:allow_user_segv_handler=0:"
                               "verify_asan_link_order=0:log_path=" + os.path.join(d, "asan"))
        env["UBSAN_OPTIONS"] = "halt_on_error=0:print_stacktrace=1:log_path=" + os.path.join(d, "asan")
        for x in os.listdir(d):
            if x.startswith("asan."):
                os.unlink(os.path.join(d, x))
    if trace:
        env["DST_TRACE"] = trace
    r = Res()
    p = subprocess.Popen([simbin(s.sim, s.variant)] + s.args, env=env, stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE if s.variant == "san" else subprocess.DEVNULL,
                         cwd=d, close_fds=True, preexec_fn=_limits if s.variant != "san" else lambda: _limits(3 * CPU_LIMIT))
    try:
        _, err = p.communicate(timeout=WALL_LIMIT * (4 if s.variant == "san" else 1))
        r.stderr_real = err or b""
        r.rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        r.end, r.code, r.rc, r.hash = "wall", 0, -9, "wall"
        return r
    if s.variant == "san":
        for x in sorted(os.listdir(d)):
            if x.startswith("asan."):
                with open(os.path.join(d, x), "rb") as f:
                    r.stderr_real += f.read()
    try:
        with open(rp, "rb") as f:
            txt = f.read().decode("latin1")
    except OSError:
        if r.rc in (-24, -9):
            r.end, r.code, r.hash = "cpuloop", 0, "cpuloop"
            return r
        r.end, r.code, r.hash = "noresult", r.rc, "noresult%d" % r.rc
        return r
    for line in txt.split("\n"):
        if not line:
            continue
        t = line.split(" ")
        if t[0] == "ep":
            e = EP()
            e.name = t[1]
            (e.cur, e.nops, e.unread, e.nread, e.polls, e.writes, e.accepted, e.opened, e.closed, e.wouldblock,
             e.deadreads) = map(int, t[2:13])
            e.out = bytes.fromhex(t[13][1:])
            e.segs = t[14] if len(t) > 14 else ""
            r.eps[e.name] = e
        elif t[0] == "stat":
            r.stats[t[1]] = int(t[2])
        elif t[0] == "fault":
            r.faults[t[1]] = int(t[2])
        elif t[0] == "end":
            r.end, r.code = t[1], int(t[2])
        elif t[0] == "hash":
            r.hash = t[1]
    return r


_asanlib = None


def _asan():
    global _asanlib
    if _asanlib is None:
        _asanlib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        _asanlib = os.path.realpath(_asanlib)
        ub = os.path.realpath(subprocess.check_output(["gcc", "-print-file-name=libubsan.so"], text=True).strip())
        _asanlib += " " + ub
    return _asanlib


class Ctx:
    """What a property's check may use: run scenarios; everything is accounted."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.runs, self.vtime, self.calls, self.faults, self.hashes, self.ticks = 0, 0, 0, {}, [], 0
        self.marks = {}
        self.last = None

    def run(self, s, allow=("exit", "_exit")):
        r = run_scn(s)
        self.runs += 1
        self.h.update((r.hash or "").encode())
        self.hashes.append(r.hash)
        self.vtime += r.stats.get("vtime", 0)
        self.calls += r.stats.get("calls", 0)
        for k, v in r.faults.items():
            self.faults[k] = self.faults.get(k, 0) + v
        self.last = (s, r)
        return r

    def mark(self, k, n=1):
        self.marks[k] = self.marks.get(k, 0) + n


class Viol(Exception):
    """A property violation: sig identifies the failing history class."""

    def __init__(self, sig, msg):
        Exception.__init__(self, msg)
        self.sig, self.msg = sig, msg


def crashcheck(r, s=None, sig="crash"):
    if r.end == "signal":
        raise Viol(f"{sig}:signal{r.code}", f"simulator died with signal {r.code}; stdout tail {r.text[-300:]!r}")
    if r.end in ("wall", "limit", "blocked", "blocked_accept", "noresult", "cpuloop"):
        raise Viol(f"{sig}:{r.end}", f"simulator did not finish: {r.end} rc={r.rc} stats={r.stats} "
                   f"tail={r.text[-300:] if 'stdout' in r.eps else ''!r}")


def run_case(prop, case):
    """-> dict(result of one case)"""
    c = Ctx()
    v = None
    try:
        prop.check(case, c)
    except Viol as e:
        v = {"sig": e.sig, "msg": e.msg}
    return {"viol": v, "digest": c.h.hexdigest(), "runs": c.runs, "vtime": c.vtime, "calls": c.calls,
            "faults": c.faults, "hashes": c.hashes, "marks": c.marks, "ticks": c.ticks}


_prop = None


def _winit(propid):
    global _prop
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import load_prop
    _prop = load_prop(propid)


def _wjob(a):
    tier, seed, idx, corpus, again = a
    try:
        case = corpus if corpus is not None else mkcase(_prop, tier, seed, idx)
        r = run_case(_prop, case)
        if again:
            r2 = run_case(_prop, case)
            r["same"] = (r2["digest"] == r["digest"] and
                         (r2["viol"] or {}).get("sig") == (r["viol"] or {}).get("sig"))
        r["idx"] = idx
        if r["viol"]:
            r["case"] = case
        r["trivial"] = bool(getattr(_prop, "trivial", lambda c: False)(case))
        return r
    except Exception as e:  # noqa: an error of the check, not a verdict
        import traceback
        return {"error": traceback.format_exc(), "idx": idx}


def mkcase(prop, tier, seed, idx):
    rng = random.Random(f"{prop.ID}|{seed}|{idx}")
    return prop.gen(rng, tier)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid]
    except FileNotFoundError:
        return []


def generic_shrinks(case):
    """Candidate reductions: drop chunks of every list named in case['_lists']."""
    for key in case.get("_lists", []):
        lst = case[key]
        n = len(lst)
        size = max(1, n // 2)
        while size >= 1 and n:
            for i in range(0, n, size):
                c = dict(case)
                c[key] = lst[:i] + lst[i + size:]
                yield c
            if size == 1:
                break
            size //= 2


def minimise(prop, case, sig, deadline):
    best = case
    progress = True
    tried = 0
    while progress and time.time() < deadline:
        progress = False
        gens = [generic_shrinks(best)]
        if hasattr(prop, "shrink"):
            gens.insert(0, prop.shrink(best))
        for g in gens:
            for c in g:
                if time.time() > deadline:
                    return best, tried
                tried += 1
                try:
                    r = run_case(prop, c)
                except Exception:
                    continue
                if r["viol"] and r["viol"]["sig"] == sig:
                    best = c
                    progress = True
                    break
            if progress:
                break
    return best, tried


def check_main(prop, tier, seed, budget=None, maxcases=None):
    t0 = time.time()
    for v in getattr(prop, "VARIANTS", ["plain"]) if tier == "quick" else getattr(prop, "TVARIANTS", getattr(prop, "VARIANTS", ["plain"])):
        build(v, sims=getattr(prop, "SIMS", None))
    tb = time.time() - t0
    if budget is None:
        budget = getattr(prop, "QUICK_S", 60) if tier == "quick" else getattr(prop, "THOROUGH_S", 600)
    if maxcases is None:
        maxcases = getattr(prop, "QUICK_N", 100000) if tier == "quick" else getattr(prop, "THOROUGH_N", 10 ** 9)
    ts = time.time()
    known = known_findings(prop.ID)
    ksigs = {k["sig"] for k in known}
    corpus = list(getattr(prop, "corpus", lambda: [])())

    def jobs():
        for i, c in enumerate(corpus):
            yield (tier, seed, -1 - i, c, True)
        i = 0
        while i < maxcases and time.time() - ts < budget:
            yield (tier, seed, i, None, i % 16 == 0)
            i += 1

    tot = {"runs": 0, "vtime": 0, "calls": 0, "ticks": 0}
    faults, marks, hashes, digests = {}, {}, set(), set()
    ncase = ntriv = gated = 0
    viols, kseen, samples = [], {}, []
    with mp.Pool(NCPU, _winit, (prop.ID,)) as pool:
        it = _bounded(pool, jobs(), NCPU * 3)
        for r in it:
            if "error" in r:
                print("ERROR in check:", r["error"])
                pool.terminate()
                raise CheckError("harness error")
            ncase += 1
            for k in tot:
                tot[k] += r[k]
            for k, n in r["faults"].items():
                faults[k] = faults.get(k, 0) + n
            for k, n in r["marks"].items():
                marks[k] = marks.get(k, 0) + n
            hashes.update(r["hashes"])
            if "same" in r:
                gated += 1
                if not r["same"]:
                    pool.terminate()
                    raise CheckError(f"case {r['idx']} is not repeatable: the simulation is not deterministic")
            if r["trivial"]:
                ntriv += 1
            else:
                digests.add(r["digest"])
            if len(samples) < 3:
                samples.append({"case_index": r["idx"], "digest": r["digest"][:16], "runs": r["runs"]})
            if r["viol"]:
                if r["viol"]["sig"] in ksigs:
                    kseen[r["viol"]["sig"]] = kseen.get(r["viol"]["sig"], 0) + 1
                    continue
                viols.append(r)
                pool.terminate()
                break
    wall_search = time.time() - ts
    rc = 0
    for k in known:
        print(f"KNOWN-FINDING: property={prop.ID} {k['what']}")
    nv = 0
    if viols:
        r = viols[0]
        case, sig = r["case"], r["viol"]["sig"]
        # gate: same case again, in this process, must give the same history
        r2 = run_case(prop, case)
        if r2["digest"] != r["digest"] or not r2["viol"] or r2["viol"]["sig"] != sig:
            raise CheckError(f"violation {sig} of case {r['idx']} did not repeat: not reported")
        small, tried = minimise(prop, case, sig, time.time() + (60 if tier == "quick" else 150))
        r3 = run_case(prop, small)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop.ID}-{seed}-{r['idx']}.json")
        with open(path, "w") as f:
            json.dump({"property": prop.ID, "seed": seed, "index": r["idx"], "sig": sig, "msg": r3["viol"]["msg"],
                       "digest": r3["digest"], "minimise_tries": tried, "case": small}, f, indent=1)
        # fresh-process replay must reproduce it exactly
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "replay", path, "--nobuild"],
                           stdout=subprocess.PIPE, text=True, env=dict(os.environ))
        if p.returncode != 1:
            raise CheckError(f"replay of {path} did not reproduce: {p.stdout[-500:]}")
        print(f"violation: {sig}\n{r3['viol']['msg']}")
        print(f"VIOLATION property={prop.ID} replay={path}")
        nv, rc = 1, 1
    ev = {
        "property": prop.ID, "tier": tier, "seed": seed, "level": getattr(prop, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ncase, "distinct_nontrivial": len(digests),
            "rule": prop.RULE + " Distinct = distinct digest over the complete event histories (every simulated "
            "system call with its result, plus all output bytes) of the runs of the case.",
            "samples": samples + [sample_case(prop, tier, seed)],
            "simulated_runs": tot["runs"], "distinct_histories": len(hashes),
            "trivial_cases": ntriv, "repeat_gated_cases": gated,
            "runs_per_hour": int(tot["runs"] * 3600 / max(wall_search, 0.001)),
            "seeds_per_hour": int(ncase * 3600 / max(wall_search, 0.001)),
            "simulated_host_time_s": tot["vtime"] / 1e9, "simulated_system_calls": tot["calls"],
            "simulated_mcu_ticks": tot["ticks"],
            "faults_injected": faults, "marks": marks, "known_findings_hit": kseen,
            "real_code": "the complete simulator binaries built from /repo's working tree (main(), command interpreter, "
            "I/O layer, CPU and peripheral models), unmodified",
            "stubs": "the operating system: descriptors, sockets, select, clock, sleep and files are dst/shim.c",
            "build_s": round(tb, 1),
        },
        "assumptions": getattr(prop, "ASSUME", []) + ["the host OS model in dst/shim.c answers as Linux would"],
        "wall_s": round(time.time() - t0, 2), "violations": nv,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(os.path.join(BUILD, "run"), ignore_errors=True)
    print(f"{prop.ID} {tier} seed={seed}: cases={ncase} runs={tot['runs']} distinct={len(digests)} "
          f"faults={sum(faults.values())} known={sum(kseen.values())} violations={nv} "
          f"search={wall_search:.1f}s wall={time.time()-t0:.1f}s", flush=True)
    if marks:
        print("  marks:", dict(sorted(marks.items())))
    return rc


def sample_case(prop, tier, seed):
    c = mkcase(prop, tier, seed, 0)
    s = json.dumps(c)
    return {"case": c} if len(s) < 3000 else {"case_head": s[:3000]}


def _bounded(pool, gen, depth):
    """imap_unordered with bounded look-ahead, so the time budget is obeyed."""
    import collections
    q = collections.deque()
    for a in gen:
        q.append(pool.apply_async(_wjob, (a,)))
        while len(q) >= depth:
            yield q.popleft().get()
    while q:
        yield q.popleft().get()


def replay_main(path, nobuild=False):
    from . import load_prop
    with open(path) as f:
        d = json.load(f)
    prop = load_prop(d["property"])
    if not nobuild:
        for v in getattr(prop, "TVARIANTS", getattr(prop, "VARIANTS", ["plain"])):
            build(v, sims=getattr(prop, "SIMS", None))
    r = run_case(prop, d["case"])
    if not r["viol"]:
        print("replay: no violation")
        return 0
    print(f"replay: {r['viol']['sig']}\n{r['viol']['msg']}")
    print("replay: history digest", r["digest"], "(identical)" if r["digest"] == d["digest"] else "(differs)")
    if r["viol"]["sig"] != d["sig"] or (nobuild and r["digest"] != d["digest"]):
        return 2
    print(f"VIOLATION property={prop.ID} replay={path}")
    return 1
