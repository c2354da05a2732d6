#!/usr/bin/env python3
"""Driver of the monitors: builds the harness of one property from /repo's working tree in
several instrumented flavors, runs it sharded, attributes crashes/hangs/sanitizer reports to
the case that caused them, and writes evidence and replay files.

  run.py <ID>              quick or thorough run (VERIF_TIER), seeded by VERIF_SEED
  run.py --replay <file>   re-executes the one case of a replay file
  run.py --setup           sanity check of the toolchain
"""
import json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

NCPU = 8
SLOTS = threading.Semaphore(NCPU)
JOBS = threading.Semaphore(NCPU)  # compilers
INC = ["-I", os.path.join(HERE, "harness"), "-I", os.path.join(REPO, "src/lib"), "-I", os.path.join(REPO, "src/objloader")]
BASE = ["-std=c++14", "-w", "-pthread"] + INC
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
FLAVORS = {
    # optimized, own allocator that poisons fresh and released memory and counts live blocks
    "fast": (["g++"], ["-O1", "-DNDEBUG"]),
    # AddressSanitizer + UndefinedBehaviorSanitizer + checked standard containers
    "san": (["g++"], SAN + ["-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]),
    # the same without the container checks (where the library's own assertions are the subject)
    "san_noga": (["g++"], SAN),
    # unoptimized: no access is removed before it is checked, and half of the time to compile
    "san0": (["g++"], ["-O0"] + SAN[2:] + ["-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"]),
    "san0_noga": (["g++"], ["-O0"] + SAN[2:]),
    # libstdc++ debug mode: use of invalidated or past-the-end iterators and positions
    "vdebug": (["g++"], ["-O0", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_DEBUG_PEDANTIC"]),
    # ThreadSanitizer
    "tsan": (["g++"], ["-O1", "-g1", "-fsanitize=thread"]),
    # memcheck: definedness of every value that decides something
    "memcheck": (["g++"], ["-O1", "-g1", "-DVH_PLAIN_NEW"]),
}
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:detect_invalid_pointer_pairs=0:handle_abort=0:allocator_may_return_null=1:malloc_fill_byte=255:max_malloc_fill_size=1073741824"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1"
ENV["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:history_size=4"
ENV["LC_ALL"] = "C"


def limits(flavor):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if flavor in ("fast",):
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    return f


NARROW = {}  # flavor -> number of steps the instantiated number types had to be reduced by


def build(cid, flavor, bdir, log):
    """all number types, or, if the library does not compile for one of them any more, the ones its own test suite uses (see vh.h)"""
    first = None
    for level in range(int(os.environ.get("VH_NARROW", "0")), 4):
        mine = []
        exe, compiled = build_level(cid, flavor, bdir, mine, level)
        if exe or compiled:
            break
        first = first or mine
    if exe and level:
        NARROW[flavor] = level
        log.append("NARROWED (%s): number types reduced by %d step(s)%s" % (flavor, level, ": " + "\n".join(x[:1500] for x in first[:1]) if first else ""))
    elif not exe:
        log += first or mine
    return exe


def build_level(cid, flavor, bdir, log, level):
    cfg = CHECKS[cid]
    cxx, fl = FLAVORS[flavor]
    fl = fl + ["-DVH_NARROW=%d" % level]
    exe = os.path.join(bdir, flavor)
    srcs = [os.path.join(HERE, "harness", cfg.get("source", cid + ".cpp"))]
    objs, procs, res = [], [], {}
    units = [(s, k) for s in srcs for k in range(cfg.get("parts", 1))] + [(os.path.join(REPO, x), None) for x in cfg.get("extra", [])]
    for s, k in units:
        o = os.path.join(bdir, "%s-%s-%s.o" % (flavor, os.path.basename(s), k))
        objs.append(o)
        cmd = cxx + BASE + fl + cfg.get("cflags", []) + (["-DVH_PART=%d" % k] if cfg.get("parts", 1) > 1 and k is not None else []) + ["-c", s, "-o", o]
        procs.append(cmd)

    def compile(i):
        with JOBS:
            res[i] = subprocess.run(procs[i], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=bdir)
    ts = [threading.Thread(target=compile, args=(i,)) for i in range(len(procs))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    ok = True
    for i, cmd in enumerate(procs):
        if res[i].returncode != 0:
            ok = False
            log.append("COMPILE FAILED (%s): %s\n%s" % (flavor, " ".join(cmd), "\n".join(res[i].stdout.splitlines()[:60])))
    if not ok:
        return None, False
    cmd = cxx + BASE + fl + objs + ["-o", exe]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        log.append("LINK FAILED (%s):\n%s" % (flavor, p.stdout[:6000]))
        return None, True
    return exe, True


def read_cur(path):
    try:
        b = open(path, "rb").read()
        magic, case, in_case, hang = struct.unpack_from("<4Q", b, 0)
        label = b[32:160].split(b"\0")[0].decode("latin1")
        tlen = struct.unpack_from("<Q", b, 160)[0]
        trace = b[168:168 + min(tlen, 60000)].split(b"\0")[0].decode("latin1")
        if magic != 0x56484d4f4e:
            return None
        return dict(case=case, in_case=in_case, hang=hang, label=label, trace=trace)
    except Exception:
        return None


def crash_kind(rc, err):
    m = re.search(r"ERROR: (?:AddressSanitizer|LeakSanitizer): ([A-Za-z0-9-]+)", err)
    if m:
        return "asan-" + m.group(1)
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        t = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?|'[^']*'", "#", m.group(1))
        return "ubsan-" + re.sub(r"[^A-Za-z#]+", "-", t)[:80].strip("-")
    m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", err)
    if m:
        return "tsan-" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param|Source and destination|Argument)", err)
    if m:
        return "memcheck-" + m.group(1).replace(" ", "-")
    if rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return "signal%d" % -rc
    return "exit%d" % rc


class Run:
    def __init__(self, cid, seed, tier, bdir):
        self.cid, self.seed, self.tier, self.bdir = cid, seed, tier, bdir
        self.cfg = CHECKS[cid]
        self.lock = threading.Lock()
        self.viols, self.errors, self.log = [], [], []
        self.counts, self.hashes, self.samples = {}, set(), []
        self.done, self.overflow, self.stopped = {}, 0, 0

    def cmd(self, flavor, exe, args):
        c = [exe] + args
        if flavor == "memcheck":
            c = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=no", "--undef-value-errors=yes",
                 "--num-callers=20", "--leak-check=no", "--malloc-fill=0xff", "--free-fill=0xff"] + c
        return c

    def execute(self, flavor, exe, args, cwd, timeout):
        errp = os.path.join(cwd, "stderr")
        with open(errp, "wb") as ef:
            p = subprocess.Popen(self.cmd(flavor, exe, args), cwd=cwd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=ENV,
                                 preexec_fn=limits(flavor), start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                rc = None
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        with open(errp, "rb") as ef:
            err = ef.read(400000).decode("latin1")
        return rc, err

    def collect(self, d, flavor):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if f.startswith("shard.stats."):
                try:
                    s = json.load(open(p))
                except Exception as e:
                    self.errors.append("unreadable stats %s: %s" % (p, e))
                    continue
                self.done[flavor] = self.done.get(flavor, 0) + s["done"]
                self.overflow += s["overflow"]
                self.stopped += bool(s["stopped"])
                for k, v in s["counts"].items():
                    self.counts[k] = self.counts.get(k, 0) + v
                self.samples += s["samples"]
            elif f.startswith("shard.hash."):
                b = open(p, "rb").read()
                self.hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            elif f == "shard.viol":
                for line in open(p, encoding="latin1"):
                    try:
                        v = json.loads(line)
                    except Exception:
                        continue
                    v["flavor"] = flavor
                    self.viols.append(v)

    def shard(self, flavor, exe, i, n, cases, budget, seed, mult):
        d = os.path.join(self.bdir, "run-%s-%s-%d" % (self.cid, flavor, i))
        os.makedirs(d)
        common = ["--seed", str(seed), "--shard", str(i), "--nshards", str(n), "--cases", str(cases), "--budget", str(budget),
                  "--out", "./shard", "--thorough", "1" if self.tier == "thorough" else "0", "--repo", REPO,
                  "--limit", str(25 * mult), "--leaks", "0" if flavor in ("memcheck", "tsan") else "1"]
        start, crashes = 0, 0
        with SLOTS:
            while True:
                rc, err = self.execute(flavor, exe, common + ["--start", str(start)], d, budget * 2 + 200)
                if rc == 0:
                    break
                cur = read_cur(os.path.join(d, "shard.cur"))
                if rc is None or cur is None or rc == 98:
                    with self.lock:
                        self.errors.append("shard %s/%d ended with %s without a case\n%s" % (flavor, i, rc, err[-2000:]))
                    break
                if not cur["in_case"]:
                    with self.lock:
                        self.errors.append("shard %s/%d died outside of a case rc=%s\n%s" % (flavor, i, rc, err[-3000:]))
                    break
                key = None
                if rc == 97:
                    d2 = d + "-again"
                    os.makedirs(d2, exist_ok=True)
                    rc2, err2 = self.execute(flavor, exe, common + ["--only", str(cur["case"]), "--limit", str(80 * mult)], d2, 600 * mult)
                    if rc2 == 97:
                        key = "hang:" + cur["label"]
                        detail = "no end after %d s of processor time" % (80 * mult)
                elif rc == -9:
                    d2 = d + "-again"
                    os.makedirs(d2, exist_ok=True)
                    rc2, err2 = self.execute(flavor, exe, common + ["--only", str(cur["case"])], d2, 600 * mult)
                    if rc2 == -9:
                        key, detail = "crash:%s:SIGKILL" % cur["label"], "memory exhaustion"
                else:
                    kind = crash_kind(rc, err)
                    key = "crash:%s:%s" % (cur["label"], kind)
                    m = re.search(r"(ERROR: AddressSanitizer|runtime error|WARNING: ThreadSanitizer|terminate called|==\d+== )", err)
                    detail = err[max(0, m.start() - 200):m.start() + 2500] if m else err[-2500:]
                if key:
                    with self.lock:
                        self.viols.append(dict(key=key, case=cur["case"], detail=detail, trace=cur["trace"], flavor=flavor))
                    crashes += 1
                start = cur["case"] + 1
                if crashes >= 3:
                    break
        with self.lock:
            self.collect(d, flavor)
        shutil.rmtree(d, ignore_errors=True)

    def flavor(self, flavor, spec):
        exe = build(self.cid, flavor, self.bdir, self.log)
        if not exe:
            with self.lock:
                self.errors.append("build of flavor %s failed" % flavor)
            return
        q, t = spec
        cases = q if self.tier == "quick" else t
        budget = self.cfg.get("budget", (100, 420))[0 if self.tier == "quick" else 1]
        mult = 8 if flavor == "memcheck" else 3 if flavor != "fast" else 1
        n = self.cfg.get("shards", NCPU)
        seed = self.seed * 16 + sorted(FLAVORS).index(flavor)
        ts = [threading.Thread(target=self.shard, args=(flavor, exe, i, n, cases, budget, seed, mult)) for i in range(n)]
        [x.start() for x in ts]
        [x.join() for x in ts]

    def suite(self, sub, flavor, cases):
        """the workload of another property as workload of this one: only memory faults count"""
        d = os.path.join(self.bdir, sub + "-" + flavor)
        os.makedirs(d)
        r = Run(sub, self.seed, self.tier, d)
        exe = build(sub, flavor, d, r.log)
        if not exe:
            with self.lock:
                self.errors.append("build of flavor %s of %s failed\n%s" % (flavor, sub, "\n".join(r.log)))
            return
        budget = (20, 60)[0 if self.tier == "quick" else 1]
        mult = 8 if flavor == "memcheck" else 3
        seed = self.seed * 16 + sorted(FLAVORS).index(flavor) + 7000
        n = 2 if flavor == "memcheck" else 4
        ts = [threading.Thread(target=r.shard, args=(flavor, exe, i, n, cases, budget, seed, mult)) for i in range(n)]
        [x.start() for x in ts]
        [x.join() for x in ts]
        shutil.rmtree(d, ignore_errors=True)
        with self.lock:
            done = sum(r.done.values())
            self.done[flavor] = self.done.get(flavor, 0) + done
            self.counts["suite:%s:%s" % (sub, flavor)] = done
            self.stopped += r.stopped
            self.errors += r.errors
            self.hashes |= r.hashes
            for v in r.viols:
                if v["key"] == "leak" or v["key"].startswith("crash:"):
                    v["key"], v["sub"] = sub + "/" + v["key"], sub
                    self.viols.append(v)

    def go(self):
        ss = [threading.Thread(target=self.suite, args=(s, f, c)) for s, f, c in self.cfg.get("suite", {}).get(self.tier, [])]
        [x.start() for x in ss]
        ts = [threading.Thread(target=self.flavor, args=(f, s)) for f, s in self.cfg["flavors"].items()]
        [x.start() for x in ts]
        [x.join() for x in ts + ss]


def known(cid):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == cid:
                res.append((m.group(2), m.group(3).strip()))
    return res


def main():
    if sys.argv[1:2] == ["--setup"]:
        return setup()
    if sys.argv[1:2] == ["--replay"]:
        return replay(sys.argv[2])
    cid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="vh-%s-" % cid)
    try:
        r = Run(cid, seed, tier, bdir)
        r.go()
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    for e in r.log + r.errors:
        print(e, file=sys.stderr)
    kn = known(cid)
    seen, bad, kf = set(), [], {}
    for v in r.viols:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        hit = [k for k in kn if k[0] == v["key"]]
        if hit:
            kf[hit[0][0]] = hit[0][1]
        else:
            bad.append(v)
    # a listed finding is named on every run, whether or not this run's cases met it
    for k, what in kn:
        print("KNOWN-FINDING: property=%s %s%s" % (cid, what, "" if k in kf else " (not met by this run)"))
    rep = os.path.join(HERE, "out", "replays")
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(cid + "-"):
            os.unlink(os.path.join(rep, f))
    for n, v in enumerate(bad[:15]):
        p = os.path.join(rep, "%s-%d.json" % (cid, n))
        json.dump(dict(property=cid, sub=v.get("sub"), seed=seed, tier=tier, flavor=v["flavor"], case=v["case"], key=v["key"], detail=v["detail"], trace=v["trace"],
                       how="python3 /verif/run.py --replay " + p), open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (cid, p))
        print("  [%s/%s case %d] %s: %s" % (cid, v["flavor"], v["case"], v["key"], v["detail"][:600].replace("\n", " | ")))
    total = sum(r.done.values())
    cov = dict(evaluations=total, distinct_nontrivial=len(r.hashes) + r.overflow * 0, rule=CHECKS[cid]["rule"],
               samples=[s[:1200] for s in r.samples[:6]] or ["none"], executions_per_flavor=r.done, observed=dict(sorted(r.counts.items())),
               flavors=sorted(CHECKS[cid]["flavors"]), narrowed_types=max(NARROW.values(), default=0), shards_cut_by_budget=r.stopped, distinct_not_stored=r.overflow)
    missing = [c for c in CHECKS[cid].get("must_observe", []) if not r.counts.get(c)]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = dict(property=cid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=CHECKS[cid].get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    json.dump(ev, open(os.path.join(HERE, "evidence", cid + ".json"), "w"), indent=1)
    print("%s %s: %d executions %s, %d distinct, %d violation(s), %.1f s" % (cid, tier, total, r.done, len(r.hashes), len(bad), time.time() - t0))
    if bad:
        return 1
    if r.errors:
        return 2
    if missing and not NARROW:
        print("nothing observed for: %s" % missing, file=sys.stderr)
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    bdir = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        cid = v.get("sub") or v["property"]
        r = Run(cid, v["seed"], v["tier"], bdir)
        exe = build(cid, v["flavor"], bdir, r.log)
        if not exe:
            print("\n".join(r.log))
            return 2
        d = os.path.join(bdir, "run")
        os.makedirs(d)
        seed = v["seed"] * 16 + sorted(FLAVORS).index(v["flavor"]) + (7000 if v.get("sub") else 0)
        rc, err = r.execute(v["flavor"], exe, ["--seed", str(seed), "--only", str(v["case"]), "--out", "./shard", "--repo", REPO,
                                               "--thorough", "1" if v["tier"] == "thorough" else "0", "--limit", "100"], d, 900)
        r.collect(d, v["flavor"])
        print("exit code", rc)
        if err:
            print(err[:6000])
        for x in r.viols:
            print("VIOLATION property=%s replay=%s\n  %s: %s\n  trace: %s" % (v["property"], path, x["key"], x["detail"], x["trace"][:3000]))
        if rc != 0 and not r.viols:
            print("VIOLATION property=%s replay=%s" % (v["property"], path))
        return 1 if r.viols or rc != 0 else 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def setup():
    os.makedirs(os.path.join(HERE, "out", "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    d = tempfile.mkdtemp(prefix="vh-setup-")
    try:
        open(d + "/a.cpp", "w").write("#include <cstdio>\nint main(int c, char**){ int a[2]={1,2}; volatile int i=c+4; return a[i%2]==7; }\n")
        for f, (cxx, fl) in FLAVORS.items():
            subprocess.run(cxx + ["-std=c++14", "-pthread"] + fl + [d + "/a.cpp", "-o", d + "/a"], check=True)
            subprocess.run([d + "/a"], check=True, env=ENV)
        subprocess.run(["valgrind", "--version"], check=True, stdout=subprocess.DEVNULL)
        print("setup ok")
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
