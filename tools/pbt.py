"""Python twin of harness/pbt.h: choice-tape property-based testing for properties observed at the command line.
Same command-line interface and JSON result as the C++ harnesses."""
import sys, os, json, time, math, argparse, subprocess, traceback, tempfile, shutil, signal, resource

M64 = (1 << 64) - 1
class Failure(Exception): pass
class Discard(Exception): pass

def mix(z):
    z = (z + 0x9e3779b97f4a7c15) & M64
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    return z ^ (z >> 31)
def strhash(s):
    h = 1469598103934665603
    for c in s.encode(): h = ((h ^ c) * 1099511628211) & M64
    return h

class G:
    def __init__(self, tape=None, seed=0):
        self.tape_in, self.s, self.pos = tape, seed, 0
        self.used, self.notes, self.labels, self.nontriv = [], [], [], False
    def below(self, n):
        if n <= 1: return 0
        if self.tape_in is not None:
            v = self.tape_in[self.pos] if self.pos < len(self.tape_in) else 0
            v %= n
        else:
            self.s = (self.s + 0x9e3779b97f4a7c15) & M64
            v = mix(self.s) % n
        self.pos += 1; self.used.append(v); return v
    def range(self, lo, hi): return lo + self.below(hi - lo + 1)
    def chance(self, num, den): return self.below(den) >= den - num
    def flip(self): return self.below(2) == 1
    def pick(self, seq): return seq[self.below(len(seq))]
    def unit(self): return self.below(1 << 40) / float(1 << 40)
    def uniform(self, lo, hi): return lo + (hi - lo) * self.unit()
    def real(self, lo, hi):
        k = self.below(10)
        if k == 9: return lo
        if k == 8: return hi
        if k == 7: return 0.0 if lo <= 0 <= hi else 0.5 * (lo + hi)
        if k == 6: return lo + (hi - lo) * self.range(0, 8) / 8.0
        return self.uniform(lo, hi)
    def subset(self, seq): return [x for x in seq if self.flip()]
    def shuffle(self, seq):
        l = list(seq)
        for i in range(len(l) - 1, 0, -1):
            j = i - self.below(i + 1); l[i], l[j] = l[j], l[i]
        return l
    def note(self, k, v):
        if sum(len(x) for x in self.notes) < 14000: self.notes.append("%s=%s" % (k, v))
    def label(self, l): self.labels.append(l)
    def nontrivial(self, b=True): self.nontriv = self.nontriv or b

def check(c, msg):
    if not c: raise Failure(msg() if callable(msg) else msg)

def close(a, b, rel=1e-9, abs_=1e-12):
    if a == b: return True
    if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b): return False
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))

TESTS = {}
def prop(fork=False):
    def deco(f): TESTS[f.__name__] = (f, fork); return f
    return deco

class Env:
    """Where the built tools are, and a scratch directory emptied before every case."""
    def __init__(self):
        self.build = os.environ["ALTA_FLAVOUR_DIR"]
        self.scratch = tempfile.mkdtemp(prefix="pbt_", dir=os.environ.get("PBT_SCRATCH", "/tmp"))
        self.softs = os.path.join(self.build, "softs"); self.plugins = os.path.join(self.build, "plugins")
        self.python = os.path.join(self.build, "python")
    def clean(self):
        for n in os.listdir(self.scratch):
            p = os.path.join(self.scratch, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    def path(self, n): return os.path.join(self.scratch, n)
    def write(self, n, text):
        p = self.path(n)
        with open(p, "wb") as f: f.write(text if isinstance(text, bytes) else text.encode())
        return p
    def run(self, soft, args, env=None, timeout=120, stdin=None, fsize=1 << 29):
        e = {"PATH": "/usr/bin:/bin", "HOME": self.scratch, "LC_ALL": "C", "ALTA_PLUGIN_PATH": self.plugins, "OMP_NUM_THREADS": "1", "OMP_WAIT_POLICY": "passive",
             "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1", "ASAN_OPTIONS": "detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:max_allocation_size_mb=4096"}
        if env: e.update(env)
        for k in [k for k, v in e.items() if v is None]: del e[k]
        def lim():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_CPU, (30, 30))
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize)); signal.signal(signal.SIGXFSZ, signal.SIG_IGN)    # writes past the limit fail with EFBIG
        exe = soft if "/" in soft else os.path.join(self.softs, soft)
        try:
            r = subprocess.run([exe] + [str(x) for x in args], cwd=self.scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               stdin=subprocess.DEVNULL, timeout=timeout, preexec_fn=lim)
        except subprocess.TimeoutExpired:
            raise Failure("hang: %s %s" % (soft, " ".join(map(str, args))))
        return r
    def ok(self, soft, args, **kw):
        r = self.run(soft, args, **kw)
        if r.returncode != 0:
            raise Failure("%s exited %s on valid input: %s | %s" % (soft, r.returncode, " ".join(map(str, args)), tail(r)))
        return r

def tail(r, n=900): return (r.stdout[-n:] + b" || " + r.stderr[-n:]).decode("utf-8", "replace")
def crashed(r): return r.returncode < 0 or b"AddressSanitizer" in r.stderr or b"runtime error:" in r.stderr

def one(f, env, g, fork):
    """0 pass, 1 fail, 2 discard"""
    env.clean()
    if not fork:
        try: f(g, env); return 0, ""
        except Failure as e: return 1, str(e)
        except Discard: return 2, ""
    # the case runs in a forked child; the child reports its draws through a file
    res = env.scratch + ".res"
    if os.path.exists(res): os.unlink(res)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        k, m = 3, "?"
        try:
            dn = os.open("/dev/null", os.O_RDWR); os.dup2(dn, 0)
            fd = os.open(res + ".err", os.O_CREAT | os.O_TRUNC | os.O_RDWR); os.dup2(fd, 2); os.dup2(dn, 1)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
            try:
                class L(list):
                    pass
                orig = g.below
                log = open(res + ".tape", "w")
                def below(n):
                    v = orig(n)
                    if n > 1: log.write("%d\n" % v); log.flush()
                    return v
                g.below = below
                f(g, env); k, m = 0, ""
            except Failure as e: k, m = 1, str(e)
            except Discard: k, m = 2, ""
            except BaseException: k, m = 1, "unexpected exception: " + traceback.format_exc()[-1500:]
            json.dump([k, m, g.notes, g.labels, g.nontriv], open(res, "w"))
        finally: os._exit(0)
    t0 = time.time(); st = None
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: break
        if time.time() - t0 > 240: os.kill(pid, 9); os.waitpid(pid, 0); st = "timeout"; break
        time.sleep(0.002)
    try: g.used = [int(x) for x in open(res + ".tape").read().split()]
    except OSError: pass
    if os.path.exists(res):
        k, m, g.notes, g.labels, g.nontriv = json.load(open(res)); return k, m
    err = ""
    try: err = open(res + ".err", errors="replace").read()[-1200:]
    except OSError: pass
    return 1, "crash: child status %s | %s" % (st, err)

def shrink(f, env, fork, best, msg, budget):
    t0 = time.time(); tries = [0]
    def ok(c):
        if time.time() - t0 > budget: return None
        tries[0] += 1; g = G(tape=c)
        k, m = one(f, env, g, fork)
        return (g.used, m) if k == 1 else None
    prog = True
    while prog and time.time() - t0 < budget:
        prog = False; chunk = max(1, len(best) // 2)
        while chunk >= 1:
            i = 0
            while i + chunk <= len(best) and time.time() - t0 < budget:
                c = best[:i] + best[i + chunk:]; r = ok(c)
                if r: best = r[0] if len(r[0]) < len(best) else c; msg = r[1]; prog = True
                else: i += chunk
            chunk //= 2
        for i in range(len(best)):
            if i >= len(best) or best[i] == 0 or time.time() - t0 > budget: continue
            c = list(best); c[i] = 0; r = ok(c)
            if r: best, msg, prog = c, r[1], True; continue
            lo, hi = 0, best[i]
            for _ in range(12):
                if hi - lo <= 1: break
                mid = (lo + hi) // 2; c[i] = mid; r = ok(c)
                if r: hi = mid; best, msg, prog = list(c), r[1], True
                else: lo = mid
    return best, msg

def main(): sys.exit(run_main())

def run_main():
    ap = argparse.ArgumentParser()
    for o in ("test", "out", "replay"): ap.add_argument("--" + o)
    ap.add_argument("--seed", type=int, default=0); ap.add_argument("--cases", type=int, default=100)
    ap.add_argument("--maxtime", type=float, default=60); ap.add_argument("--shrinktime", type=float, default=25)
    ap.add_argument("--verbose", action="store_true"); ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    if a.list:
        print("\n".join(TESTS)); return 0
    f, fork = TESTS[a.test]; env = Env(); rc = 0
    try:
        if a.replay:
            tape = [int(x) for x in open(a.replay).read().split()]; g = G(tape=tape)
            k, m = one(f, env, g, fork)
            if a.out: json.dump(dict(kind=k, msg=m, desc="; ".join(g.notes)), open(a.out + ".json", "w"))
            print(["PASS", "FAIL", "DISCARD"][k], m, "\n", "; ".join(g.notes)); return 1 if k == 1 else 0
        t0 = time.time(); tseed = mix((a.seed * 1000003 + strhash(a.test)) & M64)
        r = dict(test=a.test, seed=a.seed, cases=0, nontrivial=0, discarded=0, failed=False, msg="", desc="", tape="", labels={}, samples=[])
        seen = set()
        for c in range(a.cases):
            if time.time() - t0 > a.maxtime: break
            g = G(seed=mix(tseed ^ ((c * 0x9e3779b97f4a7c15) & M64)))
            k, m = one(f, env, g, fork)
            if k == 2: r["discarded"] += 1; continue
            if k == 1:
                tape = list(g.used); desc = "; ".join(g.notes); l0 = len(tape)
                tape, m = shrink(f, env, fork, tape, m, a.shrinktime)
                g = G(tape=tape); k2, m2 = one(f, env, g, fork)
                if k2 == 1: m, desc = m2, "; ".join(g.notes)
                r.update(failed=True, msg=m[:6000], desc=desc, tape=a.out + ".tape", tape_len=[l0, len(tape)])
                open(a.out + ".tape", "w").write("\n".join(map(str, tape)) + "\n")
                print("FAIL", a.test, m, "\n", desc); rc = 1; break
            r["cases"] += 1
            for l in g.labels: r["labels"][l] = r["labels"].get(l, 0) + 1
            if g.nontriv:
                h = hash(tuple(g.used))
                if h not in seen:
                    seen.add(h); r["nontrivial"] += 1
                    if len(r["samples"]) < 6 and r["nontrivial"] % 5 == 1: r["samples"].append("; ".join(g.notes)[:2400])
        r["wall"] = time.time() - t0
        json.dump(r, open(a.out + ".json", "w"))
        return rc
    finally:
        shutil.rmtree(env.scratch, ignore_errors=True)
        for s in (".res", ".res.err", ".res.tape"):
            try: os.unlink(env.scratch + s)
            except OSError: pass
