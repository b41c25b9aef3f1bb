"""P34: data2brdf, then brdf2data on the same positions."""
import os, sys, math, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import pbt
from pbt import prop, check, close
from lib import *
def shown(out, label):
    m = re.search(r"%s\s+distance to data = (\S+)" % label, out); check(m is not None, "no %s distance printed" % label); return float(m.group(1))
def sampled(env, func, d, dx, dy, n, p):
    """What brdf2data makes of a function file on the positions of a data file."""
    out = env.path("sampled.txt"); env.ok("brdf2data", ["--input", func, "--data-file", d, "--output", out]); f = read(out)[1]; check(len(f) == n and all(len(r) >= dx + dy for r in f), lambda: "%d rows sampled of %d" % (len(f), n)); return [r[dx:dx + dy] for r in f]
def faithful(env, r, func, d, dx, want, p):
    """The distances data2brdf printed and recorded are those of the function it saved."""
    n, dy = len(want), len(want[0]); got = sampled(env, func, d, dx, dy, n, p); txt = r.stdout.decode()
    l2 = math.sqrt(math.fsum((a - b) ** 2 for x, y in zip(got, want) for a, b in zip(x, y)) / n); li = max(abs(a - b) for x, y in zip(got, want) for a, b in zip(x, y)); m = max(abs(a) for x in got + want for a in x) + 1e-300
    if all(math.isfinite(a) for x in got for a in x):
        a, b = shown(txt, "L2"), shown(txt, "Linf"); check(close(a, l2, 1e-4, 1e-7 * m), "L2 printed %g, the saved function is at %g" % (a, l2)); check(close(b, li, 1e-4, 1e-7 * m), "Linf printed %g, the saved function is at %g" % (b, li))
        c = re.search(r"^#CMD (.*)$", open(func).read(), re.M).group(1); ca, cb = re.search(r"--L2 (\S+)", c), re.search(r"--Linf (\S+)", c); check(ca and cb and float(ca.group(1)) == a and float(cb.group(1)) == b, "distances recorded in the file: " + c)
    return got, l2, li, m
BASIS = {"": lambda x: [1, x, x * x, x ** 3, x ** 4], "legendre": lambda x: [1, x, 1.5 * x * x - .5, 2.5 * x ** 3 - 1.5 * x, (35 * x ** 4 - 30 * x * x + 3) / 8], "chebychev": lambda x: [1, x, 2 * x * x - 1, 4 * x ** 3 - 3 * x, 8 * x ** 4 - 8 * x * x + 1]}
def degree(dx, i):
    if dx == 1: return [i]
    if i == 0: return [0] * dx
    n, k = 1, 1
    while i >= n + k + 1: n += k + 1; k += 1
    return [k - (i - n), i - n]
def eigenvalues(A):
    """Of a symmetric matrix, by Jacobi rotations."""
    n = len(A); A = [r[:] for r in A]
    for _ in range(60):
        if sum(A[i][j] ** 2 for i in range(n) for j in range(i)) <= 1e-30 * (sum(A[i][i] ** 2 for i in range(n)) + 1e-300): break
        for p in range(n):
            for q in range(p + 1, n):
                if A[p][q] == 0: continue
                t = (A[q][q] - A[p][p]) / (2 * A[p][q]); t = (1 if t >= 0 else -1) / (abs(t) + math.sqrt(t * t + 1)); c = 1 / math.sqrt(t * t + 1); s = t * c
                for k in range(n): A[k][p], A[k][q] = c * A[k][p] - s * A[k][q], s * A[k][p] + c * A[k][q]
                for k in range(n): A[p][k], A[q][k] = c * A[p][k] - s * A[q][k], s * A[p][k] + c * A[q][k]
    return sorted(A[i][i] for i in range(n))
@prop()
def rational(g, env):
    """Samples of a rational function of the coordinates, fitted with the same sizes in any basis."""
    p = g.pick(["UNKNOWN_INPUT"] * 3 + [q for q in DIMS if DIMS[q] <= 2]); dx = DIMS.get(p) or g.range(1, 2); dy = g.range(1, 3); basis = g.pick(["", "legendre", "chebychev"]); fitter = g.pick(["eigen", "leastsquare", "quadprog", "quadprog", "parallel"])
    np_, nq = g.range(1, 5), g.range(1, 5); 
    if fitter == "leastsquare":
        if g.flip(): np_ = 1
        else: nq = 1
    if fitter == "parallel": np_, nq = min(np_, 3), min(nq, 3)
    n = np_ + nq + 2 + g.below(20); lo, w = [g.pick([0., .05, .2]) for _ in range(dx)], [g.pick([.3, .7, 1.]) for _ in range(dx)]; pos = [[round(a + b * g.unit(), 9) for a, b in zip(lo, w)] if p == "UNKNOWN_INPUT" else [float("%.12g" % x) for x in coords(p, *config(g))] for _ in range(n)]
    mn, mx = [min(c) for c in zip(*pos)], [max(c) for c in zip(*pos)]
    if any(b - a < 1e-3 for a, b in zip(mn, mx)): raise pbt.Discard()
    exact = g.chance(3, 4); scale = g.pick([1., .05, 20.]); feats = []
    for x in pos:
        t = [BASIS[basis](2 * (a - l) / (h - l) - 1) for a, l, h in zip(x, mn, mx)]; feats.append([math.prod(t[k][d] for k, d in enumerate(degree(dx, i))) for i in range(max(np_, nq))])
    vals = [[] for _ in pos]
    for c in range(dy):
        A = [scale * g.uniform(-1, 1) for _ in range(np_)]; A[0] = A[0] if abs(A[0]) > .2 * scale else .2 * scale; B = [1.] + [g.uniform(-1, 1) for _ in range(nq - 1)]; s = sum(map(abs, B[1:])); k = g.uniform(.1, .7) / s if s else 0; B = [1.] + [b * k for b in B[1:]]
        for v, f in zip(vals, feats): v.append(float("%.12g" % (sum(a * b for a, b in zip(A, f)) / sum(a * b for a, b in zip(B, f)) if exact else scale * g.uniform(-1, 2))))
    dt = scale * g.pick([.1, .3, .4]); d = env.write("in.dat", text([a + b for a, b in zip(pos, vals)], dx, dy, p, "INV_STERADIAN")); out = env.path("out.func")
    o = [["--input", d], ["--output", out], ["--fitter", "rational_fitter_" + fitter]] + ([["--func", "rational_function_" + basis]] if basis else [])
    if fitter == "parallel": o += [["--np", str(np_ + nq)], ["--min-np", str(g.range(2, np_ + nq))], ["--nb-cores", str(g.range(1, 3))], ["--dt", num(dt)]]
    else: o += [["--np", str(np_)], ["--nq", str(nq)]]
    if fitter == "quadprog":
        o.append(["--dt", num(dt)])
        if g.flip(): o += [["--min-np", str(g.range(1, np_))], ["--min-nq", str(g.range(1, nq))]]
    o = g.shuffle(o); argv = [x for y in o for x in y]; g.note("args", argv); g.note("param", p); g.note("data", [a + b for a, b in zip(pos, vals)][:8]); r = env.run("data2brdf", argv); g.label("%s %s" % (fitter, "representable" if exact else "arbitrary")); check(not pbt.crashed(r), lambda: "crash: " + pbt.tail(r))
    if r.returncode != 0:
        check(not os.path.exists(out), "a failed fit left a file"); check(not (exact and fitter in ("quadprog", "parallel", "leastsquare", "eigen")), lambda: "a representable data set is not fitted: " + pbt.tail(r)); g.label("failed"); return
    got, l2, li, m = faithful(env, r, out, d, dx, vals, p)
    if fitter in ("quadprog", "parallel"): g.nontrivial(); check(li <= dt * (1 + 1e-5) + 1e-9 * m, lambda: "a sample is off by %g, more than the bounds of %g" % (li, dt)); return
    if not exact: g.nontrivial(); return
    for c in range(dy):
        if fitter == "eigen":       # determined data only, the fitter solves the squared system
            M = [f[:np_] + [-v[c] * z for z in f[:nq]] for f, v in zip(feats, vals)]; e = eigenvalues([[sum(r1[i] * r1[j] for r1 in M) for j in range(np_ + nq)] for i in range(np_ + nq)])
            if np_ + nq > 1 and len(e) > 1 and e[1] < 1e-6 * e[-1]: g.label("undetermined"); continue
        elif np_ == 1 and any(abs(v[c]) < 1e-3 * scale for v in vals): continue
        g.nontrivial(); w_ = max(abs(a[c] - b[c]) for a, b in zip(got, vals)); check(w_ <= 2e-6 * max(m, scale), lambda: "channel %d of the saved fit is off by %g" % (c, w_))
ORDER = {"blinn": 2, "beckmann": 2, "ward": 3, "spherical_gaussian": 2, "abc": 3}
@prop()
def lobe(g, env):
    """Samples of an analytic lobe in any parametrization, fitted from the model itself or from near it."""
    dy = g.range(1, 3); t = Term(g, dy, g.pick(["blinn", "beckmann", "ward", "spherical_gaussian", "abc"])); fitter = g.pick(["eigen", "eigen", "ceres", "nlopt"]); fn = Func.__new__(Func); fn.rat, fn.terms, fn.dy, fn.pin, fn.iso = False, [(t, None)], dy, "CARTESIAN", t.kind != "ward"
    for c in t.p:
        c[0] = round(g.uniform(.3, 3), 6)
        if t.kind in ("blinn", "spherical_gaussian", "abc"): c[1] = round(g.uniform(2, 30), 5)
        else: c[1:] = [round(g.uniform(.2, .8), 6) for _ in c[1:]]
    n = ORDER[t.kind] * dy + g.range(4, 25); p, dx, pos, val, cfg = samples(g, fn, n, True); val = [[float("%.12g" % y) for y in v] for v in val]; exact = g.chance(1, 3); start = [x * (1 + (0 if exact else g.uniform(-.02, .02))) for c in t.p for x in c]
    if not any(abs(y) > 1e-3 for v in val for y in v): raise pbt.Discard()
    d = env.write("in.dat", text([a + b for a, b in zip(pos, val)], dx, dy, p, "INV_STERADIAN")); out = env.path("out.func"); opt = {"spherical_gaussian": " --sg-type " + getattr(t, "type", ""), "abc": " --param " + str(t.param)}.get(t.kind, "").split()
    o = [["--input", d], ["--output", out], ["--fitter", "nonlinear_fitter_" + fitter], ["--func", t.name], ["--bootstrap", "[" + ", ".join(num(x) for x in start) + "]"]] + ([opt] if opt else [])
    if fitter == "nlopt": o.append(["--nlop-max-num-iterations", "500"])
    o = g.shuffle(o); argv = [x for y in o for x in y]; g.note("args", argv); g.note("model", t.p); g.note("param", p); r = env.run("data2brdf", argv); g.label("%s %s %s" % (fitter, t.kind, "exact" if exact else "near")); check(not pbt.crashed(r), lambda: "crash: " + pbt.tail(r))
    if r.returncode != 0: check(not os.path.exists(out), "a failed fit left a file"); check(not exact or fitter == "nlopt", lambda: "the fit fails when started at the model: " + pbt.tail(r)); g.label("failed"); return
    got, l2, li, m = faithful(env, r, out, d, dx, val, p); g.nontrivial()
    if exact: check(li <= 2e-6 * m, lambda: "the fit started at the model is off by %g of %g" % (li, m)); return
    b = Term.__new__(Term); b.__dict__.update(t.__dict__); k = ORDER[t.kind]; b.p = [start[i * k:(i + 1) * k] for i in range(dy)]; e0 = math.sqrt(math.fsum((x - y) ** 2 for c, v in zip(cfg, val) for x, y in zip(b.value(*c), v)) / n)
    check(l2 <= e0 * (1 + 1e-6) + 1e-8 * m, lambda: "the saved fit is at %g, farther than the start, %g" % (l2, e0))
@prop()
def failures(g, env):
    """Requests that cannot be honoured."""
    dx, dy = g.range(1, 2), g.range(1, 3); n = g.range(8, 20); rows = [[g.unit() for _ in range(dx)] + [g.uniform(1, 3) for _ in range(dy)] for _ in range(n)]; p = "UNKNOWN_INPUT"; k = g.below(12); out = env.path("out.func"); a = {"--output": out, "--fitter": "rational_fitter_" + g.pick(["eigen", "leastsquare", "quadprog", "parallel"])}; a["--np"] = "3"; a["--nq"] = "2"; must = True
    if k == 0: a["--fitter"] = g.pick(["rational_fitter_nothing", "", "data_rbf", "nonlinear_function_diffuse", "x"])
    if k == 1: del a["--fitter"]
    if k == 2: a["--func"] = g.pick(["nonlinear_function_blinn", "[nonlinear_function_blinn, nonlinear_function_diffuse]", "nonlinear_function_nothing", "data_grid", "[]", "[nonlinear_function_blinn, x]"])
    if k == 3: a["--fitter"] = "nonlinear_fitter_" + g.pick(["eigen", "ceres", "nlopt"]); a.update(g.pick([{}, {"--func": "rational_function_legendre"}]))
    if k == 4: a["--output"] = g.pick([env.path("no/such/out"), env.scratch])
    if k == 5: a["--data"] = g.pick(["data_nothing", "rational_fitter_eigen", "nonlinear_function_blinn", "x"])
    if k in (6, 7):     # no function of these sizes stays within the bounds
        a["--fitter"] = "rational_fitter_" + g.pick(["quadprog", "parallel"]); c = dx + g.below(dy); rows[0][c] = 5.; rows[1][c] = -5.; par = a["--fitter"].endswith("parallel"); a["--dt"] = num(g.pick([.1, 1, 3])); a["--np"] = "2" if par else "1"; a["--nq"] = "1"
        if k == 7: rows[1][:dx] = rows[0][:dx]; a["--np"] = str(g.range(2, 6)); a["--nq"] = str(g.range(1, 4))      # contradictory samples
        if par: a["--min-np"] = "2"; del a["--nq"]
    src = env.write("in.dat", text(rows, dx, dy, p, "INV_STERADIAN")); a["--input"] = src
    if k == 8: a["--input"] = env.path("missing")
    if k == 9: a["--input"] = env.write("bad", g.pick(["", "garbage\n", "#DIM x\n1 2\n", "#DIM 0 1\n1\n", "#DIM %d %d\n" % (dx, dy)]))
    if k == 10: del a["--input"]
    if k == 11: del a["--output"]
    before = set(os.listdir(env.scratch)); argv = [x for y in g.shuffle(sorted(a.items())) for x in y]; g.note("args", argv); g.note("rows", rows[:4]); g.label("kind %d" % k); g.nontrivial(); r = env.run("data2brdf", argv)
    failed(r, "data2brdf " + " ".join(argv)); new = [f for f in os.listdir(env.scratch) if f not in before]; check("out.func" not in new or os.path.getsize(out) == 0, "a failed fit left a function file")
@prop()
def usage(g, env): help_request(g, env, ["data2brdf"])
if __name__ == "__main__": pbt.main()
