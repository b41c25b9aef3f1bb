"""P29: what the tools that sample, plot or save a function write."""
import os, sys, math, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import pbt
from pbt import prop, check, close
from lib import *
def same(a, b, rel=1e-5, abs_=1e-8): return len(a) == len(b) and all(close(x, y, rel, abs_) for x, y in zip(a, b))
def setup(g, env, pouts=("INV_STERADIAN",), kind=None):
    dy = g.range(1, 4); fn = Func(g, dy, kind); n = size(g, 25, 600); p, dx, pos, val, cfg = samples(g, fn, n)
    old = [[g.real(-3, 3) or 0.5 for _ in range(dy)] for _ in range(n)]; rows = [a + b for a, b in zip(pos, old)]
    f = env.write("in.func", fn.file); k = g.below(3); po = "INV_STERADIAN"
    d = env.write("in.dat", text(rows, dx, dy, p, po, alta=g.flip()) if k == 0 else binary(rows, dx, dy, p, po) if k == 1 else text(rows, dx, dy, p, po))
    g.note("function", fn.file); g.note("data", (p, rows[:4])); g.label(("rational " if fn.rat else "sum of %d " % len(fn.terms)) + "on " + p)
    return fn, dy, p, dx, pos, old, val, cfg, f, d
@prop()
def sample(g, env):
    """brdf2data: positions of the data, values of the function there (or the difference)."""
    fn, dy, p, dx, pos, old, val, cfg, f, d = setup(g, env); out = env.path("out.dat"); diff = g.chance(1, 3); o = [["--input", f], ["--output", out], ["--data-file", d]]
    if diff: o.append(["--export-diff"])
    if g.chance(1, 4): o.append(["--data", "vertical_segment"])
    o = g.shuffle(o); g.note("args", o); env.ok("brdf2data", [x for y in o for x in y]); h, res = read(out)
    check(len(res) == len(pos), "%d rows written, %d expected" % (len(res), len(pos))); check([int(x) for x in h["DIM"]] == [dx, dy] and h["PARAM_IN"] == [p], "header %s" % h)
    for i, r in enumerate(res):
        check(all(close(a, b, 1e-13, 1e-15) for a, b in zip(r[:dx], pos[i])), lambda: "row %d at %s expected %s" % (i, r[:dx], pos[i])); e = [a - b for a, b in zip(old[i], val[i])] if diff else val[i]
        check(same(r[dx:dx + dy], e), lambda: "row %d: %s expected %s" % (i, r[dx:], e))
    g.nontrivial(any(any(x) for x in val))
@prop()
def resave(g, env):
    """brdf2brdf: the copy is a function file and takes the same values."""
    fn, dy, p, dx, pos, old, val, cfg, f, d = setup(g, env); src = f; n = g.range(1, 2)
    for k in range(n):
        dst = env.path("copy%d.func" % k); a = [["--input", src], ["--output", dst]]
        if g.chance(1, 3): a.append(["--export", "alta"])
        a = g.shuffle(a); env.ok("brdf2brdf", [x for y in a for x in y]); src = dst
    h, _ = [x for x in open(src).read().split("#ALTA HEADER END", 1)]
    check("#DIM " in h and "#CMD" in h and "#PARAM_OUT %s\n" % fn.pout in h, "header: " + h)
    out = env.path("out.dat"); env.ok("brdf2data", ["--input", src, "--output", out, "--data-file", d]); _, res = read(out)
    check(len(res) == len(pos), "rows")
    for i, r in enumerate(res): check(same(r[dx:dx + dy], val[i]), lambda: "row %d: the copy takes %s, the function %s | %s" % (i, r[dx:], val[i], open(src).read()[:1500]))
    g.nontrivial(any(any(x) for x in val))
def cosines(cfg): return cfg[0][2] * cfg[1][2]
@prop()
def plot(g, env):
    """brdf2gnuplot against data: positions or index, then value, difference or relative difference; distances printed."""
    fn, dy, p, dx, pos, old, val, cfg, f, d = setup(g, env); out = env.path("plot.txt"); o = [["--input", f], ["--output", out], ["--data-file", d]]; mode = g.pick(["", "", "--error", "--linear_error"]); cosp = cfg[0] is not None and g.chance(1, 3)
    single = not fn.rat and len({t.param for t, _ in fn.terms}) == 1 and fn.terms[0][0].param and all(f is None for _, f in fn.terms)    # the cosines cannot be told from one coordinate
    if fn.rat and DIMS.get(fn.pin, 0) < 3 or single: cosp = False
    if mode: o.append([mode])
    if cosp: o.append(["--cos-plot"])
    o = g.shuffle(o); g.note("args", o); r = env.ok("brdf2gnuplot", [x for y in o for x in y]); res = [[float(x) for x in l.split()] for l in open(out)]
    check(len(res) == len(pos), "%d rows written, %d expected" % (len(res), len(pos))); head = 1 if mode == "--linear_error" else dx; l2 = linf = 0.
    for i, row in enumerate(res):
        e = [y * cosines(cfg[i]) for y in val[i]] if cosp else val[i]; df = [a - b for a, b in zip(old[i], val[i])]; l2 += sum(x * x for x in df); linf = max([linf] + [abs(x) for x in df])
        x = [float(i)] if mode == "--linear_error" else pos[i]; check(same(row[:head], x, 1e-9, 1e-9), lambda: "row %d: %s expected %s" % (i, row[:head], x))
        if mode == "--error": e = [a - b for a, b in zip(old[i], e)]
        if mode == "--linear_error": e = [(a - b) / a for a, b in zip(old[i], e)]
        sc = 1 + max(abs(x) for x in e)
        check(same(row[head:], e, 1e-5, 1e-8 * sc if mode else 1e-8), lambda: "row %d: %s expected %s" % (i, row[head:], e))
    s = r.stdout.decode(); m = re.search(r"L2   distance to data = (\S+)", s); check(m and close(float(m.group(1)), math.sqrt(l2 / len(pos)), 1e-4, 1e-6), lambda: "L2 distance %s, expected %g" % (m and m.group(1), math.sqrt(l2 / len(pos))))
    m = re.search(r"Linf distance to data = (\S+)", s); check(m and close(float(m.group(1)), linf, 1e-4, 1e-6), lambda: "Linf distance %s, expected %g" % (m and m.group(1), linf))
    g.nontrivial(any(any(x) for x in val))
@prop()
def polar(g, env):
    """--polar-plot: N/2 retro directions with negative angles, then N/2 forward ones."""
    dy = g.range(1, 3); fn = Func(g, dy, g.pick(["rational", None]), pin=g.pick(["STARK_2D", "COS_TLR", "CARTESIAN", "RUSIN_TH_TD", "COS_TH"])); f = env.write("in.func", fn.file); out = env.path("plot.txt"); inc = round(g.uniform(0.02, 1.5), 5); n = g.range(2, 40)
    o = [["--input", f], ["--output", out], ["--polar-plot"], ["--inc-angle", num(inc)]]; dflt = g.chance(1, 6)
    if dflt: n = 100
    else: o.append(["--samples", str(n)])
    o = g.shuffle(o); g.note("args", o); g.note("function", fn.file); env.ok("brdf2gnuplot", [x for y in o for x in y]); res = [[float(x) for x in l.split()] for l in open(out)]; N = n // 2
    check(len(res) == 2 * N, "%d rows, expected %d" % (len(res), 2 * N)); l = sph(inc, PI); nz = False
    for i, r in enumerate(res):
        t = PI / 2 * (i % N) / N; retro = i < N; check(close(r[0], -t if retro else t, 1e-9, 1e-9), lambda: "row %d: angle %g expected %g" % (i, r[0], -t if retro else t)); v = sph(t, PI if retro else 0.)
        if not retro and abs(t - inc) < 0.02 or retro and abs(t - inc) < 0.02 or t == 0: continue    # singular or non smooth directions
        e = fn.value(v, l); nz = nz or any(e); check(same(r[1:], e, 1e-4, 1e-7), lambda: "row %d at %g: %s expected %s" % (i, t, r[1:], e))
    g.nontrivial(nz)
@prop()
def tabulated(g, env):
    """A function sampled at the fixed positions of a tabulated format, and read back."""
    kind = g.pick(["data_utia", "data_utia", "data_utia", "data_merl"]) if g.chance(1, 2) else "data_utia"; fn = Func(g, 3, g.pick(["single", None]), pout="RGB_COLOR")
    if fn.rat: fn = Func(g, 3, "single", pout="RGB_COLOR")
    f = env.write("in.func", fn.file); out = env.path("out.bin"); g.note("function", fn.file); g.label(kind); env.ok("brdf2data", ["--input", f, "--output", out, "--data", kind])
    back = env.path("back.dat"); p = "SPHERICAL_TL_PL_TV_PV" if kind == "data_utia" else "RUSIN_TH_TD_PD"; env.ok("data2data", ["--input", out, "--in-data", kind, "--output", back, "--out-data", "alta-binary", "--all-values"])
    h, res = read(back); check(h["PARAM_IN"] == [p] and len(res) == (288 * 288 if kind == "data_utia" else 90 * 90 * 180), "%d rows in %s" % (len(res), h["PARAM_IN"])); judged = 0
    for _ in range(40):
        i = g.below(len(res)); r = res[i]; n = DIMS[p]
        if n == 4: l, v = sph(r[0], r[1]), sph(r[2], r[3])
        else:   # from half angle and difference vector
            d = sph(r[1], r[2]); c, s = math.cos(r[0]), math.sin(r[0]); v = (c * d[0] + s * d[2], d[1], -s * d[0] + c * d[2]); d = (-d[0], -d[1], d[2]); l = (c * d[0] + s * d[2], d[1], -s * d[0] + c * d[2])
        if v[2] < 0.02 or l[2] < 0.02 or v[2] > 0.9999 or l[2] > 0.9999: continue
        e = fn.value(v, l); judged += 1; check(same(r[n:n + 3], e, 1e-4, 1e-6), lambda: "position %s: %s expected %s" % (r[:n], r[n:n + 3], e))
    g.nontrivial(judged > 10)
@prop()
def errors(g, env):
    fn, dy, p, dx, pos, old, val, cfg, f, d = setup(g, env); out = env.path("out.txt"); tool = g.pick(["brdf2data", "brdf2brdf", "brdf2gnuplot"]); a = {"--input": f, "--output": out}; k = g.below(9)
    if tool != "brdf2brdf": a["--data-file"] = d
    elif k >= 6: k = g.below(6)
    if k == 0: a["--input"] = env.path("missing.func")
    if k == 1: del a["--input"]
    if k == 2: del a["--output"]
    if k == 3: a["--output"] = env.path("no/such/dir/out")
    if k == 4:
        s = fn.file; e = s.index("#FUNC"); a["--input"] = env.write("bad.func", g.pick(["", "garbage\n", s[len("#ALTA FUNC HEADER\n"):], "garbage" + s[len("#ALTA FUNC HEADER"):], s[:e], s[:g.range(e, s.rstrip().rfind("\t"))] if fn.rat else s[:e + 8], s.replace("#FUNC ", "#FUNC x", 1)]))
    if k == 5:
        if fn.rat: a["--input"] = env.write("bad.func", fn.file.replace("#CMD ", "#CMD --func " + g.pick(["nonlinear_function_nothing", "data_grid", "x"])))
        else: t = g.pick(fn.terms)[0]; a["--input"] = env.write("bad.func", fn.file.replace(t.name, t.name + "x"))
    if k == 6: a["--data-file"] = env.path("missing.dat")
    if k == 7: a["--data-file"] = env.write("bad.dat", g.pick(["", "#DIM x\n1 2\n", "#DIM 0 1\n", "garbage\n", text([r + [1.] * (dy + 1) for r in pos], dx, dy + 1, p, "INV_STERADIAN"), text([r + [1.] * dy for r in pos], dx, dy, "UNKNOWN_INPUT") if fn.pin != "UNKNOWN_INPUT" else ""]))
    if k == 8: a["--data"] = g.pick(["data_nothing", "nonlinear_function_diffuse", "x"])
    argv = [x for y in g.shuffle(sorted(a.items())) for x in y]; g.note("args", tool + " " + " ".join(argv)); g.label("%s %d" % (tool, k)); r = env.run(tool, argv); g.nontrivial()
    failed(r, tool + " " + " ".join(argv)); check(k == 3 or not os.path.exists(out) or os.path.getsize(out) == 0, "an output was written")
@prop()
def usage(g, env): help_request(g, env, ["brdf2data", "brdf2brdf", "brdf2gnuplot"])
if __name__ == "__main__": pbt.main()
