"""P31: moments and error statistics."""
import os, sys, math, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import pbt
from pbt import prop, check, close
from lib import *
def vecs(s):
    """{label: values} of the lines 'label[a, b, ...]'."""
    return {m.group(1).strip(" =:"): [float(x) for x in m.group(2).split(",")] for m in re.finditer(r"^(.*?)\[([^\]]*)\]\s*$", s, re.M)}
def metrics(a, b, w=None):
    """Per channel metrics between two lists of rows."""
    n, dy = len(a), len(a[0]); r = {k: [] for k in ("L1", "L2", "L3", "LINF", "MSE", "RMSE")}
    for c in range(dy):
        d = [abs(x[c] - y[c]) * (w[i] if w else 1.) for i, (x, y) in enumerate(zip(a, b))]; s2 = math.fsum(x * x for x in d)
        r["L1"].append(math.fsum(d)); r["L2"].append(math.sqrt(s2)); r["L3"].append(math.fsum(x ** 3 for x in d) ** (1 / 3)); r["LINF"].append(max(d)); r["MSE"].append(s2 / n); r["RMSE"].append(math.sqrt(s2 / n))
    return r
def agree(got, want, label, tol=2e-5, abs_=1e-9): check(got is not None and len(got) == len(want) and all(close(a, b, tol, abs_) for a, b in zip(got, want)), lambda: "%s: %s expected %s" % (label, got, want))
def judge(out, m, tol, abs_):
    for k in m: agree(out.get(k), m[k], k, tol, abs_)
def printed(s): 
    v = vecs(s); g = lambda k: next((v[x] for x in v if x.replace("<<INFO>>", "").strip() == k), None)
    return {"L1": g("L1_norm"), "L2": g("L2_norm"), "L3": g("L3_norm"), "LINF": g("Linf_norm"), "MSE": g("Mse"), "RMSE": g("Rmse")}
def idw(rows, dx, x):
    """Inverse squared distance weighting of the three nearest rows (None: the third and the fourth are as near)."""
    d = sorted((sum((a - b) ** 2 for a, b in zip(r, x)), i) for i, r in enumerate(rows))
    if len(d) > 3 and d[3][0] - d[2][0] < 1e-6 * d[3][0] + 1e-9: return None
    k = [(1 / (1e-10 + q), rows[i]) for q, i in d[:3]]; s = sum(w for w, _ in k)
    return [sum(w * r[dx + c] for w, r in k) / s for c in range(len(rows[0]) - dx)]
POW = {"0": (0, 0), "x": (1, 0), "y": (0, 1), "{xx}": (2, 0), "{xy}": (1, 1), "{yy}": (0, 2), "{xxx}": (3, 0), "{xxy}": (2, 1), "{xyy}": (1, 2), "{yyy}": (0, 3)}
@prop()
def moments(g, env):
    """data2moments: integral of the shifted values, and moments up to order three normalised by it."""
    image = g.chance(1, 4)
    if image:
        p = g.pick(["STARK_2D", "RUSIN_TH_TD", "COS_TH_TD"]); hi = PI / 2 if p == "RUSIN_TH_TD" else 1.; w, h = g.pick([1, 2, 4, 8]), g.pick([1, 2, 4, 8]); px = {c: [g.range(0, 64) / 8. for _ in range(w * h)] for c in "RGB"}; dx, dy = 2, 3
        src = env.write("in.exr", exr(w, h, px)); lo, up = [0., 0.], [hi, hi]; smp = [g.pick([1, 3, 5, 7]) for _ in range(2)]; vmin = [min(px[c]) for c in "RGB"]; plug = "data_brdf_slice"; par = ["--param", p]
        val = lambda x, idx: [px[c][idx[0] * w // smp[0] + w * (idx[1] * h // smp[1])] for c in "RGB"]
    else:
        dx, dy = g.range(2, 4), g.range(1, 3); n = g.range(1, 3) if g.flip() else g.range(4, 25); rows = [[g.uniform(-2, 2) for _ in range(dx)] + [g.real(-3, 5) for _ in range(dy)] for _ in range(n)]
        if g.chance(1, 4):
            k = g.below(dx)
            for r in rows: r[k] = rows[0][k]
        src = env.write("in.dat", text(rows, dx, dy)); lo = [min(r[k] for r in rows) for k in range(dx)]; up = [max(r[k] for r in rows) for k in range(dx)]; smp = [g.range(1, 6) for _ in range(dx)]; vmin = [min(r[dx + c] for r in rows) for c in range(dy)]; plug = "data_rbf"; par = []
        val = lambda x, idx: idw(rows, dx, x)
    dim = [0, 1]; o = [["--input", src], ["--output", env.path("m.txt")], ["--data", plug], ["--samples", "[" + ", ".join(map(str, smp)) + "]"]] + ([par] if par else [])
    if g.flip(): dim = [g.below(dx), g.below(dx)]; o.append(["--dim", "[%d, %d]" % tuple(dim)])
    if g.chance(1, 4) and dx == 2 and not image: o = [x for x in o if x[0] != "--samples"]; smp = [100] * dx
    o = g.shuffle(o); g.note("args", o); g.note("data", (px if image else rows)); g.label(plug); r = env.ok("data2moments", [x for y in o for x in y]); sm = [s if b > a else 1 for s, a, b in zip(smp, lo, up)]
    vol = math.prod(b - a for a, b in zip(lo, up) if b > a); nb = math.prod(sm); acc = {k: [0.] * dy for k in POW}; scale = {k: [0.] * dy for k in POW}
    for i in range(nb):
        idx = []; q = i
        for s in sm: idx.append(q % s); q //= s
        x = [a + (b - a) * (k / s) for a, b, k, s in zip(lo, up, idx, sm)]; y = val(x, idx)
        if y is None: raise pbt.Discard()
        for k, (a, b) in POW.items():
            f = x[dim[0]] ** a * x[dim[1]] ** b * vol / nb
            for c in range(dy): acc[k][c] += (y[c] - vmin[c]) * f; scale[k][c] += abs((y[c] - vmin[c]) * f)
    if any(acc["0"][c] <= 1e-6 * (1 + abs(vmin[c])) * vol for c in range(dy)): raise pbt.Discard()    # nothing to normalise by
    out = vecs(open(env.path("m.txt")).read()); pr = vecs(r.stdout.decode())
    for k in POW:
        want = acc[k] if k == "0" else [a / b for a, b in zip(acc[k], acc["0"])]; got = out.get("\\mu_" + k); sc = [s / (1 if k == "0" else z) for s, z in zip(scale[k], acc["0"])]
        check(got is not None and len(got) == dy and all(abs(a - b) <= 1e-5 * abs(b) + 1e-5 * s for a, b, s in zip(got, want, sc)), lambda: "moment %s: %s expected %s" % (k, got, want))
        pk = next((v for n_, v in pr.items() if n_.split()[-1:] == [k.strip("{}")] and "moment" in n_), None); check(pk == got, lambda: "moment %s printed as %s and written as %s" % (k, pk, got))
    g.nontrivial(nb > 1)
def readout(env, r, out, m, tol, abs_):
    judge(printed(r.stdout.decode()), m, tol, abs_)
    if out: judge(vecs(open(out).read()), m, tol, abs_)
@prop()
def data_stats(g, env):
    """data2stats: norms between an interpolated input and the rows of the reference; zero on the input itself; any row order."""
    dy = g.range(1, 3); out = env.path("s.txt") if g.flip() else None; kind = g.below(3)
    if kind == 0:   # image against rows of another parametrization
        p = g.pick(["RUSIN_TH_TD", "STARK_2D", "COS_TH_TD"]); hi = PI / 2 if p == "RUSIN_TH_TD" else 1.; w, h, dy = g.range(1, 9), g.range(1, 9), 3; px = {c: [g.range(0, 64) / 8. for _ in range(w * h)] for c in "RGB"}; src = env.write("in.exr", exr(w, h, px)); plug = ["--in-data", "data_brdf_slice"]
        if p != "STARK_2D": p = "STARK_2D"; hi = 1.     # data2stats gives no options to the plugin, whose default is this one
        rp = g.pick(FULL + ["RUSIN_TH_TD_PD", "STARK_2D"]); pout = "RGB_COLOR"; cfg = configs(g, size(g, 25, 600)); a = []; rows = []
        for v, l in cfg:
            x = coords(p, v, l); u, t = x[0] / hi * w, x[1] / hi * h
            if abs(u - round(u)) < 1e-5 or abs(t - round(t)) < 1e-5 or not (0 <= x[0] < hi and 0 <= x[1] < hi): continue
            a.append([px[c][int(u) + w * int(t)] for c in "RGB"]); rows.append(coords(rp, v, l) + [g.real(-2, 9) for _ in range(3)])
        if not rows: raise pbt.Discard()
    else:
        p = g.pick(["CARTESIAN", "STEREOGRAPHIC", "STARK_2D", "COS_TH_TD", "ISOTROPIC_TL_TV_PROJ_DPHI"]); pout = "INV_STERADIAN"; n = g.range(1, 3) if g.flip() else g.range(4, 60); ip = [coords(p, *config(g)) + [g.real(-3, 3) for _ in range(dy)] for _ in range(n)]; src = env.write("in.dat", text(ip, DIMS[p], dy, p, pout)); plug = ["--in-data", "data_rbf"]
        rp = p if p not in FULL and g.flip() else g.pick(FULL); cfg = configs(g, size(g, 25, 600)); a = []; rows = []
        for v, l in cfg:
            y = idw(ip, DIMS[p], coords(p, v, l))
            if y is None: continue
            a.append(y); rows.append(coords(rp, v, l) + [g.real(-3, 3) for _ in range(dy)])
        if not rows: raise pbt.Discard()
        if kind == 2: a = [idw(ip, DIMS[p], r[:DIMS[p]]) for r in ip]; rows = ip[:]; rp = p    # the input itself, up to the regularisation of the weights
        if any(x is None for x in a): raise pbt.Discard()
    perm = g.shuffle(list(range(len(rows)))); ref = env.write("ref.dat", g.pick([text, binary])([rows[i] for i in perm], DIMS[rp], dy, rp, pout)); m = metrics(a, [r[DIMS[rp]:] for r in rows])
    o = g.shuffle([["--input", src], ["--ref", ref], plug] + ([["--output", out]] if out else [])); g.note("args", o); g.note("reference", (rp, rows[:5])); g.note("input", open(src, "rb").read()[:900] if kind else px); g.label("kind %d" % kind)
    r = env.ok("data2stats", [x for y in o for x in y]); readout(env, r, out, m, 5e-5, 1e-5 if kind != 0 else 1e-7)
    if out: check("#DIM %d %d" % (DIMS[rp], dy) in open(out).read(), "dimensions of the report")
    g.nontrivial(len(rows) > 1)
@prop()
def fit_stats(g, env):
    """brdf2stats: norms, and errors weighted by the cosines, between a function and data of another parametrization."""
    dy = g.range(1, 3); fn = Func(g, dy); n = size(g, 25, 600)
    if fn.rat and fn.pin == "UNKNOWN_INPUT": fn = Func(g, dy, "rational", pin="STARK_2D")
    p, dx, pos, val, cfg = samples(g, fn, n); exact = g.chance(1, 6); old = [[float("%.10g" % x) for x in y] if exact else [g.real(-3, 3) for _ in range(dy)] for y in val]; rows = [a + b for a, b in zip(pos, old)]
    f = env.write("in.func", fn.file); d = env.write("in.dat", g.pick([text, binary])(rows, dx, dy, p, "INV_STERADIAN")); out = env.path("s.txt") if g.flip() else None
    o = g.shuffle([["--brdf", f], ["--input", d]] + ([["--output", out]] if out else [])); g.note("args", o); g.note("function", fn.file); g.note("data", (p, rows[:5])); g.label("exact" if exact else p)
    r = env.ok("brdf2stats", [x for y in o for x in y]); m = metrics(old, val); big = 1 + max(abs(x) for y in val for x in y); readout(env, r, out, m, 5e-5, 1e-6 * big * (n if not exact else 1))
    if DIMS[p] < 3: return g.nontrivial(n > 1)    # the cosines are not determined
    s = r.stdout.decode(); v = vecs(s); fl = vecs(open(out).read()) if out else None
    iso = [(c[0][2], c[1][2]) for c in cfg]; wl = metrics(old, val, [b for _, b in iso]); wb = metrics(old, val, [a * b for a, b in iso])
    for lab, fil, want in (("Weighted MSE by cosine of the light direction", "MSE * cos(theta_light)", wl["MSE"]), ("Weighted Root-MSE by cosine of the light direction", "RMSE * cos(theta_light)", wl["RMSE"]),
                           ("Weighted MSE by cos(theta_light) cos(theta_view)", "MSE * cos(theta_light) * cos(theta_view)", wb["MSE"]), ("Weighted Root-MSE by cos(theta_light) cos(theta_view)", "RMSE * cos(theta_light) cos(theta_view)", wb["RMSE"])):
        agree(next((x for k, x in v.items() if k.endswith(lab)), None), want, lab, 5e-5, 1e-6 * big)
        if fl is not None: agree(fl.get(fil), want, fil, 5e-5, 1e-6 * big)
    dd = [math.sqrt(sum((a - b) ** 2 for a, b in zip(x, y))) for x, y in zip(old, val)]
    q = re.search(r"L2, \(computed from function\)  distance to data = (\S+)", s); agree([float(q.group(1))], [math.sqrt(sum(x * x for x in dd) / n)], "L2 distance", 5e-5, 1e-6 * big)
    q = re.search(r"Linf distance to data = (\S+)", s); agree([float(q.group(1))], [max(abs(a - b) for x, y in zip(old, val) for a, b in zip(x, y))], "Linf distance", 5e-5, 1e-6 * big)
    g.nontrivial(n > 1)
@prop()
def errors(g, env):
    dy = g.range(1, 3); fn = Func(g, dy, "single"); p, dx, pos, val, cfg = samples(g, fn, 5); f = env.write("in.func", fn.file); d = env.write("in.dat", text([a + b for a, b in zip(pos, val)], dx, dy, p, "INV_STERADIAN"))
    tool = g.pick(["data2moments", "data2stats", "brdf2stats"]); out = env.path("out.txt"); k = g.below(6); two = {"data2moments": None, "data2stats": "--ref", "brdf2stats": "--brdf"}[tool]
    a = {"--input": d, "--output": out}
    if tool == "data2moments": a["--data"] = "data_rbf"; a["--samples"] = "[" + ", ".join(["2"] * dx) + "]"
    if tool == "data2stats": a["--in-data"] = "data_rbf"; a["--ref"] = d
    if tool == "brdf2stats": a["--brdf"] = f
    if k == 0: a["--input"] = env.path("missing")
    if k == 1: del a["--input"]
    if k == 2: a["--output"] = env.path("no/such/dir/out")
    if k == 3:
        if two: a[two] = env.path("missing2")
        else: a["--data"] = g.pick(["data_nothing", "x", "nonlinear_function_diffuse", "", "vertical_segment"])
    if k == 4:
        if two: del a[two]
        else: del a[g.pick(["--data", "--output"])]
    if k == 5:
        if two: a[two] = env.write("bad", g.pick(["", "garbage\n", "#DIM x\n1 2\n"]))
        elif g.flip(): a["--dim"] = g.pick(["[0]", "[0, %d]" % dx, "[-1, 0]", "[0, 1, 2]"])
        else: a["--samples"] = g.pick(["[2]", "[" + ", ".join(["2"] * (dx - 1) + ["0"]) + "]", "[" + ", ".join(["2"] * (dx + 1)) + "]"])
    argv = [x for y in g.shuffle(sorted(a.items())) for x in y]; g.note("args", tool + " " + " ".join(argv)); g.label("%s %d" % (tool, k)); r = env.run(tool, argv); g.nontrivial()
    failed(r, tool + " " + " ".join(argv)); check(not os.path.exists(out) or os.path.getsize(out) == 0, "an output was written")
@prop()
def usage(g, env): help_request(g, env, ["data2moments", "data2stats", "brdf2stats"])
if __name__ == "__main__": pbt.main()
