"""P28: the data conversion tool."""
import os, sys, math, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import pbt
from pbt import prop, check, close
from lib import *
TOL = 1e-9
def dataset(g, below=0):
    pin = g.pick(["CARTESIAN", "SPHERICAL_TL_PL_TV_PV", "STEREOGRAPHIC", "RUSIN_TH_PH_TD_PD", "ISOTROPIC_TV_TL_DPHI"]); dy = g.range(1, 4); pout = g.pick(OUTS + ["UNKNOWN_OUTPUT"])
    if pout in ("RGB_COLOR", "XYZ_COLOR"): dy = 3
    cfg, rows = [], []
    for v, l in configs(g, size(g, 30)):
        b = below and g.chance(below, 10) and pin == "CARTESIAN"
        if b: v, l = config(g, b)
        cfg.append((v, l, b)); rows.append(coords(pin, v, l) + [g.real(-5, 5) for _ in range(dy)])
    return pin, pout, dy, cfg, rows
# parametrizations that keep an isotropic three-dimensional input
ISO = [p for p in DIMS if p not in ("CARTESIAN", "SPHERICAL_TL_PL_TV_PV", "STEREOGRAPHIC", "RUSIN_TH_PH_TD_PD", "RUSIN_VH", "SCHLICK_VH", "RUSIN_TH_PH_TD")]
@prop()
def convert_rows(g, env):
    """One output row per input row, with its coordinates and values; text and binary, options in any order."""
    pin, pout, dy, cfg, rows = dataset(g, 2); dx = DIMS[pin]
    target = g.pick(list(DIMS) if dx >= 4 else ISO); allv = any(c[2] for c in cfg) or g.flip(); same = g.chance(1, 6)
    if same: target = pin
    vs = None; kind = g.below(3)
    if kind == 0: src = env.write("in.dat", text(rows, dx, dy, pin, pout, alta=g.flip()))
    elif kind == 1: src = env.write("in.dat", binary(rows, dx, dy, pin, pout))
    else:
        vs = g.range(1, 2); src = env.write("in.dat", text([r + [0.1] * vs for r in rows], dx, dy, pin, pout, vs=vs))
    out = env.path("out.dat"); o = [["--input", src], ["--output", out]]
    if not same or g.flip(): o.append(["--param", target])
    fmt = g.pick([None, "vertical_segment", "alta-binary", "alta-binary"])
    if fmt: o.append(["--out-data", fmt])
    if kind == 2 and g.flip(): o.append(["--in-data", "vertical_segment"])
    if allv: o.append(["--all-values"])
    if g.chance(1, 6): o.append(["--verbose"])
    keep = list(range(len(rows)))
    if kind != 1 and g.chance(1, 3):
        c = g.below(dy); t = g.uniform(-4, 4); lim = [-1e30] * dy; lim[c] = t; o.append(["--ymin", "[" + ", ".join(num(x) for x in lim) + "]"]); keep = [i for i in keep if rows[i][dx + c] >= t]
    if kind != 1 and g.chance(1, 3):
        c = g.below(dx); t = g.uniform(-0.5, 1.2); lim = [1e30] * dx; lim[c] = t; o.append(["--max", "[" + ",".join(num(x) for x in lim) + "]"]); keep = [i for i in keep if rows[i][c] <= t]
    o = g.shuffle(o); g.note("args", " ".join(" ".join(x) for x in o)); g.note("file", open(src, "rb").read()[:1500]); g.label(target); g.label("format %s" % fmt)
    env.ok("data2data", [x for y in o for x in y]); h, res = read(out)
    if fmt == "alta-binary": check(h.get("FORMAT") == ["binary"], "not written in binary")
    check([int(x) for x in h["DIM"]] == [DIMS[target], dy], "dimensions %s" % h["DIM"]); check(h["PARAM_IN"] == [target], "parametrization %s" % h["PARAM_IN"]); check(h["PARAM_OUT"] == [pout], "output parametrization %s" % h["PARAM_OUT"])
    check(len(res) == len(keep), "%d rows written, %d expected" % (len(res), len(keep)))
    t = DIMS[target]
    for i, r in zip(keep, res):
        v, l, b = cfg[i]
        check(all(close(a, b, 0 if fmt == "alta-binary" else 1e-14, 0) for a, b in zip(r[t:t + dy], rows[i][dx:])), lambda: "row %d: values %s expected %s" % (i, r[t:], rows[i][dx:]))
        if b and not same and target != "CARTESIAN": continue
        check(near(target, r[:t], coords(target, v, l), 1e-7), lambda: "row %d: coordinates %s expected %s" % (i, r[:t], coords(target, v, l)))
    g.nontrivial(len(keep) > 1 and target != pin)
@prop()
def round_trip(g, env):
    """There and back, in text and binary; a free-dimension file needs a parametrization."""
    pin, pout, dy, cfg, rows = dataset(g); dx = DIMS[pin]; mids = [p for p in (["CARTESIAN", "SPHERICAL_TL_PL_TV_PV", "STEREOGRAPHIC", "RUSIN_TH_PH_TD_PD"] if dx > 3 else ["ISOTROPIC_TV_TL_DPHI", "RUSIN_TH_TD_PD", "ISOTROPIC_TL_TV_PROJ_DPHI"])]
    f = env.write("f0.dat", text(rows, dx, dy, pin, pout)); n = g.range(1, 3); path = [g.pick(mids) for _ in range(n)] + [pin]; g.note("path", path); g.note("rows", rows[:6])
    for k, p in enumerate(path):
        nf = env.path("f%d.dat" % (k + 1)); a = ["--input", f, "--output", nf, "--param", p]
        if g.flip(): a += ["--out-data", "alta-binary"]
        env.ok("data2data", a); f = nf
    h, res = read(f); check(len(res) == len(rows), "rows")
    for a, b in zip(rows, res):
        check(all(close(x, y, 1e-14, 0) for x, y in zip(a[dx:], b[dx:])), "values changed"); check(near(pin, a[:dx], b[:dx], 1e-6), lambda: "coordinates %s expected %s" % (b[:dx], a[:dx]))
    g.nontrivial(len(rows) > 1)
GRID = {"COS_TH": ([0], [1]), "COS_TLV": ([-1], [1]), "COS_TH_TD": ([0, 0], [1, 1]), "RUSIN_TH_TD": ([0, 0], [PI / 2, PI / 2]), "STARK_2D": ([0, 0], [1, 1]), "ISOTROPIC_TV_PROJ_DPHI": ([-PI / 2] * 2, [PI / 2] * 2), "RUSIN_TH_TD_PD": ([0, 0, 0], [PI / 2, PI / 2, 2 * PI])}
@prop()
def resample(g, env):
    """Onto the nodes of a grid: positions are the grid's, values the input's at these positions."""
    dy = g.range(1, 3); pin = g.pick(["CARTESIAN", "STARK_2D", "RUSIN_TH_TD", "ISOTROPIC_TV_TL_DPHI"]); p = g.pick(list(GRID)); size = [g.range(2, 5) for _ in GRID[p][0]]
    from stats import idw
    same = g.chance(2, 5) and p != "RUSIN_TH_TD_PD"; pin = p if same else pin    # (degenerate nodes of the others convert back to themselves)
    const = [g.real(-3, 3) for _ in range(dy)]; rows = [coords(pin, *c) + (const if not same else [g.real(-3, 3) for _ in range(dy)]) for c in configs(g, g.range(8, 40))]
    src = env.write("in.dat", text(rows, DIMS[pin], dy, pin, "UNKNOWN_OUTPUT")); out = env.path("out.dat")
    a = ["--input", src, "--output", out, "--in-data", "data_rbf", "--out-data", "data_grid", "--param", p, "--grid-size", "[" + ", ".join(map(str, size)) + "]"]; g.note("args", " ".join(a)); g.note("constant", const); g.label(p)
    env.ok("data2data", a); h, res = read(out); n = 1
    for s in size: n *= s
    check(len(res) == n, "%d rows for a grid of %d" % (len(res), n)); lo, hi = GRID[p]; seen = set(); zero = 0
    for r in res:
        idx = tuple(round((x - a0) / (b0 - a0) * (s - 1)) for x, a0, b0, s in zip(r, lo, hi, size)); seen.add(idx)
        check(all(abs(x - (a0 + (b0 - a0) * i / (s - 1))) < 1e-9 for x, a0, b0, s, i in zip(r, lo, hi, size, idx)), lambda: "position %s is not a node" % r)
        y = r[len(size):]
        if same:    # the value interpolated at the node
            const = idw(rows, len(size), r[:len(size)])
            if const is None: continue
            if all(abs(a0 - b0) <= 1e-5 * (1 + abs(b0)) for a0, b0 in zip(y, const)): continue
        if all(abs(a0 - b0) <= 1e-7 * (1 + abs(b0)) for a0, b0 in zip(y, const)): continue
        check(all(x == 0 for x in y), lambda: "value %s at %s, expected %s or zero below the horizon" % (y, r[:len(size)], const)); zero += 1
        if p == "COS_TH" or p == "COS_TLV" and r[0] > 0.05: check(False, lambda: "zero above the horizon at %s" % r)
        if p == "RUSIN_TH_TD": check(r[0] + r[1] > PI / 2 - 1e-6, lambda: "zero above the horizon at %s" % r)
        if p == "ISOTROPIC_TV_PROJ_DPHI": check(math.hypot(r[0], r[1]) > PI / 2 - 1e-6, lambda: "zero above the horizon at %s" % r)
    check(len(seen) == n, "%d nodes of %d written" % (len(seen), n)); g.nontrivial(zero < n)
@prop()
def image(g, env):
    """An image of a slice becomes rows (one per pixel) or the nodes of a grid (each takes the value of its pixel)."""
    p = g.pick(["STARK_2D", "RUSIN_TH_TD", "COS_TH_TD"]); hi = GRID[p][1][0]; w, h = g.range(1, 12), g.range(1, 12); k = g.range(1, 9); px = {c: [((i * (2 * j + 3) + k * (j + 1)) % 64) / 8.0 for i in range(w * h)] for j, c in enumerate("RGB")}
    src = env.write("in.exr", exr(w, h, px)); out = env.path("out.dat"); grid = g.flip(); a = ["--input", src, "--output", out, "--in-data", "data_brdf_slice", "--param", p]; size = [g.range(2, 9), g.range(2, 9)]
    if grid: a += ["--out-data", "data_grid", "--grid-size", "[%d, %d]" % tuple(size)]
    elif g.flip(): a += ["--out-data", "alta-binary"]
    a += ["--all-values"]; g.note("args", " ".join(a)); g.note("size", (w, h)); env.ok("data2data", a); hd, res = read(out); n = size[0] * size[1] if grid else w * h
    check(len(res) == n, "%d rows, expected %d" % (len(res), n)); check(hd["PARAM_OUT"] == ["RGB_COLOR"] and hd["PARAM_IN"] == [p] and hd["DIM"] == ["2", "3"], "header %s" % hd); judged = 0
    for i, r in enumerate(res):
        if grid:
            e = [hi * (i // size[1]) / (size[0] - 1), hi * (i % size[1]) / (size[1] - 1)]; u, v = e[0] / hi * w, e[1] / hi * h
            inside = 0.01 < e[0] < hi * 0.99 and 0.01 < e[1] < hi * 0.99 and abs(u - round(u)) > 1e-6 and abs(v - round(v)) > 1e-6
            inside = inside and (e[0] + e[1] < PI / 2 - 0.01 if p == "RUSIN_TH_TD" else math.acos(e[0]) + math.acos(e[1]) < PI / 2 - 0.01 if p == "COS_TH_TD" else e[0] ** 2 + e[1] ** 2 < 0.95)
            j = int(u) + w * int(v)
        else: e = [hi * (i % w + .5) / w, hi * (i // w + .5) / h]; j = i; inside = True
        check(all(close(x, y, 1e-6, 1e-9) for x, y in zip(r, e)), lambda: "row %d at %s expected %s" % (i, r[:2], e))
        if inside: judged += 1; check(r[2:5] == [px[c][j] for c in "RGB"], lambda: "row %d at %s: values %s expected %s" % (i, e, r[2:], [px[c][j] for c in "RGB"]))
    g.label("grid" if grid else "rows"); g.nontrivial(judged > 1)
@prop()
def threads(g, env):
    """The rows written do not depend on the number of threads that compute them."""
    kind = g.pick(["rbf", "image"]); p = g.pick(["STARK_2D", "RUSIN_TH_TD", "COS_TH_TD"]) if kind == "image" else g.pick([x for x in GRID if len(GRID[x][0]) > 1]); dy = g.range(1, 3)
    big = lambda q: [g.range(30, 60), g.range(30, 60)] if len(GRID[q][0]) == 2 else [g.range(8, 14) for _ in range(3)]
    if kind == "image":
        w, h = g.range(2, 30), g.range(2, 30); src = env.write("in.exr", exr(w, h, {c: [((i * (2 * j + 3) + j + 1) % 64) / 8.0 for i in range(w * h)] for j, c in enumerate("RGB")})); a = ["--in-data", "data_brdf_slice", "--param", p]
    else:
        pin = g.pick([p, "CARTESIAN", "ISOTROPIC_TV_TL_DPHI"]); src = env.write("in.dat", text([coords(pin, *c) + [g.real(-3, 3) for _ in range(dy)] for c in configs(g, g.range(8, 40))], DIMS[pin], dy, pin, "UNKNOWN_OUTPUT")); a = ["--in-data", "data_rbf", "--param", p]
    a = ["--input", src, "--out-data", "data_grid", "--grid-size", "[" + ", ".join(map(str, big(p))) + "]"] + a; g.note("args", " ".join(a)); out = []; counts = ["1"] + [g.pick(["2", "4", "8"]) for _ in range(g.range(1, 2))]; g.note("threads", counts); g.label(kind)
    for n in counts:
        o = env.path("out%d.dat" % len(out)); env.ok("data2data", a + ["--output", o], env={"OMP_NUM_THREADS": n}); out.append([l for l in open(o) if l[0] != "#"])
    for n, o in zip(counts, out):
        bad = [k for k in range(max(len(o), len(out[0]))) if o[k:k + 1] != out[0][k:k + 1]]
        check(not bad, lambda: "%d of %d rows differ with %s threads, the first is %r instead of %r" % (len(bad), len(out[0]), n, o[bad[0]:bad[0] + 1], out[0][bad[0]:bad[0] + 1]))
    g.nontrivial(len(set(l.split(None, 2)[-1] for l in out[0])) > 5)
@prop()
def errors(g, env):
    pin, pout, dy, cfg, rows = dataset(g); src = env.write("in.dat", text(rows, DIMS[pin], dy, pin, pout)); out = env.path("out.dat"); k = g.below(9); g.label("error %d" % k); a = {"--input": src, "--output": out, "--param": "CARTESIAN"}
    if k == 0: a["--input"] = env.path("missing.dat")
    if k == 1: del a["--input"]
    if k == 2: del a["--output"]
    if k == 3: a["--output"] = env.path("no/such/dir/out.dat")
    if k == 4: a["--in-data"] = g.pick(["data_nothing", "nonlinear_function_diffuse"])
    if k == 5: a["--out-data"] = g.pick(["data_nothing", "nonlinear_function_diffuse"])
    if k == 6: a["--input"] = env.write("bad.dat", g.pick(["", "#ALTA HEADER BEGIN\n#ALTA HEADER END\n1 2 3\n", "#DIM x\n1 2\n", "#DIM 0 1\n", "garbage\n"]))
    if k == 7: a["--input"] = env.write("free.dat", text([[1, 2, 3]], 2, 1)); del a["--param"]
    if k == 8:
        s = binary(rows, DIMS[pin], dy, pin, pout); a["--input"] = env.write("cut.dat", s[:g.range(s.index(b"#VERSION"), len(s) - 16)])
    if g.flip() and k != 5: a["--out-data"] = "alta-binary"
    argv = [x for y in g.shuffle(sorted(a.items())) for x in y]; g.note("args", " ".join(argv)); r = env.run("data2data", argv); g.nontrivial()
    failed(r, "data2data " + " ".join(argv)); check(k == 3 or not os.path.exists(out) or os.path.getsize(out) == 0, "an output was written")
@prop()
def usage(g, env): help_request(g, env, ["data2data"])
@prop("parametrization_list")
def parametrization_list(g, env):
    """The list of parametrizations has every one of them, by the name the options take, whatever else is asked."""
    tool = "data2data"; o = [["--help-params"]] + [g.pick([["--verbose"], ["--input", env.path("none")], ["--param", g.pick(sorted(DIMS))]]) for _ in range(g.range(0, 3))]
    a = [x for y in g.shuffle(o) for x in y]; g.note("args", tool + " " + " ".join(a)); g.label(tool); r = env.run(tool, a); t = r.stdout.decode("latin1"); g.nontrivial(len(o) > 1)
    check(r.returncode == 0, lambda: "exit status %d | %s" % (r.returncode, r.stderr[-300:].decode("latin1"))); words = re.findall(r"[A-Z][A-Z0-9_]+", t)
    for n in DIMS: check(n in words, lambda: "%s is not listed: %s" % (n, t[:1500]))
if __name__ == "__main__": pbt.main()
