"""What the command-line tests share: reference parametrizations, readers and writers of ALTA files."""
import math, struct, os
from pbt import check, close, Discard, Failure
PI = math.pi
def sph(t, p): return (math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t))
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def cl(x): return max(-1.0, min(1.0, x))
def az(y, x): return 0.0 if x == 0 and y == 0 else math.atan2(y, x)
def wrap(a):
    a = math.fmod(a, 2 * PI)
    return a - 2 * PI if a > PI else a + 2 * PI if a <= -PI else a
DIMS = {"COS_TH": 1, "COS_TK": 1, "COS_TLV": 1, "COS_TLR": 1, "RUSIN_TH_TD": 2, "COS_TH_TD": 2, "ISOTROPIC_TV_PROJ_DPHI": 2, "STARK_2D": 2, "NEUMANN_2D": 2, "RUSIN_TH_PH_TD": 3, "RUSIN_TH_TD_PD": 3,
        "ISOTROPIC_TV_TL_DPHI": 3, "RUSIN_VH": 3, "SCHLICK_VH": 3, "ISOTROPIC_TL_TV_PROJ_DPHI": 3, "SCHLICK_TL_TK_PROJ_DPHI": 3, "STARK_3D": 3, "NEUMANN_3D": 3, "RUSIN_TH_PH_TD_PD": 4, "SPHERICAL_TL_PL_TV_PV": 4, "STEREOGRAPHIC": 4, "CARTESIAN": 6}
AZ = {"RUSIN_TH_PH_TD": (1,), "RUSIN_TH_TD_PD": (2,), "ISOTROPIC_TV_TL_DPHI": (2,), "STARK_3D": (2,), "NEUMANN_3D": (2,), "RUSIN_TH_PH_TD_PD": (1, 3), "SPHERICAL_TL_PL_TV_PV": (1, 3)}
OUTS = ["INV_STERADIAN", "INV_STERADIAN_COSINE_FACTOR", "ENERGY", "RGB_COLOR", "XYZ_COLOR"]
def coords(p, v, l):
    """Coordinates of the configuration (view v, light l), from the documentation of each parametrization."""
    h = [a + b for a, b in zip(v, l)]; n = math.sqrt(dot(h, h)); h = [a / n for a in h] if n > 0 else [0, 0, 1]
    k = [v[0] - l[0], v[1] - l[1], v[2] + l[2]]; n = math.sqrt(dot(k, k)); k = [a / n for a in k] if n > 0 else k
    tl, tv, pl, pv, th, ph = math.acos(cl(l[2])), math.acos(cl(v[2])), az(l[1], l[0]), az(v[1], v[0]), math.acos(cl(h[2])), az(h[1], h[0])
    td = math.acos(cl(dot(v, h))); H = [(a + b) / 2 for a, b in zip(v, l)]; B = [(b - a) / 2 for a, b in zip(v, l)]
    def pd():
        c, s = math.cos(-ph), math.sin(-ph); e = (c * v[0] - s * v[1], s * v[0] + c * v[1], v[2])
        c, s = math.cos(-th), math.sin(-th); return az(e[1], c * e[0] + s * e[2])
    dp = pv - pl
    def tk(): return math.acos(cl(k[2])), az(k[1], k[0])
    f = {"COS_TH": lambda: [h[2]], "COS_TK": lambda: [k[2]], "COS_TLV": lambda: [dot(l, v)], "COS_TLR": lambda: [l[2] * v[2] - l[0] * v[0] - l[1] * v[1]], "RUSIN_TH_TD": lambda: [th, td], "COS_TH_TD": lambda: [h[2], dot(v, h)],
         "ISOTROPIC_TV_PROJ_DPHI": lambda: [tv * math.cos(dp), tv * math.sin(dp)], "STARK_2D": lambda: [math.hypot(H[0], H[1]), math.sqrt(dot(B, B))], "NEUMANN_2D": lambda: [math.hypot(H[0], H[1]), math.hypot(B[0], B[1])],
         "RUSIN_TH_PH_TD": lambda: [th, ph, td], "RUSIN_TH_TD_PD": lambda: [th, td, pd()], "ISOTROPIC_TV_TL_DPHI": lambda: [tv, tl, pl - pv], "RUSIN_VH": lambda: list(h), "SCHLICK_VH": lambda: [-k[0], -k[1], k[2]],
         "ISOTROPIC_TL_TV_PROJ_DPHI": lambda: [tl, tv * math.cos(dp), tv * math.sin(dp)], "SCHLICK_TL_TK_PROJ_DPHI": lambda: [tl, tk()[0] * math.cos(tk()[1] - pl), tk()[0] * math.sin(tk()[1] - pl)],
         "STARK_3D": lambda: [math.hypot(H[0], H[1]), math.sqrt(dot(B, B)), az(B[1], B[0]) - az(H[1], H[0])], "NEUMANN_3D": lambda: [math.hypot(H[0], H[1]), math.hypot(B[0], B[1]), az(B[1], B[0]) - az(H[1], H[0])],
         "RUSIN_TH_PH_TD_PD": lambda: [th, ph, td, pd()], "SPHERICAL_TL_PL_TV_PV": lambda: [tl, pl, tv, pv], "STEREOGRAPHIC": lambda: [v[0] / (1 + v[2]), v[1] / (1 + v[2]), l[0] / (1 + l[2]), l[1] / (1 + l[2])],
         "CARTESIAN": lambda: list(v) + list(l)}
    return f[p]()
def near(p, a, b, tol):
    return len(a) == len(b) and all((abs(wrap(x - y)) if k in AZ.get(p, ()) else abs(x - y)) <= tol for k, (x, y) in enumerate(zip(a, b)))
def config(g, below=False):
    """A configuration away from where a parametrization is singular."""
    for _ in range(20):
        tv, tl, pv, pl = g.uniform(0.05, 1.5), g.uniform(0.05, 1.5), g.uniform(-PI, PI), g.uniform(-PI, PI)
        v, l = sph(tv, pv), sph(tl, pl)
        if below:
            # less far below than the other one is above: the half vector of anything lower is refused by an assertion
            if (v[2] < l[2]): v = (v[0], v[1], -v[2])
            else: l = (l[0], l[1], -l[2])
            if abs(abs(v[2]) - abs(l[2])) < 0.01: return sph(0.5, 0.3), sph(PI - 0.9, -1.1)
            return v, l
        if regular(v, l): return v, l
    return sph(0.5, 0.3), sph(0.9, -1.1)
def regular(v, l): return math.hypot(v[0] + l[0], v[1] + l[1]) > 0.05 and math.hypot(v[0] - l[0], v[1] - l[1]) > 0.05 and abs(dot(v, l)) < 0.999
def configs(g, n):
    """Rows as they come: unrelated, sweeping one angle after the other, or from a lattice of few angles."""
    mode = g.below(4) if n > 1 else 0
    if mode < 2: return [config(g) for _ in range(n)]
    lo, hi = (0.05, 0.05, -PI, -PI), (1.5, 1.5, PI, PI); pool = [[g.uniform(a, b) for _ in range(g.range(1, 4))] for a, b in zip(lo, hi)]; t = [x[0] for x in pool]; r = []
    for i in range(n):
        for k in range(20):
            if mode == 2:
                if g.chance(7, 8): j = g.below(4); t[j] = g.uniform(lo[j], hi[j])
            else: t = [g.pick(x) for x in pool] if k < 10 else [g.uniform(a, b) for a, b in zip(lo, hi)]
            v, l = sph(t[0], t[2]), sph(t[1], t[3])
            if regular(v, l): break
        else: v, l = config(g)
        r.append((v, l))
    return r
def num(x): return "%.17g" % x
def text(rows, dx, dy, pin="UNKNOWN_INPUT", pout="UNKNOWN_OUTPUT", vs=None, alta=True, sep=" ", rest=""):
    s = ("#ALTA HEADER BEGIN\n" if alta else "") + "#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n" % (dx, dy, pin, pout) + ("#VS %d\n" % vs if vs is not None else "") + rest + ("#ALTA HEADER END\n" if alta else "")
    return s + "".join(sep.join(num(x) for x in r) + "\n" for r in rows)
def binary(rows, dx, dy, pin="UNKNOWN_INPUT", pout="UNKNOWN_OUTPUT"):
    h = "#ALTA HEADER BEGIN\n#DIM %d %d\n#PARAM_IN  %s\n#PARAM_OUT %s\n#FORMAT binary\n#VERSION 0\n#PRECISION ieee754-double\n#SAMPLE_COUNT %d\n#ENDIAN little\n#BEGIN_STREAM\n" % (dx, dy, pin, pout, len(rows))
    return h.encode() + b"".join(struct.pack("<%dd" % len(r), *r) for r in rows) + b"\n#END_STREAM\n"
def read_text(path):
    h, rows = {}, []
    for l in open(path, encoding="latin1"):
        if l.startswith("#"):
            w = l[1:].split()
            if w: h[w[0]] = w[1:]
        elif l.strip(): rows.append([float(x) for x in l.split()])
    return h, rows
def read_binary(path):
    b = open(path, "rb").read(); h = {}; p = 0
    while p < len(b) and b[p:p + 1] == b"#":
        e = b.index(b"\n", p); w = b[p + 1:e].decode("latin1").split(); p = e + 1
        if w: h[w[0]] = w[1:]
        if w and w[0] == "BEGIN_STREAM" : break
    if b[p:].startswith(b"#ALTA HEADER END\n"): p += 17
    n = int(h["SAMPLE_COUNT"][0]); dx, dy = map(int, h["DIM"]); vs = int(h.get("VS", ["0"])[0]); c = dx + dy + dy * vs
    v = struct.unpack_from("<%dd" % (n * c), b, p)
    return h, [list(v[i * c:(i + 1) * c]) for i in range(n)]
def read(path):
    with open(path, "rb") as f: head = f.read(4096)
    return read_binary(path) if b"#FORMAT binary" in head else read_text(path)
def failed(r, what):
    """A reported failure: a non-zero exit status, not a signal."""
    check(r.returncode != 0, what + ": exit status 0"); check(r.returncode > 0, lambda: what + ": killed by signal %d | %s" % (-r.returncode, r.stderr[-400:].decode("latin1")))
def help_request(g, env, tools):
    """--help among any other options, valid or not: the usage is printed, the exit status is 0, nothing is read or written."""
    tool = g.pick(tools); out = env.path("out"); o = [["--help"]]
    if g.flip(): o.append(["--input", g.pick([env.path("none"), "/", env.write("in", g.pick(["", "#DIM 2 1\n0 0 1\n", "#ALTA FUNC HEADER\n"]))])])
    if g.flip(): o.append(["--output", g.pick([out, env.path("no/dir/out")])])
    for k in range(g.range(0, 3)): o.append(g.pick([["--data-file", env.path("none")], ["--func", "nonlinear_function_none"], ["--fitter", "x"], ["--ref", "y"], ["--param", "COS_TH"], ["--polar-plot"], ["--all-values"], ["--np", "[1]"]]))
    a = [x for y in g.shuffle(o) for x in y]; g.note("args", tool + " " + " ".join(a)); g.label(tool); before = sorted(os.listdir(env.scratch)); r = env.run(tool, a)
    check(r.returncode == 0, lambda: "%s: exit status %d | %s" % (" ".join([tool] + a), r.returncode, r.stderr[-300:].decode("latin1"))); t = r.stdout.decode("latin1") + r.stderr.decode("latin1")
    check("usage" in t.lower() and "--input" in t, lambda: "no usage printed: " + t[:400]); check(sorted(os.listdir(env.scratch)) == before, "files were written"); g.nontrivial(len(o) > 1)
def exr(w, h, chans):
    """An uncompressed EXR file; chans: {name: row-major values}."""
    s = struct.pack("<ii", 20000630, 2); z = lambda t: t.encode() + b"\0"; names = sorted(chans); i32 = lambda v: struct.pack("<i", v)
    s += z("channels") + z("chlist") + i32(1 + sum(len(n) + 17 for n in names)) + b"".join(z(n) + struct.pack("<iiii", 2, 0, 1, 1) for n in names) + b"\0"
    s += z("compression") + z("compression") + i32(1) + b"\0"
    for n in ("dataWindow", "displayWindow"): s += z(n) + z("box2i") + i32(16) + struct.pack("<iiii", 0, 0, w - 1, h - 1)
    s += z("lineOrder") + z("lineOrder") + i32(1) + b"\0" + z("pixelAspectRatio") + z("float") + i32(4) + struct.pack("<f", 1) + z("screenWindowCenter") + z("v2f") + i32(8) + struct.pack("<ff", 0, 0) + z("screenWindowWidth") + z("float") + i32(4) + struct.pack("<f", 1) + b"\0"
    off, line = len(s) + 8 * h, 8 + 4 * w * len(names)
    s += b"".join(struct.pack("<Q", off + line * y) for y in range(h))
    for y in range(h): s += struct.pack("<ii", y, 4 * w * len(names)) + b"".join(struct.pack("<%df" % w, *chans[n][y * w:(y + 1) * w]) for n in names)
    return s
# ---- functions stored in files, with their closed form -------------------------------------------------------------
ISO3 = ["RUSIN_TH_TD_PD", "ISOTROPIC_TV_TL_DPHI", "ISOTROPIC_TL_TV_PROJ_DPHI", "STARK_3D"]   # what an isotropic function can be sampled in
FULL = ["CARTESIAN", "SPHERICAL_TL_PL_TV_PV", "STEREOGRAPHIC", "RUSIN_TH_PH_TD_PD"]
def unit(a):
    n = math.sqrt(dot(a, a)); return [x / n for x in a]
class Term:
    """One lobe: plugin, text of its parameters, value at (view, light)."""
    def __init__(s, g, dy, kind):
        s.kind, s.dy = kind, dy; u = g.uniform
        s.name = ("nonlinear_fresnel_" if kind == "schlick" else "nonlinear_function_") + kind; s.param = None; s.opts = ""
        if kind == "diffuse": s.p = [[round(g.real(0, 3), 6)] for _ in range(dy)]; keys = ["kd"]
        elif kind == "blinn": s.p = [[round(u(0, 3), 6), round(u(0, 60), 5)] for _ in range(dy)]; keys = ["Ks", "N "]
        elif kind == "beckmann": s.p = [[round(u(0, 3), 6), round(u(0.1, 1), 6)] for _ in range(dy)]; keys = ["Ks", "a "]
        elif kind == "ward": s.p = [[round(u(0, 3), 6), round(u(0.1, 1), 6), round(u(0.1, 1), 6)] for _ in range(dy)]; keys = ["Ks", "ax", "ay"]
        elif kind == "abc": s.p = [[round(u(0, 3), 6), round(u(0, 50), 5), round(u(0.2, 2), 6)] for _ in range(dy)]; keys = ["a ", "b ", "c "]; s.param = g.pick(["COS_TH", "COS_TK", "COS_TLV", "COS_TLR"])
        elif kind == "spherical_gaussian": s.p = [[round(u(0, 3), 6), round(u(0, 60), 5)] for _ in range(dy)]; keys = ["Ks", "N "]; s.type = g.pick(["mirror", "half", "retro"])
        elif kind == "schlick": s.p = [[round(g.real(0, 1), 6)] for _ in range(dy)]; keys = ["R"]
        s.body = "#FUNC %s\n" % s.name + ("#PARAM %s\n" % s.param if s.param else "") + ("#TYPE %s\n" % s.type if kind == "spherical_gaussian" else "") + "".join("%s %s\n" % (k, num(x)) for c in s.p for k, x in zip(keys, c)) + "\n"
        if kind == "blinn": s.param = "COS_TH"
    def value(s, v, l):
        h = unit([a + b for a, b in zip(v, l)]); r = []
        for q in s.p:
            if s.kind == "diffuse": r.append(q[0])
            elif s.kind == "blinn": r.append(q[0] * h[2] ** q[1] if h[2] > 0 else 0.)
            elif s.kind == "beckmann":
                z = h[2]; t2 = (1 - z * z) / (z * z); r.append(q[0] / (4 * PI * q[1] ** 2 * z ** 4) * math.exp(-t2 / q[1] ** 2) if v[2] > 0 and l[2] > 0 else 0.)
            elif s.kind == "ward": r.append(q[0] / (4 * PI * q[1] * q[2] * math.sqrt(v[2] * l[2])) * math.exp(-((h[0] / q[1]) ** 2 + (h[1] / q[2]) ** 2) / h[2] ** 2) if v[2] * l[2] > 0 else 0.)
            elif s.kind == "abc":
                x = 1 - coords(s.param, v, l)[0]; r.append(q[0] / (1 + q[1] * x) ** q[2] if 0 <= x <= 1 else 0.)
            elif s.kind == "spherical_gaussian":
                d = coords({"mirror": "COS_TLR", "half": "COS_TH", "retro": "COS_TLV"}[s.type], v, l)[0]; r.append(q[0] * math.exp(q[1] * (d - 1)))
            else: r.append(q[0] + (1 - q[0]) * (1 - max(0., min(1., dot(v, h)))) ** 5)
        return r
class Func:
    """A function file: lobes, lobes times a Fresnel term, sums; or a rational function of the coordinates of any parametrization."""
    def __init__(s, g, dy, kind=None, pout="INV_STERADIAN", pin=None):
        s.dy, s.pout, s.rat = dy, pout, (g.chance(1, 4) if kind is None else kind == "rational")
        if s.rat:
            s.pin = pin or g.pick([p for p in DIMS if DIMS[p] <= 2 or p in ("CARTESIAN", "RUSIN_TH_TD_PD")] + ["UNKNOWN_INPUT"] * 3); s.dx = DIMS.get(s.pin) or g.range(1, 3); s.iso = s.dx < 4
            s.np, s.nq = (g.range(1, 5), g.range(1, 4)) if s.dx <= 2 else (1, 1)
            s.lo = [round(g.uniform(-2, -1.6), 4) for _ in range(s.dx)]; s.hi = [round(g.uniform(3.2, 4), 4) for _ in range(s.dx)]
            s.c = [([round(g.real(-2, 2), 5) for _ in range(s.np)], [round(g.uniform(2, 3), 5)] + [round(g.uniform(-.3, .3), 5) for _ in range(s.nq - 1)]) for _ in range(dy)]
            s.cmd = ""; deg = lambda i: " ".join(map(str, s.degree(i)))
            s.body = "#FUNC rational_function\n#MIN %s\n#MAX %s\n" % (" ".join(map(num, s.lo)), " ".join(map(num, s.hi))) + "".join("#NP %d\n#NQ %d\n" % (s.np, s.nq) + "".join("%s\t%s\n" % (deg(i), num(x)) for l in pq for i, x in enumerate(l)) for pq in s.c)
        else:
            s.pin, s.dx = "CARTESIAN", 6; n = 1 if kind == "single" else g.pick([1, 1, 2, 3]); s.terms = []
            for _ in range(n):
                t = Term(g, dy, g.pick(["diffuse", "blinn", "beckmann", "abc", "spherical_gaussian", "ward"])); s.terms.append((t, Term(g, dy, "schlick") if g.chance(1, 3) and kind != "single" else None))
            cmd = lambda a, b: a.name + (" --fresnel " + b.name if b else "")
            s.iso = all(t.kind != "ward" for t, _ in s.terms)
            s.cmd = " --func " + (cmd(*s.terms[0]) if n == 1 else "[" + ", ".join(cmd(*t) for t in s.terms) + "]"); s.body = "".join(t.body + (f.body if f else "") for t, f in s.terms)
        s.file = "#ALTA FUNC HEADER\n#CMD %s\n#DIM %d %d\n#PARAM_IN  %s\n#PARAM_OUT %s\n#ALTA HEADER END\n\n\n%s\n" % (s.cmd, s.dx, dy, s.pin, pout, s.body)
    def degree(s, i):
        if s.dx == 1: return [i]
        if i == 0: return [0] * s.dx
        n, k = 1, 1
        while i >= n + k + 1: n += k + 1; k += 1
        return [k - (i - n), i - n]
    def at(s, x):
        """A rational function at coordinates of its own parametrization."""
        x = [2 * ((a - lo) / (hi - lo) - .5) for a, lo, hi in zip(x, s.lo, s.hi)]; e = lambda c: sum(w * math.prod(a ** d for a, d in zip(x, s.degree(i))) for i, w in enumerate(c))
        return [e(p) / e(q) for p, q in s.c]
    def value(s, v, l):
        if s.rat: return s.at(coords(s.pin, v, l))
        r = [0.] * s.dy
        for t, f in s.terms:
            y = t.value(v, l)
            if f: y = [a * b for a, b in zip(y, f.value(v, l))]
            r = [a + b for a, b in zip(r, y)]
        return r
def samples(g, fn, n, spread=False):
    """Positions a function can be sampled on (unrelated ones, for fits): (parametrization, dimension, rows, values)."""
    if fn.rat and fn.pin == "UNKNOWN_INPUT":
        p = g.pick(["UNKNOWN_INPUT", "UNKNOWN_INPUT", "RUSIN_TH_TD_PD"]); dx = 3 if p != "UNKNOWN_INPUT" else fn.dx + g.below(2); pool = [[g.real(0, 1.5) for _ in range(3)] for _ in range(dx)] if not spread and g.chance(1, 3) else None; rows = [[g.real(0, 1.5) if not pool else g.pick(pool[k]) for k in range(dx)] for _ in range(n)]
        return p, dx, rows, [fn.at(r) for r in rows], [None] * n
    p = g.pick(FULL + (ISO3 if fn.iso and fn.pin != "CARTESIAN" or not fn.rat and fn.iso else []) + ([fn.pin] * 3 if fn.rat else []))
    if fn.rat and not fn.iso and p in ISO3: p = "CARTESIAN"
    cfg = [config(g) for _ in range(n)] if spread else configs(g, n); return p, DIMS[p], [coords(p, v, l) for v, l in cfg], [fn.value(v, l) for v, l in cfg], cfg


def size(g, n, big=1500):
    """A number of rows: at most n, and now and then far more."""
    return g.range(n + 1, big) if g.chance(1, 20) else g.range(1, n)
