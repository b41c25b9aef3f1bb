"""P33: the Python module against models in plain Python and against the command-line tools."""
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import pbt
from pbt import prop, check, close
from lib import *
_M = None
def module(env):
    global _M
    if _M is None:
        os.environ["ALTA_PLUGIN_PATH"] = env.plugins; os.environ["OMP_NUM_THREADS"] = "1"; sys.path.insert(0, env.python); sys.dont_write_bytecode = True
        import alta; _M = alta
        check(os.path.realpath(alta.__file__).startswith(os.path.realpath(env.python)), "another alta module")
    return _M
def raises(kinds, what, f, *a):
    try: r = f(*a)
    except kinds: return
    except Exception as e: raise pbt.Failure("%s: %s: %s" % (what, type(e).__name__, e))
    raise pbt.Failure("%s: no exception (%s)" % (what, r))
def same(a, b, rel=0, abs_=0): return len(a) == len(b) and all(close(x, y, rel, abs_) for x, y in zip(a, b))
INS = [p for p in DIMS if p != "SCHLICK_VH"]                                        # spelled SCHLICK_VK, as in the enumeration of the module
def params(m, dx, dy, pin, pout): return m.parameters(dx, dy, getattr(m.input_parametrization, pin), getattr(m.output_parametrization, pout))
def value(g): return g.pick([0., -0., 1e300, -1e-300, 5e-324, 1e16, .1]) if g.chance(1, 6) else g.uniform(-10, 10)
def sequence(g, m, xs):
    """The ways to make a vector."""
    return m.vec(xs) if g.chance(3, 4) else m.vec(tuple(xs)) if g.flip() else m.vec(m.vec(xs))
@prop(fork=True)
def vectors(g, env):
    """Histories over a pool of vectors, against lists."""
    m = module(env); pool = []; n = g.range(1, 12); ops = 0
    for _ in range(n):
        if len(pool) < 2 or g.chance(1, 6):
            xs = [value(g) for _ in range(g.pick([0, 1, 2, 2, 3, 3, 5, 40]))]; pool.append((sequence(g, m, xs), list(xs))); continue
        i, j = g.below(len(pool)), g.below(len(pool)); (a, x), (b, y) = pool[i], pool[j]; op = g.below(9); ops += 1
        if op == 0:
            k = g.pick([-1, len(x), len(x) + 1, 1 << 20, -(1 << 31), 1 << 40] + list(range(len(x))))
            if 0 <= k < len(x): check(close(a[k], x[k], 0, 0), lambda: "[%d] of %s is %r" % (k, x, a[k]))
            else: raises((IndexError, TypeError), "[%d] of %d" % (k, len(x)), lambda: a[k])
        elif op in (1, 2):
            k = g.pick([-1, len(x), len(x) + 7, 1 << 31, 1 << 32] + list(range(len(x)))); v = value(g)
            if 0 <= k < len(x): a[k] = v; x[k] = v
            else: raises((IndexError, TypeError), "[%d]= of %d" % (k, len(x)), a.__setitem__, k, v)
        elif op in (3, 4):
            if len(x) == len(y): pool.append((a + b, [p + q for p, q in zip(x, y)]) if op == 3 else (a - b, [p - q for p, q in zip(x, y)]))
            else: raises(ValueError, "%d %s %d components" % (len(x), "+-"[op - 3], len(y)), (lambda: a + b) if op == 3 else (lambda: a - b))
        elif op == 5: pool.append((m.vec(a), list(x)))                                # a copy, independent of its source
        elif op == 6:
            w = math.sqrt(math.fsum(t * t for t in x)) if all(abs(t) < 1e150 for t in x) else None
            if w is not None: check(close(m.norm(a), w, 1e-12, 1e-160), lambda: "norm of %s is %r" % (x, m.norm(a)))
        elif op == 7: s = str(a); check(s[0] == "[" and s[-1] == "]" and same([float(t) for t in s[1:-1].split(",") if t.strip()], x, 2e-5, 0), lambda: "%s shown as %s" % (x, s))
        else: raises(TypeError, "not a vector", m.vec, g.pick([None, "a", 3, [None], ["1"], [[1.]]]))
        for a, x in pool: check(len(a) == len(x) and same(list(a), x), lambda: "%s instead of %s" % (list(a), x))
    g.nontrivial(ops >= 3)
@prop(fork=True)
def options(g, env):
    """Histories over an arguments object, against a dictionary."""
    m = module(env); key = lambda: g.pick(["np", "nq", "dt", "a-b", "x y", "", "export", "k%d" % g.below(5)]); val = lambda: g.pick(["", "1", "-3.5", "[1, 2]", "plug", "a b", 1, 2.5, True, "é", "x" * 300])
    ref = {}
    if g.flip(): d = {key(): val() for _ in range(g.below(5))}; a = m.arguments(d); ref = {str(k): str(v) for k, v in d.items()}
    else: a = m.arguments()
    for _ in range(g.below(10)):
        k, v = key(), str(val()); a.update(k, v); ref[k] = v
    for k in ["np", "nq", "dt", "a-b", "x y", "export", "", "nothing"] + ["k%d" % i for i in range(5)]:
        w = ref.get(k, None); r = a[k]; check(r == (w if w is not None else ""), lambda: "[%r] is %r, set to %r" % (k, r, w))
    raises(TypeError, "a number as a key", a.update, 3, "x"); raises(TypeError, "a list for a dictionary", m.arguments, [1]); g.nontrivial(len(ref) >= 2)
def shape(g):
    p = g.pick(INS + ["UNKNOWN_INPUT"] * 6); dx = DIMS.get(p) or g.range(1, 4); o = g.pick(["INV_STERADIAN", "ENERGY", "UNKNOWN_OUTPUT", "RGB_COLOR", "XYZ_COLOR"]); dy = 3 if o in ("RGB_COLOR", "XYZ_COLOR") else g.range(1, 4); return p, dx, o, dy
def contents(d, dx, dy): return [list(r)[:dx + dy] for r in d]
@prop(fork=True)
def datasets(g, env):
    """Histories over data objects, against lists of rows, and the files they are saved to."""
    m = module(env); p, dx, o, dy = shape(g); n = g.pick([0, 1, 2, 3, 5, 8, 8, 300]); c = dx + dy; new = lambda: [value(g) for _ in range(c)]; P = params(m, dx, dy, p, o)
    if g.flip() and n > 0:
        rows = [new() for _ in range(n)]; f = env.write("in.dat", (binary if g.chance(1, 3) else text)(rows, dx, dy, p, o)); d = m.load_data(g.pick(["", "vertical_segment"]), f); check(d is not None, "not loaded")
    else:
        d = m.get_data("vertical_segment", n, P) if g.flip() else m.get_data(g.pick(["", "vertical_segment"]), n, P, m.arguments()); rows = [[0.] * c for _ in range(n)]
    for _ in range(g.range(1, 10)):
        op = g.below(8); k = g.pick([-1, n, n + 1, 1 << 20, -(1 << 31)] + list(range(n)) * 3)
        if op == 0 or op == 1:
            get = d.get if op else d.__getitem__
            if 0 <= k < n: check(same(list(get(k))[:c], rows[k]), lambda: "row %d: %s instead of %s" % (k, list(get(k)), rows[k]))
            else: raises(IndexError, "row %d of %d" % (k, n), get, k)
        elif op in (2, 3, 4):
            put = d.set if op == 2 else d.__setitem__; r = new()
            if 0 <= k < n: put(k, m.vec(r)); rows[k] = r
            else: raises(IndexError, "row %d of %d set" % (k, n), put, k, m.vec(r))
        elif op == 5 and 0 <= k < n: raises(ValueError, "a row of %d set with another size" % c, d.set, k, m.vec([1.] * g.pick([0, 1, c - 1] if c > 1 else [0])))
        elif op == 6: raises(Exception, "value of scattered data", d.value, m.vec([.5] * dx))
        elif op == 7: raises(TypeError, "bad arguments", g.pick([d.get, d.set, d.value]), g.pick([None, "0", [0]]))
        check(len(d) == n and d.size() == n and same(sum(contents(d, dx, dy), []), sum(rows, [])), lambda: "holds %s instead of %s" % (contents(d, dx, dy), rows))
    if n:
        out = env.path("out.dat"); d.save(out); h, r = read(out); check(h.get("DIM", [])[:2] == [str(dx), str(dy)] and len(r) == n and all(same(a[:c], b, 1e-13, 1e-300) for a, b in zip(r, rows)), lambda: "saved %s for %s" % (r, rows)); e = m.load_data("", out); check(e is not None and same(sum(contents(e, dx, dy), []), sum(rows, []), 1e-13, 1e-300), "not what was saved")
        g.nontrivial(n > 1)
def positions(g, n):
    """Rows of full configurations in a parametrization."""
    p = g.pick(FULL); cfg = configs(g, n); return p, [coords(p, v, l) for v, l in cfg], cfg
def evaluate(m, f, p, pos, dy, o):
    """A function on positions, by brdf2data."""
    d = m.get_data("vertical_segment", len(pos), params(m, DIMS[p], dy, p, o))
    for i, x in enumerate(pos): d.set(i, m.vec(x + [0.] * dy))
    m.brdf2data(f, d); out = contents(d, len(pos[0]), dy); check(all(same(a[:len(x)], x) for a, x in zip(out, pos)), "the positions changed"); return [r[len(x):] for r, x in zip(out, pos)]
def judge(got, want, what):
    top = max([abs(a) for r in want for a in r if math.isfinite(a)] + [1e-3])
    for r, w in zip(got, want): check(same(r, w, 1e-7, 1e-9 * top), lambda: "%s: %s instead of %s" % (what, r, w))
def lobe(g, env, m, dy, o, kinds):
    """A lobe made by the module, and its model."""
    t = Term(g, dy, g.pick(kinds)); own = t.param
    if t.kind == "spherical_gaussian": t.type = "mirror"
    P = params(m, DIMS.get(own, 6), dy, own or "CARTESIAN", o); f = m.get_function(t.name, P) if g.flip() else m.get_function(m.arguments({"func": t.name}), P); check(f is not None, "no function " + t.name)
    flat = [x for c in t.p for x in c]; old = list(f.get())
    if t.kind == "diffuse":                                                             # holds no parameters that can be fitted: only read from a file
        q = env.write("d.func", "#ALTA FUNC HEADER\n#CMD --func %s\n#DIM 6 %d\n#PARAM_IN CARTESIAN\n#PARAM_OUT %s\n#ALTA HEADER END\n\n%s" % (t.name, dy, o, t.body)); f.load(q) if g.flip() else f.load(q, m.arguments()); check(old == [] and list(f.get()) == [], "parameters of a diffuse term"); return f, t, []
    check(len(old) == len(flat), lambda: "%s has %d parameters for %d" % (t.name, len(old), len(flat)))
    f.set(m.vec(flat[:-1])); check(same(list(f.get()), old), "parameters set from a vector too short"); f.set(m.vec(flat)); check(same(list(f.get()), flat), lambda: "parameters %s set to %s" % (list(f.get()), flat)); return f, t, flat
@prop(fork=True)
def expressions(g, env):
    """Lobes created by name, given parameters, summed and multiplied; evaluated directly, on data, once saved and loaded again, and by brdf2data."""
    m = module(env); dy = g.pick([1, 3, 3]); o = g.pick(["RGB_COLOR", "XYZ_COLOR"]) if dy == 3 else g.pick(["INV_STERADIAN", "ENERGY"]); kinds = ["diffuse", "blinn", "beckmann", "ward", "spherical_gaussian", "abc"]
    leaf = lambda: lobe(g, env, m, dy, o, kinds); mul = lambda a, b: [[x * y for x, y in zip(r, s)] for r, s in zip(a, b)]; add = lambda a, b: [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]
    p, pos, cfg = positions(g, g.range(1, 4)); ev = lambda t: [t.value(v, l) for v, l in cfg]
    f, t, flat = leaf(); want = ev(t); shape_ = g.below(6); desc = t.name; terms = [(t, None)]; other = None
    if shape_ == 0 and t.kind != "spherical_gaussian":
        for (v, l), w in zip(cfg, want): judge([list(f.value(m.vec(coords(t.param or "CARTESIAN", v, l))))], [w], "value of " + t.name)
        raises(ValueError, "a vector too short", f.value, m.vec([])); raises(TypeError, "no vector", f.value, None)
    if shape_ in (1, 3):
        h, s, fl = lobe(g, env, m, dy, o, ["schlick"]); f = f * h; want = mul(want, ev(s)); flat = flat + fl; desc += " * schlick"; terms = [(t, s)]
    if shape_ in (2, 3, 4):
        for _ in range(g.range(1, 2)):
            h, s, fl = leaf(); f = (f + h) if g.flip() else f.__add__(h); want = add(want, ev(s)); flat = flat + fl; desc += " + " + s.name; terms.append((s, None))
    if shape_ == 5:
        h, s, fl = leaf(); k, r, fm = leaf(); f = (f + h) * k; want = mul(add(want, ev(s)), ev(r)); flat = flat + fl + fm; desc = "(%s + %s) * %s" % (desc, s.name, r.name); terms = None
    g.note("function", desc); judge(evaluate(m, f, p, pos, dy, o), want, desc); check(same(list(f.get()), flat), lambda: "parameters %s for %s: %s" % (list(f.get()), desc, flat))
    if flat: f.set(m.vec(flat + [1.])); check(same(list(f.get()), flat), "parameters set from a vector too long"); f.set(m.vec(flat)); judge(evaluate(m, f, p, pos, dy, o), want, desc + " with the same parameters")
    if terms and len(terms) <= 2:
        cmd = lambda t, f: t.name + (" --fresnel " + f.name if f else ""); out = env.path("out.func")
        args = {"func": terms[0][0].name} if len(terms) == 1 else {"func": "[" + ", ".join(cmd(*t) for t in terms) + "]"}
        if len(terms) == 1 and terms[0][1]: args["fresnel"] = terms[0][1].name
        if g.chance(1, 3): args["export"] = "alta"
        f.save(out, m.arguments(args)); e = m.load_function(out) if g.flip() else m.load_function(out, m.arguments()); check(e is not None, "not loaded again: " + desc); judge(evaluate(m, e, p, pos, dy, o), want, desc + " loaded again")
        d = env.write("pos.dat", text([x + [0.] * dy for x in pos], len(pos[0]), dy, p, o)); q = env.path("q.dat"); env.ok("brdf2data", ["--input", out, "--data-file", d, "--output", q]); judge([r[len(pos[0]):len(pos[0]) + dy] for r in read(q)[1]], want, desc + " by brdf2data")
        if flat:                                                                        # read back into the same object
            f.save(env.path("own.func")); f.set(m.vec([.5] * len(flat))); f.load(env.path("own.func")); judge(evaluate(m, f, p, pos, dy, o), want, desc + " read back")
    g.nontrivial(any(x != 0 for r in want for x in r))
@prop(fork=True)
def files(g, env):
    """Function files loaded by the module, against their closed form, on data of any compatible parametrization; refused when incompatible."""
    m = module(env); dy = g.range(1, 3); o = "INV_STERADIAN"; fn = Func(g, dy); path = env.write("in.func", fn.file); f = m.load_function(path) if g.flip() else m.load_function(path, m.arguments()); check(f is not None, "not loaded")
    p, dx, pos, want, cfg = samples(g, fn, g.range(1, 5)); n = len(pos); pp = {"SCHLICK_VH": "SCHLICK_VK"}.get(p, p); src = env.write("d.dat", text([x + [0.] * dy for x in pos], dx, dy, p, o))
    g.note("data", p); g.note("function", fn.file); d = m.load_data("", src) if g.flip() else None
    if d is None:
        d = m.get_data("vertical_segment", n, params(m, dx, dy, pp, o))
        for i, x in enumerate(pos): d[i] = m.vec(x + [0.] * dy)
    m.brdf2data(f, d); got = contents(d, dx, dy); check(all(same(a[:dx], b) for a, b in zip(got, pos)), "the positions changed"); judge([r[dx:] for r in got], want, "values in " + p)
    if fn.rat:
        for v, x in zip(cfg, pos):
            x = coords(fn.pin, *v) if v else x; judge([list(f.value(m.vec(x)))], [fn.at(x)], "value")
        raises(ValueError, "a vector too short", f.value, m.vec([.5] * (fn.dx - 1)))
    out = env.path("out.func"); c = fn.cmd.replace(" --func ", "", 1); a = {} if fn.rat else {"func": c.split(" --fresnel ")[0], "fresnel": c.split(" --fresnel ")[1]} if c[0] != "[" and " --fresnel " in c else {"func": c}
    f.save(out, m.arguments(a)) if a or g.flip() else f.save(out); e = m.load_function(out); check(e is not None, "not loaded again"); m.brdf2data(e, d); judge([r[dx:] for r in contents(d, dx, dy)], want, "values once saved and loaded again")
    q = env.path("q.dat"); env.ok("brdf2data", ["--input", out, "--data-file", src, "--output", q]); judge([r[dx:dx + dy] for r in read(q)[1]], want, "values once saved, by brdf2data")
    # incompatible data
    k = g.below(4)
    if k == 0: raises(ValueError, "data of another output dimension", m.brdf2data, f, m.get_data("", 2, params(m, dx, dy + 1, pp, o)))
    if k == 1 and fn.pin != "UNKNOWN_INPUT": raises(ValueError, "data of unknown parametrization", m.brdf2data, f, m.get_data("", 2, params(m, dx, dy, "UNKNOWN_INPUT", o)))
    if k == 2: raises(TypeError, "no data", m.brdf2data, f, None)
    if k == 3: raises(TypeError, "no function", m.brdf2data, None, d)
    g.nontrivial(any(x != 0 for r in want for x in r))
@prop(fork=True)
def missing(g, env):
    """What cannot be loaded or created gives None or an exception, never an object or a crash."""
    m = module(env); P = params(m, 6, 3, "CARTESIAN", "RGB_COLOR"); A = m.arguments; body = Func(g, 3).file; cut = g.pick(["", "#ALTA FUNC HEADER\n", body[:g.below(60)], "\0\1\2" * 40, text([[1., 2.]], 1, 1), body.replace("--func nonlinear", "--func nope"), "garbage\n" * 20]); bad = env.write("bad", cut); os.mkdir(env.path("dir")); wrong = g.pick(["nothing", "", "rational_fitter_eigen", "data_rbf", "nonlinear_fitter_eigen", "/etc/passwd", "../x"])
    k = g.below(8); f = [lambda: m.load_function(env.path("absent")), lambda: m.load_function(env.path("dir")), lambda: m.load_function(bad), lambda: m.load_data("", env.path("absent")), lambda: m.load_data("nothing", env.write("d", text([[1., 2.]], 1, 1))), lambda: m.get_function(wrong, P) if wrong else None, lambda: m.get_fitter(g.pick(["nothing", "", "data_rbf", "nonlinear_function_diffuse"])), lambda: m.get_data(g.pick(["nothing", "rational_fitter_eigen", "nonlinear_function_diffuse"]), 2, P)][k]
    try: r = f()
    except Exception as e: g.label("exception"); r = None
    check(r is None or k == 2, lambda: "request %d gave %r" % (k, r))
    if k == 2 and r is not None: g.label("loaded")
    g.nontrivial()
@prop(fork=True)
def fits(g, env):
    """The same fit by the module and by data2brdf: same success, same function, saved or evaluated."""
    m = module(env); dy = g.range(1, 3); rational = g.flip(); o = "INV_STERADIAN"; opts = {}; out, mine = env.path("cli.func"), env.path("py.func")
    if rational:
        p = g.pick(["UNKNOWN_INPUT"] * 2 + [q for q in DIMS if DIMS[q] <= 2]); dx = DIMS.get(p) or g.range(1, 2); n = g.range(8, 25); fitter = "rational_fitter_" + g.pick(["eigen", "leastsquare", "quadprog", "parallel"]); np_, nq = g.range(1, 4), g.range(1, 4); basis = g.pick(["", "", "legendre", "chebychev"])
        if fitter.endswith("leastsquare"): np_, nq = g.pick([(1, nq), (np_, 1)])
        pos = [[round(g.unit(), 9) for _ in range(dx)] if p == "UNKNOWN_INPUT" else coords(p, *config(g)) for _ in range(n)]; A = [[g.uniform(-1, 1) for _ in range(3)] for _ in range(dy)]; rows = [x + [a[0] + a[1] * x[0] + a[2] * x[-1] ** 2 / (2 + x[0]) for a in A] for x in pos]
        if any(max(c) - min(c) < 1e-3 for c in list(zip(*pos))): raise pbt.Discard()
        opts.update({"np": np_, "nq": nq} if not fitter.endswith("parallel") else {"np": np_ + nq, "min-np": 2, "nb-cores": g.range(1, 3)})
        if basis: opts["func"] = "rational_function_" + basis
        model = None
    else:
        model = Term(g, dy, g.pick(["blinn", "beckmann", "ward", "spherical_gaussian", "abc"])); fitter = "nonlinear_fitter_" + g.pick(["eigen", "ceres", "nlopt"]); fn = Func.__new__(Func); fn.rat, fn.terms, fn.dy, fn.pin, fn.iso = False, [(model, None)], dy, "CARTESIAN", model.kind != "ward"
        for c in model.p: c[:] = [round(g.uniform(.3, 3), 6)] + [round(g.uniform(2, 30) if model.kind in ("blinn", "spherical_gaussian", "abc") else g.uniform(.2, .8), 6) for _ in c[1:]]
        p, dx, pos, val, cfg = samples(g, fn, g.range(12, 25), True); rows = [x + y for x, y in zip(pos, val)]; start = [x * (1 + g.uniform(-.02, .02)) for c in model.p for x in c]
        opts["func"] = model.name; opts["bootstrap"] = "[" + ", ".join(num(x) for x in start) + "]"; opts.update({"spherical_gaussian": {"sg-type": getattr(model, "type", "")}, "abc": {"param": model.param}}.get(model.kind, {}))
        if fitter.endswith("nlopt"): opts["nlop-max-num-iterations"] = 200
    src = env.write("in.dat", text(rows, dx, dy, p, o)); cli = ["--input", src, "--output", out, "--fitter", fitter] + [x for k, v in opts.items() for x in ("--" + k, str(v))]; g.note("options", cli); g.note("rows", rows[:4]); r = env.run("data2brdf", cli); check(not pbt.crashed(r), lambda: "crash: " + pbt.tail(r))
    d = m.load_data("", src); before = contents(d, dx, dy); P = params(m, dx, dy, {"SCHLICK_VH": "SCHLICK_VK"}.get(p, p), o); args = m.arguments(opts); ft = m.get_fitter(fitter); check(ft is not None and d is not None, "no fitter or data"); f = m.get_function(args, P); check(f is not None, "no function")
    k = g.below(12)
    if k == 0: raises(TypeError, "no data", ft.fit_data, None, f, args)
    if k == 1: raises(TypeError, "no function", ft.fit_data, d, None)
    if k == 2: raises(ValueError, "functions of another output dimension", ft.fit_data, d, m.get_function(args, params(m, dx, dy + 1, {"SCHLICK_VH": "SCHLICK_VK"}.get(p, p), o)), args)
    ok = ft.fit_data(d, f, args); check(isinstance(ok, bool) and ok == (r.returncode == 0), lambda: "fit_data gives %s, data2brdf exits %d" % (ok, r.returncode)); check(same(sum(contents(d, dx, dy), []), sum(before, [])), "the fit changed the data"); g.label("%s %s" % (fitter, ok))
    if not ok: return
    g.nontrivial(); f.save(mine, args); s = []
    for q in (out, mine):
        t = env.path("s.dat"); env.ok("brdf2data", ["--input", q, "--data-file", src, "--output", t]); s.append([x[dx:dx + dy] for x in read(t)[1]])
    big = max([abs(a) for r_ in rows for a in r_[dx:]] + [1e-3])                           # the ten digits of a file are amplified near the poles of a fit
    def alike(a, b, what):
        for x, y in zip(a, b): check(len(x) == len(y) and all(close(u, w, 0, 1e-6 * (big + abs(u) + u * u / big)) for u, w in zip(x, y)), lambda: "%s: %s and %s" % (what, x, y))
    alike(s[0], s[1], "saved by data2brdf and by the module"); m.brdf2data(f, d); alike(s[0], [x[dx:] for x in contents(d, dx, dy)], "saved by data2brdf and held by the module")
@prop(fork=True)
def conversions(g, env):
    """data2data: coordinates in another parametrization, values copied, spread or averaged; the source is left alone."""
    m = module(env); p = g.pick(FULL); q = g.pick(INS); a = g.range(1, 4); b = g.pick([a, a, 1, 3] if a > 1 else [1, 2, 3, 4]); n = g.range(1, 8); cfg = configs(g, n); o1, o2 = ("RGB_COLOR" if a == 3 and g.flip() else "INV_STERADIAN"), ("RGB_COLOR" if b == 3 and g.flip() else "INV_STERADIAN"); rows = [coords(p, v, l) + [value(g) for _ in range(a)] for v, l in cfg]; 
    if g.chance(1, 4): q = p
    d = m.load_data("", env.write("in.dat", text(rows, DIMS[p], a, p, o1))) if g.flip() else m.get_data("", n, params(m, DIMS[p], a, p, o1))
    for i, r in enumerate(rows): d.set(i, m.vec(r))
    g.note("conversion", (p, q, a, b)); T = params(m, DIMS[q], b, q, o2)
    if not (a == b or a == 1 or b == 1): raises(Exception, "%d values to %d" % (a, b), m.data2data, d, T); check(contents(d, DIMS[p], a) == rows or same(sum(contents(d, DIMS[p], a), []), sum(rows, [])), "the source changed"); g.nontrivial(); return
    e = m.data2data(d, T); check(len(e) == n, "another number of rows"); got = contents(e, DIMS[q], b); want = [r[DIMS[p]:] for r in rows]; want = want if a == b else [w * b for w in want] if a == 1 else [[math.fsum(w) / a] for w in want]
    for (v, l), x, w in zip(cfg, got, want):
        check(near(q, x[:DIMS[q]], coords(q, v, l), 2e-6), lambda: "%s to %s: %s instead of %s" % (p, q, x[:DIMS[q]], coords(q, v, l))); check(same(x[DIMS[q]:], w, 1e-12, 1e-15 * max(1, max(map(abs, w))) * (1e1 if a != b else 0)) or a != b and max(abs(t) for r in rows for t in r) > 1e5, lambda: "values %s instead of %s" % (x[DIMS[q]:], w))
    check(same(sum(contents(d, DIMS[p], a), []), sum(rows, [])), "the source changed"); e.set(0, m.vec([.25] * (DIMS[q] + b))); check(same(list(d.get(0))[:DIMS[p] + a], rows[0]), "the result shares its rows with the source"); out = env.path("o.dat"); e.save(out); h, s = read(out); check(h["PARAM_IN"] == [{"SCHLICK_VK": "SCHLICK_VK"}.get(q, q)] and len(s) == n, lambda: "saved as %s" % h)
    k = g.below(4)
    if k == 0: raises(ValueError, "from an unknown parametrization", m.data2data, m.get_data("", 1, params(m, 3, 1, "UNKNOWN_INPUT", "INV_STERADIAN")), T)
    if k == 1: raises(ValueError, "to an unknown parametrization", m.data2data, d, params(m, 2, b, "UNKNOWN_INPUT", o2))
    if k == 2: raises(TypeError, "no data", m.data2data, None, T)
    g.nontrivial(p != q)
@prop(fork=True)
def statistics(g, env):
    """data2stats between interpolated and scattered data, against the definitions."""
    from stats import idw, metrics
    m = module(env); dy = g.range(1, 3); p = g.pick(["CARTESIAN", "STEREOGRAPHIC", "STARK_2D", "COS_TH_TD"]); n = g.range(1, 3) if g.flip() else g.range(4, 40); ip = [coords(p, *config(g)) + [g.real(-3, 3) for _ in range(dy)] for _ in range(n)]; src = env.write("in.dat", text(ip, DIMS[p], dy, p, "INV_STERADIAN")); q = g.pick(FULL + [p]); a, rows = [], []
    for v, l in configs(g, g.range(1, 15)):
        y = idw(ip, DIMS[p], coords(p, v, l))
        if y is not None: a.append(y); rows.append(coords(q, v, l) + [g.real(-3, 3) for _ in range(dy)])
    if not rows: raise pbt.Discard()
    d = m.load_data("data_rbf", src); check(d is not None, "not loaded"); e = m.get_data("", len(rows), params(m, DIMS[q], dy, q, "INV_STERADIAN"))
    for i, r in enumerate(rows): e[i] = m.vec(r)
    for y, r in list(zip(a, rows))[:3]:
        if q == p: w = list(d.value(m.vec(r[:DIMS[p]]))); check(same(w, y, 1e-6, 1e-7), lambda: "value %s instead of %s" % (w, y))
    res = m.data2stats(d, e); want = metrics(a, [r[DIMS[q]:] for r in rows]); g.nontrivial(); check(sorted(res) == ["L1", "L2", "L3", "LInf", "MSE", "RMSE"], lambda: "metrics %s" % sorted(res))
    for k, v in want.items():
        k = k.replace("LINF", "LInf"); check(same(list(res[k]), v, 5e-5, 1e-5), lambda: "%s is %s instead of %s" % (k, list(res[k]), v))
    k = g.below(4)
    if k == 0: raises(ValueError, "another output dimension", m.data2stats, d, m.get_data("", 2, params(m, DIMS[q], dy + 1, q, "INV_STERADIAN")))
    if k == 1: raises(TypeError, "no data", m.data2stats, d, None)
    if k == 2: raises(ValueError, "an unknown parametrization", m.data2stats, d, m.get_data("", 2, params(m, 3, dy, "UNKNOWN_INPUT", "INV_STERADIAN")))
if __name__ == "__main__": pbt.main()
