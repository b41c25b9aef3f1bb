"""P38: a tool whose output cannot be written completely does not report success (writes fail after a drawn number of bytes)."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import pbt
from pbt import prop, check
from lib import *
def command(g, env):
    """A command that succeeds when nothing fails: (tool, options, output)."""
    out = env.path("out"); tool = g.pick(["data2data", "data2brdf", "brdf2brdf", "brdf2data", "brdf2gnuplot", "data2moments", "data2stats", "brdf2stats"]); dy = g.range(1, 3); n = g.range(1, 40)
    if tool in ("data2moments", "data2stats", "data2data", "data2brdf"):
        p, dx = ("RUSIN_TH_TD_PD", 3) if tool != "data2moments" else ("STARK_2D", 2); rows = [[g.uniform(0.01, 1.5) for _ in range(dx)] + [g.uniform(0.1, 3) for _ in range(dy)] for _ in range(n if tool in ("data2data", "data2brdf") else min(n, 3))]
        d = env.write("in.dat", g.pick([text, binary])(rows, dx, dy, p, "INV_STERADIAN")); a = [["--input", d], ["--output", out]]
        if tool == "data2data":
            k = g.below(5); grid = ["--in-data", "data_rbf", "--out-data", "data_grid", "--param", p, "--grid-size", "[3, 3, 4]"]
            a += [[], [["--out-data", "alta-binary"]], [["--param", "SPHERICAL_TL_PL_TV_PV"]], [["--param", "CARTESIAN"], ["--out-data", "alta-binary"]], [grid]][k]
            if k == 4: a[0] = ["--input", env.write("small.dat", text(rows[:3], dx, dy, p, "INV_STERADIAN"))]
        if tool == "data2brdf":
            a = [["--input", d], ["--output", out], ["--func", "nonlinear_function_diffuse"], ["--fitter", "nonlinear_fitter_eigen"]]
        if tool == "data2moments": a += [["--data", "data_rbf"], ["--samples", "[2, 2]"]]
        if tool == "data2stats": a += [["--in-data", "data_rbf"], ["--ref", d]]
        return tool, a, out
    fn = Func(g, dy); p, dx, pos, val, cfg = samples(g, fn, n); rows = [a + [g.real(-3, 3) for _ in range(dy)] for a in pos]
    if tool == "brdf2stats" and fn.rat and fn.pin == "UNKNOWN_INPUT": raise pbt.Discard
    f = env.write("in.func", fn.file); d = env.write("in.dat", g.pick([text, binary])(rows, dx, dy, p, "INV_STERADIAN")); a = [["--input", f], ["--output", out]]
    if tool in ("brdf2data", "brdf2gnuplot"): a.append(["--data-file", d])
    if tool == "brdf2data" and g.flip(): a.append(["--export-diff"])
    if tool == "brdf2gnuplot":
        k = g.below(4)
        if k == 1: a.append(["--linear_error"])
        if k == 2 and cfg[0] is not None: a.append(["--polar-plot"])
    if tool == "brdf2brdf" and not fn.rat and g.flip(): a.append(["--export", g.pick(["cpp", "matlab", "explorer", "shader"])])
    if tool == "brdf2stats": a = [["--brdf", f], ["--input", d], ["--output", out]]
    return tool, a, out
@prop()
def limited(g, env):
    tool, a, out = command(g, env); argv = [x for y in g.shuffle(a) for x in y]; g.note("args", tool + " " + " ".join(argv)); g.label(tool)
    r = env.run(tool, argv); check(r.returncode == 0, lambda: "%s fails without any fault: %s" % (tool, pbt.tail(r))); ref = open(out, "rb").read(); size = len(ref)
    again = g.flip()    # over an existing file, or a new one
    if not again: os.unlink(out)
    k = g.below(6); lim = 0 if k == 5 else size - 1 if k == 4 else size if k == 3 else size + g.range(1, 5000) if k == 2 else g.below(max(1, size)); g.note("limit", "%d of %d" % (lim, size))
    if size == 0: raise pbt.Discard
    r = env.run(tool, argv, fsize=lim); got = open(out, "rb").read() if os.path.exists(out) else b""
    if r.returncode == 0: check(got == ref, lambda: "exit status 0, but %d of the %d bytes of the output are there (limit %d) | %s" % (len(got), size, lim, pbt.tail(r, 300)))
    else: check(lim < size, lambda: "exit status %d although the file fits | %s" % (r.returncode, pbt.tail(r, 300)))
    g.label("failed" if r.returncode else "written"); g.nontrivial(lim < size)
@prop()
def full_device(g, env):
    """The output is a device without any space left."""
    tool, a, out = command(g, env); argv = [x if x != out else "/dev/full" for y in a for x in y]; g.note("args", tool + " " + " ".join(argv)); g.label(tool)
    r = env.run(tool, argv); check(r.returncode != 0, lambda: "exit status 0, but nothing could be written | %s" % pbt.tail(r, 300)); g.nontrivial()
if __name__ == "__main__": pbt.main()
