"""P32: the tools and the plugin search path."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import pbt
from pbt import prop, check
from lib import *
KINDS = {"data": ["data_rbf"], "out": ["data_astm"], "fitter": ["rational_fitter_leastsquare", "rational_fitter_eigen"], "rational": ["rational_function_legendre", "rational_function_chebychev"], "lobe": ["nonlinear_function_blinn"]}
OTHER = {"data": ["nonlinear_function_blinn", "rational_fitter_eigen", "rational_function_legendre"], "out": ["data_rbf", "nonlinear_function_diffuse", "rational_fitter_eigen"], "fitter": ["data_rbf", "nonlinear_function_blinn"],
         "rational": ["data_grid", "rational_fitter_eigen", "data_rbf"], "lobe": ["data_rbf", "rational_fitter_eigen"]}
REQ = [("data2data", "--in-data", "data"), ("data2data", "--out-data", "out"), ("data2stats", "--in-data", "data"), ("data2stats", "--ref-data", "data"), ("data2moments", "--data", "data"), ("brdf2data", "--data", "data"), ("brdf2gnuplot", "--data", "data"),
       ("data2brdf", "--fitter", "fitter"), ("data2brdf", "--data", "data"), ("data2brdf", "--func", "rational"), ("brdf2brdf", "file", "lobe"), ("brdf2data", "file", "lobe"), ("brdf2gnuplot", "file", "lobe"), ("brdf2stats", "file", "lobe")]
def sofile(n): return n if n.endswith("so") else "lib" + n + ".so"
@prop()
def tool_requests(g, env):
    """A tool asking for one plugin by name through a generated search path: it works when the path provides one of the right kind, and fails cleanly otherwise."""
    tool, opt, kind = g.pick(REQ); own = g.pick(KINDS[kind]); name = g.pick([own, own, "x", "my-plugin", "a.so", "brdf.v2", "lib"])
    dirs = []; nd = g.range(1, 3)
    for i in range(nd):
        d = env.path("p%d" % i); os.mkdir(d); what = g.pick(["none", "right", "right", "other", "text", "dir", "dangling", "empty", "library"]); f = os.path.join(d, sofile(name)); target = None
        if what == "right": target = g.pick(KINDS[kind])
        if what == "other": target = g.pick(OTHER[kind])
        if target: os.symlink(os.path.join(env.plugins, sofile(target)), f)
        if what == "text": open(f, "w").write("not a plugin\n")
        if what == "dir": os.mkdir(f)
        if what == "dangling": os.symlink("/nonexistent/plugin", f)
        if what == "empty": open(f, "w").close()
        if what == "library": os.symlink("/lib/x86_64-linux-gnu/libm.so.6", f)
        dirs.append((d, what))
    order = []; path = []
    for i in range(g.range(1, 5)):
        k = g.below(8)
        if k < 5: d, w = g.pick(dirs); path.append(d + g.pick(["", "", "/", "/."])); order.append(w)
        elif k == 5: path.append(env.plugins); order.append("right" if name in KINDS[kind] else "none")
        else: path.append(g.pick([env.path("missing"), "", "/dev/null"])); order.append("none")
    good = "right" in order; var = ":".join(path); rest = g.pick(["", ":/nonexistent"]); 
    # the other plugins of the command are named in a directory of their own, at the end of the path
    helpers = env.path("helpers"); os.mkdir(helpers)
    for h, t in (("h_fit", "rational_fitter_leastsquare"), ("h_rbf", "data_rbf")): os.symlink(os.path.join(env.plugins, sofile(t)), os.path.join(helpers, sofile(h)))
    pos = [[round(.1 + .25 * i, 3), round(.15 + .2 * i, 3)] for i in range(4)]; d = env.write("in.dat", text([p + [1. + i] for i, p in enumerate(pos)], 2, 1, "RUSIN_TH_TD", "INV_STERADIAN")); out = env.path("out")
    fun = env.write("in.func", "#ALTA FUNC HEADER\n#CMD  --func %s\n#DIM 6 1\n#PARAM_IN  CARTESIAN\n#PARAM_OUT INV_STERADIAN\n#ALTA HEADER END\n\n\n#FUNC nonlinear_function_blinn\nKs 1.5\nN  12\n\n" % name)
    a = {"--input": d, "--output": out}
    if tool == "data2stats": a["--ref"] = d; a["--in-data"] = "h_rbf"
    if opt == "--out-data": a["--in-data"] = "h_rbf"
    if tool == "data2moments": a["--samples"] = "[2, 2]"
    if tool.startswith("brdf2"):
        a["--input"] = fun
        if opt != "file": a["--input"] = env.write("r.func", "#ALTA FUNC HEADER\n#CMD \n#DIM 2 1\n#PARAM_IN  RUSIN_TH_TD\n#PARAM_OUT INV_STERADIAN\n#ALTA HEADER END\n\n\n#FUNC rational_function\n#MIN 0 0\n#MAX 1 1\n#NP 1\n#NQ 1\n0 0\t1.5\n0 0\t1\n")
        if tool in ("brdf2data", "brdf2gnuplot"): a["--data-file"] = d
        if tool == "brdf2stats": a["--brdf"] = fun; a["--input"] = d
    if tool == "data2brdf":
        if opt == "--fitter": a["--fitter"] = name
        else: a["--fitter"] = "h_fit"
    if opt != "file": a[opt] = name
    if tool == "brdf2stats": a["--input"] = env.write("c.dat", text([[0., 0., 1., 0., 0., 1., 1.], [0., .6, .8, 0., 0., 1., 1.]], 6, 1, "CARTESIAN", "INV_STERADIAN"))
    argv = [x for y in g.shuffle(sorted(a.items())) for x in y]; full = var + ":" + helpers + rest; g.note("args", tool + " " + " ".join(argv)); g.note("path", full); g.note("entries", order); g.label("%s %s %s" % (tool, opt, "found" if good else "not found"))
    r = env.run(tool, argv, env={"ALTA_PLUGIN_PATH": full}); g.nontrivial(not good or order[0] != "right")
    if good and (tool, opt) == ("data2brdf", "--data"): check(not pbt.crashed(r), "crash")       # the fitter does not take this class of data
    elif good and (tool, opt) == ("brdf2data", "--data"): pass       # nothing can be written to this class of data
    elif good:
        check(r.returncode == 0, lambda: "exit status %s although entry %d of the path provides the plugin: %s" % (r.returncode, order.index("right"), pbt.tail(r)))
        if tool not in ("data2stats", "brdf2stats"): check(os.path.exists(out) and os.path.getsize(out) > 0, "no output")
    else:
        failed(r, "%s %s with path %s" % (tool, " ".join(argv), full)); check(not os.path.exists(out) or os.path.getsize(out) == 0, "an output was written")
if __name__ == "__main__": pbt.main()
