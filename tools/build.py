#!/usr/bin/env python3
"""Builds ALTA (core, plugins, tools) and harnesses from /repo's working tree into /verif/build/<flavour>.

The build is keyed on the *content* of the sources: when it changes, the flavour's build tree is dropped and rebuilt
(object files may come from the content-addressed ccache under /verif/build), so file times never matter."""
import hashlib, os, subprocess, sys, fcntl, shutil, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ALTA_REPO", "/repo")
BUILD = os.environ.get("ALTA_BUILD", os.path.join(VERIF, "build"))
FLAGS = {"plain": "-O1 -g0", "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,bounds -fno-sanitize-recover=bounds -D_GLIBCXX_ASSERTIONS"}
JOBS = str(os.cpu_count() or 4)

class BuildError(Exception): pass

def tree_hash():
    h = hashlib.sha256()
    for top in ("CMakeLists.txt", "sources", "external", "configs"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p): files = [p]
        else:
            files = []
            for d, dn, fn in os.walk(p):
                dn.sort()
                for f in sorted(fn): files.append(os.path.join(d, f))
        for f in files:
            if os.path.islink(f) and not os.path.exists(f): continue
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

def env():
    e = {"HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8", "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
         "CC": "gcc", "CXX": "g++"}
    if shutil.which("ccache"):
        e["CCACHE_DIR"] = os.path.join(BUILD, "ccache"); e["CCACHE_NOHASHDIR"] = "1"; e["CCACHE_MAXSIZE"] = "3G"
        e["CCACHE_TEMPDIR"] = os.path.join(BUILD, "ccache", "tmp")
    return e

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-6000:]))
    return r.stdout

def build(flavour, targets, harnesses=()):
    """targets: ninja targets; harnesses: names of /verif/harness/<name>.cpp. Returns the flavour directory."""
    d = os.path.join(BUILD, flavour)
    os.makedirs(d, exist_ok=True)
    os.makedirs(os.path.join(BUILD, "ccache", "tmp"), exist_ok=True)
    with open(os.path.join(BUILD, flavour + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash() + FLAGS[flavour] + REPO
        kf = os.path.join(d, "tree.key")
        if not (os.path.exists(kf) and open(kf).read() == key):
            shutil.rmtree(d); os.makedirs(d)
            cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-Wno-dev", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
                 "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=" + FLAGS[flavour],
                 "-DPYTHON_EXECUTABLE=/usr/bin/python3.12", "-DCMAKE_CXX_STANDARD_INCLUDE_DIRECTORIES=/opt/vp/include",
                 "-DCMAKE_CXX_STANDARD_LIBRARIES=-lz -llz4"]
            if shutil.which("ccache"): cmd.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
            run(cmd)
            open(kf, "w").write(key)
        hobjs, errs, ths = {}, [], []
        def comp(h):
            try:
                src = os.path.join(VERIF, "harness", h + ".cpp")
                hk = hashlib.sha256()
                for f in [src] + sorted(os.path.join(VERIF, "harness", x) for x in os.listdir(os.path.join(VERIF, "harness")) if x.endswith(".h")):
                    hk.update(open(f, "rb").read())
                obj = os.path.join(d, "h_" + h + ".o"); kf2 = obj + ".key"
                hobjs[h] = (obj, hk.hexdigest())
                if os.path.exists(obj) and os.path.exists(kf2) and open(kf2).read() == hk.hexdigest(): return
                cc = (["ccache"] if shutil.which("ccache") else []) + ["g++", "-std=c++14"] + FLAGS[flavour].split() + ["-fopenmp", "-c", "-o", obj,
                      "-I" + os.path.join(VERIF, "harness"), "-I" + REPO + "/external/build", "-I" + REPO + "/sources", "-I/usr/include/eigen3",
                      "-I" + REPO + "/external", "-I" + REPO + "/external/quadprog++", "-DALTA_PLUGIN_DIRECTORY=\"/usr/lib/alta_plugins\"", src]
                run(cc); open(kf2, "w").write(hk.hexdigest())
            except Exception as e: errs.append(e)
        for h in harnesses:
            t = threading.Thread(target=comp, args=(h,)); t.start(); ths.append(t)
        tg = list(targets)
        if harnesses and "core" not in tg: tg.append("core")
        if harnesses and "quadprog" not in tg: tg.append("quadprog")
        try: run(["ninja", "-C", d, "-j", JOBS] + tg)
        finally:
            for t in ths: t.join()
        if errs: raise errs[0]
        for h in harnesses:
            exe = os.path.join(d, "h_" + h)
            run(["g++"] + FLAGS[flavour].split() + ["-fopenmp", "-o", exe, hobjs[h][0], os.path.join(d, "lib", "libcore.a"),
                 os.path.join(d, "lib", "libquadprog.a"), "-ldl", "-lz", "-llz4"])
        # drop the cache when it grows out of hand
    return d

if __name__ == "__main__":
    t = time.time(); fl = sys.argv[1]
    hs = [x[2:] for x in sys.argv[2:] if x.startswith("h:")]; ts = [x for x in sys.argv[2:] if not x.startswith("h:")]
    try: print(build(fl, ts, hs), "%.1fs" % (time.time() - t))
    except BuildError as e: print(e); sys.exit(3)
