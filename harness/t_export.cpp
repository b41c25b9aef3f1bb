// P30 exported shaders compute the function they were exported from
#include "func_tree.h"
#include <dlfcn.h>
using namespace fg;
static std::string shim() { std::string p = __FILE__; return p.substr(0, p.rfind('/')) + "/glsl_shim.h"; }
static double shorten(double v) { char b[32]; snprintf(b, sizeof b, "%.4g", v); return atof(b); }
static void run(G& g, bool moment) {
    int n = moment ? 1 : g.range(1, 10); std::vector<Tree> ts; std::vector<Fun> fs; std::vector<bool> retro; std::string src = "#include \"" + shim() + "\"\n";
    for (int i = 0; i < n; ++i) {
        Tree t; bool ok;
        do { do t = gen_tree(g, moment ? SINGLE : SINGLE | PRODUCT | SUM); while (t.nY > 3); if (t.nY == 2) { t.nY = 3; t.dout = params::UNKNOWN_OUTPUT; if (moment) t.terms[0].lobe = Part(); for (auto& q : parts(t)) q.p->nY = 3; }
            if (moment) { t.terms[0].lobe = gen_part(g, SG, t); t.terms[0].lobe.sgtype = 4; t.terms[0].lobe.opts = " --sg-type moment"; }
            ok = true; for (auto& q : parts(t)) { Part& p = *q.p; if (p.k == SGD || p.k == RBLINN || (p.k == ABC && p.in1 != params::COS_TH) || (p.k == SG && p.sgtype == 4 && !moment)) ok = false; } } while (!ok);
        set_dp(t, params::CARTESIAN); gen_all_pars(g, t); for (auto& q : parts(t)) for (double& v : q.p->pars) v = shorten(v);
        Fun F = make(g, t, false); label_tree(g, t); V p = free_pars(t); if (moment) { for (double& w : p) w = 1; p.back() = 0.5; } F.nl->setParameters(tovec(p)); g.notev("params", p);
        std::string exp = g.flip() ? "shader" : "explorer"; arguments args = arguments::create_arguments(F.cmd + " --export " + exp); std::string file = pbt::tmpfile("e.glsl"); F.f->save(file, args); std::string s = pbt::slurp(file); unlink(file.c_str());
        if (exp == "explorer") { size_t a = s.find("::begin shader\n"), b = s.find("::end shader"); CHECK(a != std::string::npos && b != std::string::npos && s.compare(0, 8, "analytic") == 0, "malformed explorer file\n" << s); s = s.substr(a + 15, b - a - 15); }
        std::string k = std::to_string(i); src += "namespace glsl { namespace n" + k + " {\n" + s + "} }\nextern \"C\" void e" + k + "(const double* x, double* r) { using glsl::vec3; vec3 v = glsl::n" + k + "::BRDF(vec3(x[3], x[4], x[5]), vec3(x[0], x[1], x[2]), vec3(0, 0, 1), vec3(1, 0, 0), vec3(0, 1, 0)); r[0] = v.x; r[1] = v.y; r[2] = v.z; }\n";
        ts.push_back(t); fs.push_back(F); }
    std::string cpp = pbt::tmpfile("all.cpp"), so = pbt::tmpfile("all.so"), log = pbt::tmpfile("all.log"); pbt::spew(cpp, src);
    int rc = system(("g++ -std=c++11 -O0 -w -fPIC -shared " + cpp + " -o " + so + " 2> " + log).c_str()); CHECK(rc == 0, "the exported shader does not compile: " << pbt::slurp(log).substr(0, 900) << "\n" << src.substr(0, 3000));
    void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); CHECK(h, "dlopen " << dlerror()); unlink(cpp.c_str()); unlink(so.c_str()); unlink(log.c_str());
    for (int i = 0; i < n; ++i) { auto e = (void (*)(const double*, double*))dlsym(h, ("e" + std::to_string(i)).c_str());
        for (int it = 0; it < 8; ++it) {
            Dirs d = gen_dirs(g); if (moment) { static const double D[6] = {0.3, 0.5, 0.8124038404635961, -0.6, 0.1, 0.7937253933193772}; for (int k = 0; k < 6; ++k) d.c[k] = D[k]; } V x = to_input(fs[i].f.get(), d), c(d.c, d.c + 6); if (c[2] < 0.01 || c[5] < 0.01) continue; bool pole = false; for (auto& q : parts(ts[i])) pole |= q.p->k == YOO && c[0] < 0.05; if (pole) continue;   // Yoo has poles there
            V v = vals(fs[i].f.get(), x); double out[3]; e(&c[0], out);
            // Yoo is a product of differences: its rounding is relative to their terms
            double yoo = 0; for (auto& q : parts(ts[i])) if (q.p->k == YOO) { double k = 3, l = HUGE_VAL; for (size_t j = 0; j + 1 < q.p->pars.size(); j += 2) { k = std::max(k, fabs(q.p->pars[j])); l = std::min(l, fabs(q.p->pars[j + 1])); } double m = 2 * M_PI * c[0] / 633 * l; yoo += k * 3 / (16 * M_PI) * 3.4 * (2 + 1 / m); }
            for (int y = 0; y < 3; ++y) { double w = v[ts[i].nY == 1 ? 0 : y]; if (!std::isfinite(w)) continue; double s = 0; for (double a : v) s = std::max(s, fabs(a));
                CHECK(fabs(out[y] - w) <= 2e-4 * fabs(w) + 1e-6 * (1 + s) + 1e-5 * yoo, "shader gives " << fmt(out[y]) << " instead of " << fmt(w) << " in channel " << y << " at " << fmtv(c) << " for " << fs[i].cmd); if (fabs(w) > 1e-5) g.nontrivial(); } } }
    dlclose(h);
}
PROPERTY(shader_export) { run(g, false); }
PROPERTY(shader_moment) { run(g, true); }
int main(int c, char** v) { return pbt::pbt_main(c, v); }
