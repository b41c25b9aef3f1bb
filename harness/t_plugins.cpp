// P32: plugins are found along the configured search path.
// Scratch directories hold links to real plugins (under their own or invented names) and things that are not plugins; the
// class of the object obtained is compared with the one the first suitable entry of the path provides.
// dlopen is interposed so that the system directory, /usr/lib/alta_plugins, is a scratch directory as well.
#include "alta_gen.h"
#include <core/function.h>
#include <core/fitter.h>
#include <core/rational_function.h>
#include <core/vertical_segment.h>
#include <dlfcn.h>
#include <typeinfo>
#include <dirent.h>
static const std::string SYS = "/usr/lib/alta_plugins";
static std::string g_sys;
extern "C" void* dlopen(const char* f, int flags) {
    typedef void* (*F)(const char*, int); static F real = (F)dlsym(RTLD_NEXT, "dlopen"); std::string s = f ? f : "";
    if (!g_sys.empty() && s.compare(0, SYS.size(), SYS) == 0) { s = g_sys + s.substr(SYS.size()); return real(s.c_str(), flags); }
    return real(f, flags);
}
using namespace ag;
enum { FUNC, DATA, LOAD, FIT, NREQ };
static const char* SYM[] = {"provide_function", "provide_data", "load_data", "provide_fitter"};
struct Plugin { std::string name, cls[NREQ]; };   // class of what it provides, empty when it does not
static parameters preq() { return parameters(params::dimension(params::CARTESIAN), 3, params::CARTESIAN, params::RGB_COLOR); }
static std::string rows() { return "#DIM 2 1\n#PARAM_IN RUSIN_TH_TD\n#PARAM_OUT GRAYSCALE\n0.1 0.2 1\n0.3 0.4 2\n0.5 0.1 3\n"; }
// Runs f in a child and returns what it reports, one string per line
template<class F> static std::vector<std::string> in_child(F f, std::string& how) {
    int p[2]; if (pipe(p)) pbt::fail("pipe"); fflush(stdout); fflush(stderr); pid_t c = fork();
    if (c == 0) { close(p[0]); auto say = [&](const std::string& s) { std::string l = s + "\n"; if (write(p[1], l.data(), l.size()) < 0) _exit(9); }; f(say); say("END"); _exit(0); }
    close(p[1]); std::string s; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n); close(p[0]); int st; waitpid(c, &st, 0);
    std::vector<std::string> l; std::istringstream i(s); std::string x; while (std::getline(i, x)) l.push_back(x);
    how = WIFSIGNALED(st) ? std::string("killed by ") + strsignal(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st)); if (!l.empty() && l.back() == "END") { l.pop_back(); how = ""; }
    return l;
}
static std::string plugdir() { const char* e = getenv("PBT_PLUGINS"); if (!e) e = getenv("ALTA_PLUGIN_PATH"); static std::string d = e; return d; }
template<class T> static std::string cls(const T& p) { return p ? typeid(*p).name() : "NULL"; }
static std::string data_file() { static std::string f; if (f.empty()) { f = pbt::scratch() + "/rows_" + std::to_string(getpid()); pbt::spew(f, rows()); } return f; }
// What each shipped plugin provides, asked of the plugin itself
static const std::vector<Plugin>& plugins() {
    static std::vector<Plugin> v; if (!v.empty()) return v;
    std::vector<std::string> names; DIR* d = opendir(plugdir().c_str()); if (!d) pbt::fail("no plugins in " + plugdir());
    while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n.size() > 6 && n.substr(0, 3) == "lib" && n.substr(n.size() - 3) == ".so") names.push_back(n.substr(3, n.size() - 6)); } closedir(d); std::sort(names.begin(), names.end());
    data_file();
    for (auto& n : names) {
        Plugin p; p.name = n; std::string how;
        auto l = in_child([&](std::function<void(std::string)> say) {
            void* h = dlopen((plugdir() + "/lib" + n + ".so").c_str(), RTLD_LAZY | RTLD_GLOBAL); if (!h) { say("cannot open"); return; }
            if (void* s = dlsym(h, SYM[FUNC])) say("0 " + cls(((function* (*)(const parameters&))s)(preq())));
            if (void* s = dlsym(h, SYM[DATA])) say("1 " + cls(((data* (*)(size_t, const parameters&, const arguments&))s)(3, preq(), arguments())));
            if (void* s = dlsym(h, SYM[LOAD])) { std::string r = "?"; if (n == "data_rbf") { std::istringstream in(rows()); r = cls(((data* (*)(std::istream&, const arguments&))s)(in, arguments())); } say("2 " + r); }
            if (void* s = dlsym(h, SYM[FIT])) say("3 " + cls(((fitter* (*)())s)()));
        }, how);
        if (!how.empty() || l.empty()) pbt::fail("plugin " + n + " cannot be used: " + how);
        for (auto& s : l) if (s.size() > 2) p.cls[s[0] - '0'] = s.substr(2);
        v.push_back(p);
    }
    return v;
}
// observed class of one request
static std::string request(int kind, int form, const std::string& n) {
    try {
        if (kind == FUNC && form == 0) return cls(plugins_manager::get_function(n, preq()));
        if (kind == FUNC) return cls(plugins_manager::get_function(arguments::create_arguments("--func " + n), preq()));
        if (kind == DATA) return cls(plugins_manager::get_data(n, 3, preq(), arguments()));
        if (kind == FIT) return cls(plugins_manager::get_fitter(n));
        if (form == 0) return cls(plugins_manager::load_data(data_file(), n, arguments()));
        std::istringstream in(rows()); return cls(plugins_manager::load_data(n, in, arguments()));
    } catch (std::exception& e) { return "EXC"; }
}
struct Entry { int what; int plugin; };   // 0 link to a plugin, 1 text, 2 directory, 3 dangling link, 4 empty file, 5 other library
static void remove_tree(const std::string& d) { DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string f = d + "/" + n; struct stat s; if (!lstat(f.c_str(), &s) && S_ISDIR(s.st_mode)) remove_tree(f); else unlink(f.c_str()); } closedir(h); rmdir(d.c_str()); }
static std::string file_of(const std::string& n) { return n.size() >= 2 && n.substr(n.size() - 2) == "so" ? n : "lib" + n + ".so"; }
PROPERTY(search_path) {
    const auto& P = plugins(); auto by = [&](int k) { std::vector<int> v; for (size_t i = 0; i < P.size(); ++i) if (!P[i].cls[k].empty()) v.push_back(i); return v; };
    static const std::vector<int> of[NREQ] = {by(0), by(1), by(2), by(3)};
    static long serial = 0; std::string root = pbt::tmpfile("p" + std::to_string(serial++)); mkdir(root.c_str(), 0700); struct Rm { std::string d; ~Rm() { remove_tree(d); } } rm{root};
    int nd = g.range(1, 4); bool sys = g.chance(2, 3);                       // directories; the last one is the system's if sys
    std::vector<std::string> names; int nn = g.range(1, 3);
    for (int i = 0; i < nn; ++i) { static const std::vector<std::string> odd = {"x", "q", "a.b", "libz", "data", "my-brdf", "brdf.so", "a_rather_long_name_for_a_plugin", "so", "rational_functions", "vertical_segments", "N1"};
        std::string n = g.flip() ? g.pick(odd) : P[g.below(P.size())].name; if (std::find(names.begin(), names.end(), n) == names.end()) names.push_back(n); }
    std::vector<int> kinds; for (size_t i = 0; i < names.size(); ++i) kinds.push_back(g.below(NREQ));    // favoured kind of each name
    std::vector<std::map<std::string, Entry>> dir(nd);
    for (int d = 0; d < nd; ++d) {
        std::string path = root + "/d" + std::to_string(d); mkdir(path.c_str(), 0700);
        for (size_t i = 0; i < names.size(); ++i) {
            int r = g.below(10); if (r >= 7) continue;
            Entry e; e.plugin = -1; e.what = r < 4 ? 0 : r == 4 ? 0 : g.range(1, 5); std::string f = path + "/" + file_of(names[i]);
            if (e.what == 0) { int own = -1; for (size_t k = 0; k < P.size(); ++k) if (P[k].name == names[i]) own = k; e.plugin = (own >= 0 && g.flip()) ? own : r == 4 ? (int)g.below(P.size()) : g.pick(of[kinds[i]]); if (symlink((plugdir() + "/lib" + P[e.plugin].name + ".so").c_str(), f.c_str())) pbt::fail("symlink"); }
            else if (e.what == 1) pbt::spew(f, "INPUT(libm.so)\n/* not a plugin */\n"); else if (e.what == 2) mkdir(f.c_str(), 0700); else if (e.what == 3) { if (symlink("/nonexistent/x.so", f.c_str())) pbt::fail("symlink"); }
            else if (e.what == 4) pbt::spew(f, ""); else { if (symlink("/lib/x86_64-linux-gnu/libm.so.6", f.c_str())) pbt::fail("symlink"); }
            dir[d][names[i]] = e;
        }
    }
    // the search path: the one that is set when a plugin is asked for
    struct Path { std::string var; std::vector<int> order; bool set; }; int sd = sys ? nd - 1 : -1; bool relative = false;
    auto gen_path = [&]() { Path P_; std::string& var = P_.var; std::vector<int>& order = P_.order; bool set = P_.set = !g.chance(1, 12); int ne = set ? g.range(1, 6) : 1;
    for (int i = 0; i < ne; ++i) {
        std::string e; int d = -1; int r = g.below(10);
        if (!set || r >= 8) { d = sd; }                                                           // empty: the system's directory
        else if (r == 7) e = g.flip() ? root + "/missing" : root + "/d0/" + file_of(names[0]);
        else { d = g.below(nd); int w = g.below(8); e = w == 7 ? (relative = true, "d" + std::to_string(d)) : root + "/d" + std::to_string(d) + (w == 6 ? "/" : w == 5 ? "/." : ""); }
        if (i) var += ":"; var += e; order.push_back(d);
    }
    return P_; };
    std::vector<Path> paths{gen_path()}; auto show = [](const Path& p) { return p.set ? p.var : "(unset)"; };
    g.note("ALTA_PLUGIN_PATH", show(paths[0])); { std::ostringstream o; for (int d = 0; d < nd; ++d) { o << (d == sd ? "system" : "d" + std::to_string(d)) << "{"; for (auto& e : dir[d]) o << e.first << "->" << (e.second.what ? "not-a-plugin-" + std::to_string(e.second.what) : P[e.second.plugin].name) << " "; o << "} "; } g.note("directories", o.str()); }
    struct Req { int kind, form; std::string name, want; size_t path; }; std::vector<Req> reqs; int nr = g.range(1, 5); std::ostringstream rs;
    for (int i = 0; i < nr; ++i) {
        size_t k = g.below(names.size()); Req q{g.chance(2, 3) ? kinds[k] : (int)g.below(NREQ), (int)g.below(2), names[k], "NULL", 0}; if (g.chance(1, 10)) q.name = g.pick(std::vector<std::string>{"nothing", "z", "nonlinear_function_blin", "Data_merl", "./nothing", "d0"});
        if (i && g.chance(1, 3)) { paths.push_back(gen_path()); g.label("path changed"); rs << "path=" << show(paths.back()) << " "; if (g.flip()) { q.kind = reqs.back().kind; q.name = reqs.back().name; } }   // the path changes
        q.path = paths.size() - 1; const std::vector<int>& order = paths.back().order;
        int pos = 0, found = -1; for (int d : order) { ++pos; if (d < 0) continue; auto it = dir[d].find(q.name); if (it == dir[d].end() || it->second.what) continue; if (P[it->second.plugin].cls[q.kind].empty()) { g.label("other kind first"); continue; } q.want = P[it->second.plugin].cls[q.kind]; found = d; break; }
        g.label(found < 0 ? "none" : found == sd ? "system" : pos > 1 ? "later entry" : "first entry"); if (found >= 0 && pos > 1) g.nontrivial(); if (found < 0) g.nontrivial();
        rs << SYM[q.kind] << "(" << q.name << ") "; reqs.push_back(q);
    }
    g.note("requests", rs.str()); std::string how; data_file();
    auto got = in_child([&](std::function<void(std::string)> say) {
        g_sys = sd >= 0 ? root + "/d" + std::to_string(sd) : root + "/nosystem"; if (relative && chdir(root.c_str())) _exit(8);
        for (auto& q : reqs) { const Path& p = paths[q.path]; if (p.set) setenv("ALTA_PLUGIN_PATH", p.var.c_str(), 1); else unsetenv("ALTA_PLUGIN_PATH"); say(request(q.kind, q.form, q.name)); }
    }, how);
    CHECK(how.empty(), "request " << (got.size() < reqs.size() ? reqs[got.size()].name : "?") << " ended with " << how);
    CHECK(got.size() == reqs.size(), "answers " << got.size());
    for (size_t i = 0; i < reqs.size(); ++i) { bool any = reqs[i].want == "?"; CHECK(any ? got[i] != "" : got[i] == reqs[i].want, "request " << i << " " << SYM[reqs[i].kind] << "(" << reqs[i].name << ") gave " << got[i] << " instead of " << reqs[i].want); }
}
// Every shipped plugin, under its own name, from any position of the path; names that are built in; lists of functions
PROPERTY(shipped) {
    const auto& P = plugins(); std::vector<std::string> pre; int n = g.below(4); std::string var; for (int i = 0; i < n; ++i) var += (g.flip() ? "/nonexistent/dir" + std::to_string(i) : std::string("")) + ":"; var += plugdir(); if (g.flip()) var += ":/nonexistent";
    std::vector<std::string> want, asked; std::vector<std::function<std::string()>> ask; int nr = g.range(1, 8); static const std::string RAT = typeid(rational_function).name(), VS = typeid(vertical_segment).name(), COMP = typeid(compound_function).name(), PROD = typeid(product_function).name();
    auto nl = [&](const std::string& s) { return s.compare(0, 10, "nonlinear_") == 0 && s.find("fitter") == std::string::npos; };
    for (int i = 0; i < nr; ++i) {
        int r = g.below(8);
        if (r < 4) { const Plugin& p = g.pick(P); int k = g.below(NREQ), f = g.below(2); std::string w = p.cls[k].empty() ? "NULL" : p.cls[k]; if (w == "?") { k = DATA; w = p.cls[DATA].empty() ? "NULL" : p.cls[DATA]; } asked.push_back(std::string(SYM[k]) + "(" + p.name + ")"); want.push_back(w); std::string nm = p.name; ask.push_back([=] { return request(k, f, nm); }); }
        else if (r == 4) { asked.push_back("default data"); want.push_back(VS); bool e = g.flip(); int k = g.flip() ? DATA : LOAD, f = g.below(2); ask.push_back([=] { return request(k, f, e ? "" : "vertical_segment"); }); }
        else if (r == 5) { bool e = g.flip(); asked.push_back(e ? "default function" : "rational_function"); want.push_back(RAT); ask.push_back([=] { return e ? cls(plugins_manager::get_function(arguments(), preq())) : request(FUNC, 0, "rational_function"); }); }
        else if (r == 6) { bool fit = g.flip(); asked.push_back("no name"); want.push_back("NULL"); ask.push_back([=] { return fit ? request(FIT, 0, "") : request(FUNC, 0, ""); }); }
        else { int m = g.range(1, 3); std::string l = "["; bool ok = true; for (int k = 0; k < m; ++k) { std::string nm = g.chance(1, 6) ? "nothing" : P[g.below(P.size())].name; if (g.flip()) nm = "nonlinear_function_blinn"; std::string el = nm; ok = ok && nl(nm); if (nl(nm) && g.chance(1, 4)) el += " --fresnel nonlinear_fresnel_schlick"; l += (k ? ", " : "") + el; } l += "]";
            asked.push_back(l); want.push_back(ok ? COMP : "NULL"); ask.push_back([=] { return cls(plugins_manager::get_function(arguments::create_arguments("--func " + l), preq())); }); }
    }
    g.note("ALTA_PLUGIN_PATH", var); { std::string s; for (auto& a : asked) s += a + " "; g.note("requests", s); } g.nontrivial(nr > 1); std::string how; data_file();
    auto got = in_child([&](std::function<void(std::string)> say) { setenv("ALTA_PLUGIN_PATH", var.c_str(), 1); for (auto& a : ask) say(a()); }, how);
    CHECK(how.empty(), "request " << (got.size() < asked.size() ? asked[got.size()] : "?") << " ended with " << how);
    for (size_t i = 0; i < asked.size(); ++i) { g.label(want[i] == "NULL" ? "none" : "object"); CHECK(got[i] == want[i], asked[i] << " gave " << got[i] << " instead of " << want[i]); }
}
// A function that has no parametrization takes the one of the data it is about to be fitted to; nothing else changes.
PROPERTY(compatibility) {
    Model m; gen_params(g, m); m.kind = 0; m.ny = g.range(1, 3); if (m.out == params::RGB_COLOR || m.out == params::XYZ_COLOR) m.ny = 3; int n = g.range(1, 3); for (int i = 0; i < n; ++i) { std::vector<double> r; for (int k = 0; k < m.cols(); ++k) r.push_back(g.uniform(0, 1)); m.rows.push_back(r); }
    ptr<vertical_segment> v = build(m); ptr<data> d = dynamic_pointer_cast<data>(v), same = d;
    int dx = g.range(1, 6); params::input fin = params::UNKNOWN_INPUT; if (g.flip()) { const PIn& q = g.pick(inputs()); fin = q.p; dx = q.dim; } params::output fo = g.flip() ? g.pick(outputs()).p : params::UNKNOWN_OUTPUT;
    if (fin == params::UNKNOWN_INPUT && m.in != params::UNKNOWN_INPUT) { dx = m.nx; g.nontrivial(); }
    rational_function* r = new rational_function(parameters(dx, m.ny, fin, fo), 2, 1); { vec z = vec::Zero(dx), o = vec::Ones(dx); r->setMin(z); r->setMax(o); } ptr<function> f(r); vec p(2), q(1); p << 0.5, 2; q << 4; for (int y = 0; y < m.ny; ++y) { p[0] = 0.5 + y; r->get(y)->update(p, q); }
    vec x(dx); for (int k = 0; k < dx; ++k) x[k] = g.uniform(0, 1); vec before = f->value(x); g.note("function", params::get_name(fin) + " " + params::get_name(fo)); g.note("data", params::get_name(m.in) + " " + params::get_name(m.out));
    plugins_manager::check_compatibility(d, f, arguments::create_arguments("--x"));
    params::input want = fin == params::UNKNOWN_INPUT ? m.in : fin; parameters a = f->parametrization();
    CHECK(a.input_parametrization() == want, "the function's parametrization is " << params::get_name(a.input_parametrization()) << " instead of " << params::get_name(want));
    CHECK(a.output_parametrization() == fo && a.dimX() == dx && a.dimY() == m.ny, "output parametrization " << params::get_name(a.output_parametrization()) << " or dimensions " << a.dimX() << " " << a.dimY() << " of the function changed");
    vec after = f->value(x); for (int y = 0; y < m.ny; ++y) CHECK(same_bits(before[y], after[y]), "value of the function changed");
    CHECK(d.get() == same.get() && d->size() == n && d->parametrization().input_parametrization() == m.in && d->parametrization().output_parametrization() == m.out, "the data changed"); for (int i = 0; i < n; ++i) for (int k = 0; k < m.nx + m.ny; ++k) CHECK(same_bits(d->get(i)[k], m.rows[i][k]), "the data changed");
}
int main(int c, char** v) { return pbt::pbt_main(c, v); }
