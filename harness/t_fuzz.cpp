// P03: malformed and truncated files and command lines. Built with AddressSanitizer and bounds checks for the small-number
// tests; the *_huge tests run in the plain build, where oversized allocations throw.
#include "func_tree.h"
#include <core/rational_function.h>
#ifdef __SANITIZE_ADDRESS__
static const bool ASAN = true;
#else
static const bool ASAN = false;
#endif
static const std::vector<std::string>& odd_tokens() {
    static const std::vector<std::string> a = {"0", "-1", "1", "2", "3", "5", "100", "nan", "inf", "-inf", "1e999", "-1e-999", "abc", "", "0x10", "1e", "--", "[", "]", "[]", "[1,2", "#", ",", "1.5", "-0", "007", "\xff\xfe"};
    static const std::vector<std::string> b = {"2147483647", "-2147483648", "2147483648", "99999999999999999999", "1000000000", "50000000", "9223372036854775807", "1e999", "536870912", "4294967295"};
    return ASAN ? a : b;
}
static std::string mutate(G& g, std::string s, int n, bool bytes = true) {
    for (int k = 0; k < n; ++k) {
        int op = g.below(bytes ? 10 : 7);
        if (op < 3) { // replace a blank-separated token
            std::vector<std::pair<size_t, size_t>> tok; size_t p = 0; while (p < s.size()) { size_t q = s.find_first_not_of(" \t\n,[]", p); if (q == std::string::npos) break; size_t e = s.find_first_of(" \t\n,[]", q); if (e == std::string::npos) e = s.size(); tok.push_back({q, e}); p = e; if (tok.size() > 400) break; }
            if (tok.empty()) continue; auto t = tok[g.below(tok.size())]; s.replace(t.first, t.second - t.first, g.pick(odd_tokens()));
        } else if (op == 3) { // drop, repeat or swap a line
            std::vector<std::string> l; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size() - 1; l.push_back(s.substr(p, e + 1 - p)); p = e + 1; if (l.size() > 400) { l.push_back(s.substr(p)); break; } }
            if (l.empty()) continue; size_t i = g.below(l.size()); int w = g.below(3); if (w == 0) l.erase(l.begin() + i); else if (w == 1) l.insert(l.begin() + i, l[i]); else std::swap(l[i], l[g.below(l.size())]); s.clear(); for (auto& x : l) s += x;
        } else if (op == 4) s.resize(s.empty() ? 0 : g.below(s.size() + 1));
        else if (op == 5) { if (s.empty()) continue; size_t a = g.below(s.size()), b = std::min(s.size(), a + 1 + g.below(20)); s.erase(a, b - a); }
        else if (op == 6) { size_t a = g.below(s.size() + 1); static const std::vector<std::string> ins = {"\n", "\r", " ", "\n\n", "#", "# x\n", "#ALTA HEADER END\n", "\t", " -", "[", "]", "  \n"}; std::string t = g.chance(1, 6) ? std::string(g.range(1, 600), 'x') : g.pick(ins); s.insert(a, t); }
        else if (op == 7) { if (!s.empty()) s[g.below(s.size())] = (char)g.below(256); }
        else if (op == 8) { if (!s.empty()) s[g.below(s.size())] ^= 1 << g.below(8); }
        else { std::string t; int m = g.range(1, 12); for (int i = 0; i < m; ++i) t += (char)g.below(256); s.insert(g.below(s.size() + 1), t); }
    }
    return s;
}
static std::string random_text(G& g) { std::string s; int n = g.range(0, 120); static const char al[] = " \n\t#-[],.0123456789eE+abAMDIxVS\"\r"; for (int i = 0; i < n; ++i) s += g.chance(1, 12) ? (char)g.below(256) : al[g.below(sizeof al - 1)]; return s; }
static std::string show(const std::string& s) { std::string o; for (unsigned char c : s.substr(0, 700)) { if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } return o; }
// a failure that is reported: exceptions of the standard hierarchy
template<class F> static bool attempt(F f) { try { return f(); } catch (pbt::Failure&) { throw; } catch (pbt::Discard&) { throw; } catch (std::exception&) { return false; } }
static void use_data(const ptr<data>& d, const char* what) {   // whatever was loaded can be read
    const int nx = d->parametrization().dimX(), ny = d->parametrization().dimY(); CHECK(nx > 0 && ny > 0, what << " loaded with dimensions " << nx << " " << ny); CHECK(d->size() >= 0, what << " loaded with size " << d->size());
    double s = 0; int n = std::min(d->size(), 2000); for (int i = 0; i < n; ++i) { vec r = d->get(i); CHECK(r.size() >= nx + ny, what << ": row of " << r.size() << " entries for dimensions " << nx << " " << ny); s += r.sum(); }
    s += d->min().size() + d->max().size(); (void)s;
}
static std::string header_options(G& g) { static const std::vector<std::string> o = {"--min 0", "--max 1", "--min [0,0]", "--max [1", "--min []", "--ymin -1", "--ymax [2,2,2]", "--dt 0.1", "--dt-relative", "--dt-max 3", "--dt-positive", "--min", "--max nan", "--ymin [", "--dt", "--dt abc", "--data-positive", "--dt-max"}; std::string s; int n = g.below(4); for (int i = 0; i < n; ++i) s += (i ? " " : "") + g.pick(o); return s; }
static std::string text_file(G& g) {
    int nx = g.range(1, 4), ny = g.range(1, 3), vs = g.below(5); std::string s; bool alta = g.flip(); if (alta) s += "#ALTA HEADER BEGIN\n"; s += "#DIM " + std::to_string(nx) + " " + std::to_string(ny) + "\n"; if (g.flip()) s += "#PARAM_IN " + g.pick(std::vector<std::string>{"RUSIN_TH_TD", "CARTESIAN", "COS_TH", "UNKNOWN_INPUT", "WRONG"}) + "\n#PARAM_OUT " + g.pick(std::vector<std::string>{"RGB_COLOR", "UNKNOWN_OUTPUT", "INV_STERADIAN", "WRONG"}) + "\n";
    if (vs < 3) s += "#VS " + std::to_string(vs) + "\n"; if (alta) s += "#ALTA HEADER END\n"; int n = g.range(0, 6); for (int i = 0; i < n; ++i) { int c = nx + ny + (vs == 1 ? ny : vs == 2 ? 2 * ny : 0); for (int k = 0; k < c; ++k) s += (k ? " " : "") + fmt(g.real(-2, 2)); s += "\n"; }
    return s;
}
// dimensions of more than four digits mean allocations of any size, and are left out
static void no_huge_dim(const std::string& s) { size_t p = 0; while ((p = s.find("DIM", p)) != std::string::npos) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); int run = 0; for (size_t i = p; i < e; ++i) { run = isdigit((unsigned char)s[i]) ? run + 1 : 0; if (run > 4) discard(); if (s[i] == 'e' || s[i] == 'E') { if (i > p && (isdigit((unsigned char)s[i-1]) || s[i-1] == '.')) discard(); } } p = e; } }
static ptr<data> load_any(const std::string& bytes, const std::string& type, const std::string& opts, const std::string& ext) {
    no_huge_dim(bytes);    std::string f = pbt::tmpfile("f" + ext); pbt::spew(f, bytes); ptr<data> d; arguments a = arguments::create_arguments(opts); struct Rm { std::string f; ~Rm() { unlink(f.c_str()); } } rm{f}; return plugins_manager::load_data(f, type, a);
}
static void text_case(G& g) {
    std::string s = g.chance(1, 8) ? random_text(g) : mutate(g, text_file(g), g.range(0, 4)), o = header_options(g); no_huge_dim(s); g.note("file", show(s)); g.note("options", o);
    int how = g.below(3); g.label(how == 2 ? "stream" : "file"); bool ok = attempt([&] { ptr<data> d; if (how == 2) { std::istringstream in(s); d = plugins_manager::load_data("vertical_segment", in, arguments::create_arguments(o)); } else d = load_any(s, "vertical_segment", o, ".dat"); if (d) { use_data(d, "text file"); if (d->size()) g.nontrivial(); } return bool(d); });
    g.label(ok ? "loaded" : "rejected");
}
PROPERTY(text_data) { text_case(g); }
PROPERTY(text_data_huge) { text_case(g); g.nontrivial(); }
static ptr<data> small_data(G& g) { Model m; ag::gen_params(g, m); m.kind = g.range(0, 2); int n = g.range(0, 6); for (int i = 0; i < n; ++i) { V r; for (int k = 0; k < m.cols(); ++k) r.push_back(g.real(-2, 2)); m.rows.push_back(r); } return build(m); }
static void binary_case(G& g, bool header_only) {
    ptr<data> d = small_data(g); std::ostringstream o; save_data_as_binary(o, *d); std::string s = o.str(); if (g.flip()) s = "#ALTA HEADER BEGIN\n" + s; size_t body = s.find("#BEGIN_STREAM\n") + 14; if (body < 14) CHECK(false, "layout");
    if (g.flip()) s.insert(body - 14, "#ALTA HEADER END\n"), body = s.find("#BEGIN_STREAM\n") + 14;
    std::string t = mutate(g, s.substr(0, body), header_only ? g.range(1, 3) : g.below(4), true) + s.substr(body); if (g.flip()) t = mutate(g, t, 1); g.note("file", show(t));
    bool ok = attempt([&] { ptr<data> e = load_any(t, "vertical_segment", "", ".bin"); if (e) { use_data(e, "binary file"); if (e->size()) g.nontrivial(); } return bool(e); }); g.label(ok ? "loaded" : "rejected");
}
PROPERTY(binary_data) { binary_case(g, false); }
PROPERTY(binary_data_huge) { binary_case(g, true); g.nontrivial(); }
PROPERTY(binary_truncated) {   // every truncation inside the header or the samples, and headers announcing something else
    ptr<data> d = small_data(g); if (d->size() == 0) discard(); std::ostringstream o; save_data_as_binary(o, *d); std::string s = o.str(), t; size_t body = s.find("#BEGIN_STREAM\n") + 14, end = s.rfind("\n#END_STREAM"); int kind = g.below(4);
    if (kind < 2) { size_t from = s.find("#FORMAT binary\n") + 15, n = g.below(4) == 0 ? end - 1 - g.below(std::min<size_t>(end - from, 16)) : from + g.below(end - from);   // before that, nothing tells the file from an empty text file
        t = s.substr(0, n); g.note("truncated", n); g.note("file", show(t)); g.note("samples end", end); g.label(n < body ? "in header" : "in samples"); }
    else if (kind == 2) { t = s; static const std::vector<std::pair<std::string, std::vector<std::string>>> ch = {{"#VERSION 0", {"#VERSION 1", "#VERSION -1", "#VERSION 10"}}, {"#PRECISION ieee754-double", {"#PRECISION ieee754-float", "#PRECISION", "#PRECISION ieee754"}}, {"#ENDIAN little", {"#ENDIAN big", "#ENDIAN", "#ENDIAN Little"}}};
        const auto& c = g.pick(ch); std::string to = g.pick(c.second); size_t p = t.find(c.first); CHECK(p != std::string::npos, "layout"); t.replace(p, c.first.size(), to); g.note("header", to); g.label("unsupported"); }
    else { t = s; int n = d->size(); int m = n + 1 + g.below(1000); std::string a = "#SAMPLE_COUNT " + std::to_string(n), b = "#SAMPLE_COUNT " + std::to_string(m); size_t p = t.find(a); CHECK(p != std::string::npos, "layout"); 
        int cols = (end - body) / n / 8; if ((size_t)cols * 8 * m <= s.size() - body) discard(); t.replace(p, a.size(), b); g.note("header", b); g.label("more samples than present"); }
    g.nontrivial(); bool ok = attempt([&] { ptr<data> e = load_any(t, "vertical_segment", "", ".bin"); if (!e) return false; CHECK(false, "loaded as " << e->size() << " samples"); return true; }); (void)ok;
}
static void use_function(G& g, ptr<function> f, bool evaluate) {
    if (!evaluate) { g.label("not evaluated"); return; }
    const int nx = f->parametrization().dimX(), ny = f->parametrization().dimY(); const params::input ip = f->parametrization().input_parametrization(); if (nx <= 0 || (ip != params::UNKNOWN_INPUT && params::dimension(ip) != nx) || ny <= 0 || nx > 50 || ny > 50 || f->parametrization().input_parametrization() == params::UNKNOWN_INPUT && dynamic_cast<nonlinear_function*>(f.get())) { g.label("odd dimensions"); return; }
    vec x(nx); for (int i = 0; i < nx; ++i) x[i] = g.uniform(0, 0.4); vec y = f->value(x); CHECK(y.size() == ny, "value of " << y.size() << " entries for dimension " << ny);
    std::string o = pbt::tmpfile("o.func"); f->save(o, arguments()); unlink(o.c_str()); if (nonlinear_function* n = dynamic_cast<nonlinear_function*>(f.get())) { CHECK((int)n->parameters().size() == n->nbParameters(), "parameters"); }
}
static std::string function_file(G& g) {
    std::string f = pbt::tmpfile("g.func"); ptr<function> fn; arguments a;
    if (g.chance(2, 3)) { Tree t = gen_tree(g, SINGLE | PRODUCT | SUM); gen_all_pars(g, t); Fun F = make(g, t, true); V p = free_pars(t); if (!p.empty()) F.nl->setParameters(tovec(p)); fn = F.f; a = arguments::create_arguments(tree_str(t, false)); }
    else { int nx = g.range(1, 3), ny = g.range(1, 2), np = g.range(1, 5), nq = g.range(1, 5); static const std::vector<std::string> pl = {"", "--func rational_function_legendre", "--func rational_function_chebychev", "--func rational_function_cosine"}; a = arguments::create_arguments(g.pick(pl)); fn.reset(plugins_manager::get_function(a, parameters(nx, ny, params::UNKNOWN_INPUT, params::UNKNOWN_OUTPUT))); rational_function* r = dynamic_cast<rational_function*>(fn.get()); if (!r) CHECK(false, "rational function");
        r->setSize(np, nq); vec lo(nx), hi(nx); lo.setZero(); hi.setOnes(); r->setMin(lo); r->setMax(hi); for (int i = 0; i < ny; ++i) { vec p(np), q(nq); for (int k = 0; k < np; ++k) p[k] = g.uniform(-1, 1); for (int k = 0; k < nq; ++k) q[k] = g.uniform(-1, 1); r->get(i)->update(p, q); } }
    fn->save(f, a); std::string s = pbt::slurp(f); unlink(f.c_str()); return s;
}
static bool load_func(G& g, const std::string& s, bool evaluate) { no_huge_dim(s); std::string f = pbt::tmpfile("h.func"); pbt::spew(f, s); struct Rm { std::string f; ~Rm() { unlink(f.c_str()); } } rm{f}; return attempt([&] { ptr<function> p(plugins_manager::load_function(f)); if (!p) return false; g.nontrivial(); use_function(g, p, evaluate); return true; }); }
// functions of an unknown parametrization, or of a dimension that is not the one of their parametrization, cannot be evaluated: files that lost these are only loaded
static std::string param_lines(const std::string& s) { std::string o; std::istringstream in(s); std::string l; while (std::getline(in, l)) if (l.find("PARAM") != std::string::npos || l.find("DIM") != std::string::npos || l.find("param") != std::string::npos) o += l + "\n"; return o; }
static void function_case(G& g) { std::string s0 = function_file(g), s = g.chance(1, 15) ? "#ALTA FUNC HEADER\n" + random_text(g) : mutate(g, s0, g.range(1, 4)); g.note("file", show(s)); g.label(load_func(g, s, param_lines(s) == param_lines(s0)) ? "loaded" : "rejected"); }
PROPERTY(function_file_mutated) { function_case(g); }
PROPERTY(function_file_huge) { function_case(g); g.nontrivial(); }
PROPERTY(function_truncated) { std::string s = function_file(g), s0 = s; size_t n = g.below(s.size()); size_t last = s.find_last_not_of(" \n\t"); s.resize(n); g.note("file", show(s.substr(s.size() > 600 ? s.size() - 600 : 0))); bool ok = load_func(g, s, param_lines(s) == param_lines(s0)); g.label(ok ? "loaded" : "rejected"); (void)last; g.nontrivial(); }
PROPERTY(command_line) {
    static const std::vector<std::string> w = {"--a", "--b", "--", "-", "---", "[", "]", "[1,", "2]", "[[a,", "b],", "c]", "", "-1", "1e999", ",", "--func", "nonlinear_function_blinn", "[nonlinear_function_blinn", "--fresnel", "nonlinear_fresnel_schlick", "]]", "[]", "[ ]", "--bootstrap"};
    std::string s; int n = g.range(0, 12); for (int i = 0; i < n; ++i) s += (i ? (g.chance(1, 8) ? "  " : " ") : "") + (g.chance(1, 10) ? random_text(g) : g.pick(w)); g.note("args", show(s));
    attempt([&] {
        arguments a = arguments::create_arguments(s); std::vector<std::string> keys = {"a", "b", "", "-", "func", "fresnel", "bootstrap"}; double x = 0;
        for (auto& k : keys) { a.is_vec(k); x += a.get_int(k) + a.get_float(k) + a.get_string(k).size() + a.get_vec(k, 3).sum() + a.get_vec(k).size() + a.get_vec<std::string>(k).size() + a.get_vec<double>(k).size(); a.get_pair<std::string>(k); attempt([&] { x += a.get_double(k); return true; }); } (void)x;
        arguments b = arguments::create_arguments(a.get_cmd()); std::istringstream in(s + "\n" + random_text(g)); arguments::parse_header(in); g.nontrivial(n > 1); return true; });
    attempt([&] { parameters p(2, 1, params::RUSIN_TH_TD, params::UNKNOWN_OUTPUT); ptr<function> f(plugins_manager::get_function(arguments::create_arguments(s), p)); g.label(f ? "function" : "no function"); return true; });
    attempt([&] { params::parse_input(s); params::parse_output(s); return true; });
}
PROPERTY(table_files) {     // loaders of other formats
    int kind = g.below(5); std::string s, type, ext, opts; static const char* n[] = {"merl", "utia", "slice", "astm", "random"}; g.label(n[kind]);
    auto i32 = [&](int v) { s.append((char*)&v, 4); };
    switch (kind) {
    case 0: type = "data_merl"; ext = ".binary"; for (int k = 0; k < 3; ++k) i32(g.chance(1, 3) ? (int)g.pick(std::vector<int>{0, -1, 1, 46341, 65536, 2147483647, INT_MIN, 90, 180}) : k == 2 ? 180 : 90); { int m = g.below(300); s.resize(g.below(4) == 0 ? g.below(13) : s.size() + m, '\1'); } break;
    case 1: type = "data_utia"; ext = g.flip() ? ".bin" : ".exr"; s = random_text(g); break;
    case 2: case 4: { type = g.chance(1, 4) ? "data_utia" : "data_brdf_slice"; ext = ".exr"; int W = g.range(1, 6), H = g.range(1, 6); auto str = [&](const std::string& v) { s.append(v.c_str(), v.size() + 1); }; i32(20000630); i32(2); std::vector<std::string> names; static const std::vector<std::string> nm = {"B", "G", "R", "A", "Z", "", "RR"}; int nc = g.chance(2, 3) ? 3 : g.below(6); for (int i = 0; i < nc; ++i) names.push_back(nm[g.chance(5, 6) ? i : g.below(nm.size())]);
        str("channels"); str("chlist"); int len = 1; for (auto& c : names) len += c.size() + 17; i32(g.chance(1, 8) ? (int)g.range(-5, 500) : len); for (auto& c : names) { str(c); i32(g.chance(5, 6) ? 2 : g.below(5)); i32(0); i32(1); i32(1); } s += '\0';
        str("compression"); str("compression"); i32(1); s += (char)(g.chance(5, 6) ? 0 : g.below(12)); for (const char* w : {"dataWindow", "displayWindow"}) { str(w); str("box2i"); i32(16); i32(g.chance(7, 8) ? 0 : (int)g.range(-5, 5)); i32(0); i32(g.chance(7, 8) ? W - 1 : (int)g.range(-3, 4000)); i32(g.chance(7, 8) ? H - 1 : (int)g.range(-3, 4000)); }
        str("lineOrder"); str("lineOrder"); i32(1); s += '\0'; float one = 1; str("pixelAspectRatio"); str("float"); i32(4); s.append((char*)&one, 4); str("screenWindowCenter"); str("v2f"); i32(8); i32(0); i32(0); str("screenWindowWidth"); str("float"); i32(4); s.append((char*)&one, 4); s += '\0';
        size_t off = s.size() + 8 * size_t(H), line = 8 + 4 * size_t(W) * names.size(); for (int y = 0; y < H; ++y) { uint64_t o = off + line * y; if (g.chance(1, 12)) o = g.bits() >> g.below(64); s.append((char*)&o, 8); } for (int y = 0; y < H; ++y) { i32(g.chance(9, 10) ? y : (int)g.range(-3, 3000)); i32(g.chance(9, 10) ? int(4 * W * names.size()) : (int)g.range(-5, 4000)); s.append(4 * W * names.size(), '\1'); }
        int m = g.below(4); for (int i = 0; i < m; ++i) { int op = g.below(3); if (s.empty()) break; if (op == 0) s[g.below(s.size())] = (char)g.below(256); else if (op == 1) s.resize(g.below(s.size() + 1)); else s.insert(g.below(s.size()), 1, (char)g.below(256)); } break; }
    default: { type = "data_astm"; ext = ".astm"; int nr = g.range(0, 4); s = "TITLE x\nNUM_POINTS " + std::to_string(nr) + "\nVARS theta_i,phi_i,theta_s,phi_s," + (g.flip() ? "R,G,B" : "Integrated 300 700") + "\n"; for (int i = 0; i < nr; ++i) { for (int k = 0; k < 7; ++k) s += (k ? "," : "") + fmt(g.uniform(0, 1)); s += "\n"; } s = mutate(g, s, g.below(4)); } }
    g.note("type", type); g.note("file", show(s)); bool ok = attempt([&] { ptr<data> d = load_any(s, type, opts, ext); if (!d) return false; g.nontrivial(); use_data(d, "table"); vec x(d->parametrization().dimX()); for (int i = 0; i < x.size(); ++i) x[i] = g.uniform(0, 1); if (kind != 3) d->value(x); return true; }); g.label(ok ? "loaded" : "rejected"); if (s.size() > 20) g.nontrivial();
}
PROPERTY(interpolant_files) { std::string type = "data_rbf", s = mutate(g, text_file(g), g.range(0, 3)); g.note("type", type); g.note("file", show(s)); g.label(type); bool ok = attempt([&] { ptr<data> d = load_any(s, type, "", ".dat"); if (!d) return false; use_data(d, "interpolant"); g.nontrivial(); return true; }); g.label(ok ? "loaded" : "rejected"); }
PROPERTY(grid_arguments) {
    static const std::vector<std::string> sz = {"[2,3]", "[2]", "[]", "[2,3,4]", "[0,3]", "[-1,5]", "[a,b]", "[2,,3]", "[2,3", "7", "", "[[2],3]", "[1,1]", "[2,3,4,5]", "[ 3 , 2 ]", "[1.5,2]"}; static const std::vector<std::string> pn = {"", "STARK_2D", "RUSIN_TH_TD_PD", "COS_TH", "UNKNOWN", "SPHERICAL_TL_PL_TV_PV", "x"};
    std::string o = "--grid-size " + g.pick(sz), p = g.pick(pn); if (!p.empty()) o += " --param " + p; g.note("args", o); parameters pr(2, g.range(1, 3), params::STARK_2D, params::UNKNOWN_OUTPUT);
    bool ok = attempt([&] { ptr<data> d = plugins_manager::get_data("data_grid", g.below(4), pr, arguments::create_arguments(o)); if (!d) return false; use_data(d, "grid"); g.nontrivial(); return true; }); g.label(ok ? "created" : "refused"); if (p.empty() && o.find("[2,3]") != std::string::npos) CHECK(ok, "valid grid refused"); }
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
