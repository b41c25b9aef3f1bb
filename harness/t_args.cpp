// P09 command-line arguments, P10 headers, P36 vector helpers
#include "alta_gen.h"
using namespace ag;
#include "core/args.h"
typedef std::vector<std::string> VS;

static std::string ident(G& g, int maxlen = 10) { static const char* a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"; std::string s(1, a[g.below(52)]);
    int n = g.range(0, maxlen - 1); for (int i = 0; i < n; ++i) s += a[g.below(strlen(a))]; return s; }
static std::string longer(G& g, std::string s) { if (g.chance(1, 24)) s += std::string(g.range(200, 700), 'x') + ident(g, 4); return s; }   // file names can be long
static std::string word(G& g) { static const char* a = "abcXYZ019_./+:=()#*%~,"; std::string s; int n = g.range(1, 12); for (int i = 0; i < n; ++i) s += a[g.below(22)]; return longer(g, s); }
static std::string num(double d, G& g) { char b[64]; switch (g.below(5)) { case 4: { snprintf(b, 64, "%.17f", d); std::string t = b; size_t z = t.find("0."); if (z == 0 || (z == 1 && t[0] == '-')) t.erase(z, 1); return t.size() < 60 ? t : std::to_string((int)d % 100); }   /* .5, -.5 */ case 0: snprintf(b, 64, "%.17g", d); break; case 1: snprintf(b, 64, "%.17e", d); break; case 2: snprintf(b, 64, "%.20f", d); if (strlen(b) > 60) snprintf(b, 64, "%.17g", d); break; default: snprintf(b, 64, "%.16E", d); } return b; }
static double mid(G& g) { switch (g.below(6)) { case 5: return (g.flip() ? -1 : 1) * pow(10, g.uniform(-37, 37)); case 0: return g.range(-20, 20); case 1: return g.uniform(-1, 1); case 2: return (g.flip() ? -1 : 1) * pow(10, g.uniform(-12, 12)); case 3: return g.uniform(-1e5, 1e5); default: return g.pick(std::vector<double>{0, 1, -1, 0.5, -0.25, 1e-3, -7}); } }

struct Opt { std::string key; int kind; std::string text; double num; std::vector<double> v; VS strs; VS tokens; };
static Opt gen_opt(G& g, const std::string& key) {
    Opt o; o.key = key; o.kind = g.below(7); o.num = 0; o.tokens.push_back("--" + key);
    switch (o.kind) {
    case 0: break;                                                            // flag
    case 1: o.text = word(g); o.tokens.push_back(o.text); break;             // string
    case 2: o.num = g.flip() ? (double)g.range(-1000000, 1000000) : (double)g.range(-2147483647L, 2147483647L); o.text = std::to_string((long)o.num); o.tokens.push_back(o.text); break;   // integer
    case 3: o.num = mid(g); o.text = num(o.num, g); o.num = strtod(o.text.c_str(), 0); o.tokens.push_back(o.text); break;          // real
    case 4: case 5: {                                                        // vector of reals / list of words
        int n = g.chance(1, 12) ? g.range(7, 120) : g.range(1, 6); VS el; for (int i = 0; i < n; ++i) { if (o.kind == 4) { std::string t = num(mid(g), g); o.v.push_back(strtod(t.c_str(), 0)); el.push_back(t); } else { std::string t = longer(g, ident(g)); o.strs.push_back(t); el.push_back(t); } }
        bool split = g.flip(); g.label(split ? "vector split over arguments" : "vector in one argument");
        if (split) { for (int i = 0; i < n; ++i) o.tokens.push_back((i == 0 ? "[" : "") + el[i] + (i + 1 < n ? "," : "]")); }
        else { std::string t = "["; bool sp = g.flip(); for (int i = 0; i < n; ++i) t += (i ? (sp ? ", " : ",") : "") + el[i]; o.tokens.push_back(t + "]"); }
        break; }
    case 6: {                                                                // list of options, e.g. --func [a --fresnel b, c]
        int n = g.range(1, 4); std::string t = "["; VS toks; for (int i = 0; i < n; ++i) { std::string e = longer(g, ident(g)); if (g.flip()) { e += " --" + ident(g, 5); int q = g.below(4); if (q == 1 || q == 2) e += " " + ident(g); if (q == 3) { int m = g.range(1, 4); e += " ["; for (int j = 0; j < m; ++j) e += (j ? ", " : "") + ident(g, 4) + (g.chance(1, 4) ? " [" + ident(g, 3) + ", " + ident(g, 3) + "]" : ""); e += "]"; g.label("nested list"); } } o.strs.push_back(e); t += (i ? ", " : "") + e; } t += "]";
        if (g.flip()) o.tokens.push_back(t); else { std::stringstream ss(t); std::string w; while (ss >> w) o.tokens.push_back(w); } break; }
    }
    return o;
}
static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" "), b = s.find_last_not_of(" "); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static std::vector<Opt> gen_opts(G& g, int maxn) { int n = g.range(0, maxn); std::set<std::string> used; std::vector<Opt> v;
    for (int i = 0; i < n; ++i) { std::string k = ident(g); if (!used.insert(k).second) continue; v.push_back(gen_opt(g, k)); } return v; }

static void check_opts(const arguments& a, const std::vector<Opt>& os, G& g) {
    for (auto& o : os) {
        const std::string& k = o.key;
        CHECK(a.is_defined(k), "--" << k << " was given but is not defined");
        double fd = g.uniform(-10, 10); bool vk = o.kind >= 4;
        CHECK(a.is_vec(k) == vk, "is_vec(" << k << ") is " << !vk);
        switch (o.kind) {
        case 0: CHECK(a[k] == "" && a.get_string(k, "dflt") == "", "flag " << k << " has value '" << a[k] << "'"); break;
        case 1: CHECK(a[k] == o.text && a.get_string(k, "dflt") == o.text, "string " << k << " is '" << a[k] << "' expected '" << o.text << "'"); break;
        case 2: CHECK(a.get_int(k, 77) == (int)o.num, "integer " << k << " is " << a.get_int(k, 77)); CHECK(a.get_double(k, fd) == o.num, "integer as double"); break;
        case 3: { CHECK(a.get_double(k, fd) == o.num, "real " << k << " is " << fmt(a.get_double(k, fd)) << " expected " << fmt(o.num)); CHECK(a.get_float(k, (float)fd) == (float)o.num, "float " << k << " is " << fmt(a.get_float(k, 0)));
            int n = g.range(1, 4); vec v = a.get_vec(k, n, 3.0f); CHECK(v.size() == n, "vector size"); for (int i = 0; i < n; ++i) CHECK(v[i] == o.num, "scalar given for a vector: component " << i << " is " << fmt(v[i])); break; }
        case 4: { int n = g.chance(1, 8) ? g.range(9, 130) : g.range(1, 8); float df = (float)g.range(-5, 5); vec v = a.get_vec(k, n, df); CHECK(v.size() == n, "vector size"); int m = o.v.size();
            for (int i = 0; i < n; ++i) CHECK(v[i] == (i < m ? o.v[i] : (double)df), "vector " << k << " component " << i << " is " << fmt(v[i]) << " expected " << fmt(i < m ? o.v[i] : (double)df));
            std::vector<double> w = a.get_vec<double>(k); CHECK(w == o.v, "typed vector " << k << " is " << fmtv(w)); 
            std::vector<float> wf = a.get_vec<float>(k); CHECK((int)wf.size() == m, "float vector size"); for (int i = 0; i < m; ++i) CHECK(close(wf[i], (float)o.v[i], 1e-6, 0), "float vector component"); break; }
        case 5: { std::vector<std::string> w = a.get_vec<std::string>(k); CHECK(w == o.strs, "list of strings " << k << " differs, " << w.size() << " elements"); }   // fall through
        case 6: { VS w = a.get_vec(k); CHECK(w.size() == o.strs.size(), "list " << k << " has " << w.size() << " elements, expected " << o.strs.size()); for (size_t i = 0; i < w.size(); ++i) CHECK(trim(w[i]) == o.strs[i], "list " << k << " element " << i << " is '" << w[i] << "' expected '" << o.strs[i] << "'"); break; }
        }
    }
    for (int t = 0; t < 4; ++t) { std::string k = ident(g); if (t == 0 && !os.empty()) k = os[0].key + "x"; if (t == 1 && !os.empty()) k = os[0].key.substr(0, os[0].key.size() - 1); bool used = false; for (auto& o : os) used = used || o.key == k; if (used || k.empty()) continue;
        bool inner = false; for (auto& o : os) for (auto& w : o.tokens) if (w == "--" + k) inner = true; if (inner) continue;
        double d = mid(g); CHECK(!a.is_defined(k) && !a.is_vec(k) && a[k] == "", "--" << k << " was not given but is defined"); CHECK(a.get_string(k, "dflt") == "dflt" && a.get_int(k, 5) == 5 && a.get_double(k, d) == d && a.get_float(k, 2.5f) == 2.5f && a.get_vec(k).empty(), "default of " << k);
        vec v = a.get_vec(k, 3, 1.5f); for (int i = 0; i < 3; ++i) CHECK(v[i] == 1.5, "default vector"); CHECK(a.get_vec<double>(k).empty(), "default typed vector"); }
}
static arguments parse(const VS& tokens) { std::vector<std::vector<char>> store; std::vector<char*> av; for (auto& t : tokens) store.push_back(std::vector<char>(t.c_str(), t.c_str() + t.size() + 1)); for (auto& s : store) av.push_back(s.data()); av.push_back(0); return arguments((int)tokens.size(), av.data()); }

PROPERTY(command_line) {
    std::vector<Opt> os = gen_opts(g, 7); VS toks{"prog"}; for (auto& o : os) for (auto& t : o.tokens) toks.push_back(t);
    std::string all; for (auto& t : toks) all += "'" + t + "' "; g.note("argv", all); g.nontrivial(os.size() > 1); for (auto& o : os) g.label("kind" + std::to_string(o.kind));
    arguments a = parse(toks); check_opts(a, os, g);
    // order of distinct options
    std::vector<Opt> sh(os); for (size_t i = sh.size(); i > 1; --i) std::swap(sh[i - 1], sh[g.below(i)]); VS t2{"prog"}; for (auto& o : sh) for (auto& t : o.tokens) t2.push_back(t);
    arguments b = parse(t2); for (auto& o : os) CHECK(a[o.key] == b[o.key], "order of options changes --" << o.key);
    CHECK(a.get_cmd() == b.get_cmd(), "order of options changes the reconstructed command line");
    // copy, update
    arguments c(a); check_opts(c, os, g);
    if (!os.empty()) { std::string k = os[g.below(os.size())].key, v = word(g); c.update(k, v); CHECK(c[k] == v && c.get_string(k) == v, "update"); for (auto& o : os) if (o.key != k) CHECK(c[o.key] == a[o.key], "update of " << k << " changed " << o.key); 
        bool ch = false; for (auto& o : os) if (o.key == k) ch = (a[k] == b[k]); CHECK(ch, "update of a copy changed the original"); }
    if (!os.empty()) { arguments c2(a); size_t i = g.below(os.size()); c2.remove(os[i].key); CHECK(!c2.is_defined(os[i].key) && c2[os[i].key] == "" && c2.get_string(os[i].key, "dflt") == "dflt", "removed option is still defined"); std::vector<Opt> rest(os); rest.erase(rest.begin() + i); check_opts(c2, rest, g); CHECK(a.is_defined(os[i].key), "removal from a copy changed the original"); }
}
// the command line stored in function files: get_cmd / create_arguments round trip
PROPERTY(stored_command_line) {
    std::vector<Opt> os = gen_opts(g, 6); VS toks{"prog"}; for (auto& o : os) for (auto& t : o.tokens) toks.push_back(t); std::string all; for (auto& t : toks) all += "'" + t + "' "; g.note("argv", all); g.nontrivial(os.size() > 1);
    arguments a = parse(toks); arguments b = arguments::create_arguments(a.get_cmd()); g.note("cmd", a.get_cmd());
    check_opts(b, os, g);
}
PROPERTY(pairs) {
    long R = g.flip() ? 1000 : 2147483647L; int x = g.range(-R, R), y = g.range(-R, R); double u = mid(g), v = mid(g); std::ostringstream s; s << x << (g.flip() ? " " : "   ") << y; arguments a({{"P", s.str()}, {"Q", fmt(u) + " " + fmt(v)}}); g.note("P", s.str()); g.nontrivial();
    auto p = a.get_pair<int>("P"); CHECK(p.first == x && p.second == y, "pair " << p.first << "," << p.second); auto q = a.get_pair<double>("Q"); CHECK(q.first == u && q.second == v, "pair of doubles"); auto z = a.get_pair<int>("R"); CHECK(z.first == 0 && z.second == 0, "missing pair is not zero");
}

// ---- P10 ----
PROPERTY(header_as_written) {
    std::map<std::string, std::string> want; std::string txt; int n = g.range(0, 8); std::string type;
    static const std::vector<std::string> known{"DIM", "PARAM_IN", "PARAM_OUT", "VS", "CMD", "VERSION", "FORMAT", "SAMPLE_COUNT"};
    int begin = g.below(4); if (begin == 1) { txt += "#ALTA FUNC HEADER\n"; type = "FUNC"; } if (begin == 2) { txt += "#ALTA BEGIN HEADER\n"; type = "BEGIN"; } if (begin == 3) txt += "#ALTA HEADER BEGIN\n";
    for (int i = 0; i < n; ++i) {
        if (g.chance(1, 6)) { txt += "# " + word(g) + " " + word(g) + "\n"; g.label("comment"); }
        if (g.chance(1, 20)) { txt += "#\n"; g.label("bare hash"); }
        std::string k = g.flip() ? g.pick(known) : ident(g);
        if (g.chance(1, 4)) {    // names close to those with a meaning
            static const std::vector<std::string> special{"ALTA", "TYPE", "BEGIN_STREAM", "END_STREAM", "DIM", "FORMAT", "HEADER", "END", "FUNC"}; k = g.pick(special); int how = g.below(6);
            if (how == 0) k += ident(g); if (how == 1) k += "_" + ident(g); if (how == 2) k = ident(g) + "_" + k; if (how == 3) k.erase(k.size() - 1); if (how == 4) for (char& c : k) c = std::tolower(c); g.label("close to " + std::string(how == 5 ? "itself" : "special")); }
        if (k == "ALTA" || k == "TYPE" || k == "BEGIN_STREAM" || want.count(k)) continue; std::string v;
        int words = g.range(0, 4); for (int w = 0; w < words; ++w) v += (w ? (g.chance(1, 4) ? "  " : " ") : "") + word(g);
        want[k] = v; txt += "#" + k + (words ? std::string(g.range(1, 3), g.chance(1, 4) ? '\t' : ' ') : "") + v + (g.chance(1, 8) ? "\r\n" : "\n");
    }
    int end = g.below(3); if (end == 1) txt += "#ALTA END HEADER\n"; if (end == 2) txt += "#ALTA HEADER END\n"; g.label("end" + std::to_string(end));
    std::string body; int bl = g.range(0, 3); for (int i = 0; i < bl; ++i) { if (end && i == 0 && g.flip()) { body += "#FUNC x\n"; g.label("body starts with hash"); } else body += fmt(mid(g)) + " " + word(g) + "\n"; }
    if (end == 0 && !body.empty() && body[0] == '#') body = " " + body;
    g.note("header", txt); g.note("body", body); g.nontrivial(want.size() > 1 && !body.empty());
    std::istringstream in(txt + body); arguments h = arguments::parse_header(in);
    for (auto& kv : want) { CHECK(h.is_defined(kv.first), "#" << kv.first << " is lost"); CHECK(h[kv.first] == kv.second, "#" << kv.first << " is '" << h[kv.first] << "' expected '" << kv.second << "'"); }
    for (auto& k : known) if (!want.count(k)) CHECK(!h.is_defined(k), "#" << k << " was not written");
    in.clear(); std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); CHECK(rest == body, "stream is left at '" << rest.substr(0, 40) << "' expected '" << body.substr(0, 40) << "'");
    if (!type.empty()) CHECK(h["TYPE"] == type, "header type is '" << h["TYPE"] << "'");
    // reordering the lines of distinct keys does not matter
    std::string t2; std::vector<std::pair<std::string, std::string>> kv(want.begin(), want.end()); for (size_t i = kv.size(); i > 1; --i) std::swap(kv[i - 1], kv[g.below(i)]); for (auto& x : kv) t2 += "#" + x.first + " " + x.second + "\n";
    std::istringstream in2(t2); arguments h2 = arguments::parse_header(in2); for (auto& x : kv) CHECK(h2[x.first] == h[x.first], "order changes #" << x.first);
}
PROPERTY(header_pairs_typed) {     // declarations written by the library's own writers are read back
    Model m; gen_params(g, m); m.kind = g.below(3); int n = g.range(1, 4); for (int i = 0; i < n; ++i) { std::vector<double> r; for (int c = 0; c < m.cols(); ++c) r.push_back(g.uniform(0, 1)); m.rows.push_back(r); }
    g.note("nx", m.nx); g.note("ny", m.ny); g.nontrivial(m.in != params::UNKNOWN_INPUT); auto d = build(m); std::string f = pbt::tmpfile("h.alta"); bool bin = g.flip();
    { std::ofstream o(f.c_str(), std::ios::binary); if (bin) save_data_as_binary(o, *d); else { o.close(); d->save(f); } }
    std::ifstream in(f.c_str(), std::ios::binary); arguments h = arguments::parse_header(in); auto dim = h.get_pair<int>("DIM"); unlink(f.c_str());
    CHECK(dim.first == m.nx && dim.second == m.ny, "#DIM " << h["DIM"]); CHECK(params::parse_input(h["PARAM_IN"]) == m.in, "#PARAM_IN " << h["PARAM_IN"]); CHECK(params::parse_output(h["PARAM_OUT"]) == m.out, "#PARAM_OUT " << h["PARAM_OUT"]);
    if (bin) CHECK(h.get_int("SAMPLE_COUNT", -1) == n && h["FORMAT"] == "binary", "binary declarations");
}

// ---- P36 ----
static double sc(G& g) { switch (g.below(6)) { case 0: return g.range(-5, 5); case 1: return 0; case 2: return (g.flip() ? -1 : 1) * pow(10, g.uniform(-100, 100)); default: return g.uniform(-10, 10); } }
PROPERTY(vec_algebra) {
    int n = g.range(1, 12); vec a(n), b(n); std::vector<double> A, B; for (int i = 0; i < n; ++i) { A.push_back(a[i] = sc(g)); B.push_back(b[i] = sc(g)); } g.notev("a", A); g.notev("b", B); g.nontrivial(n > 1);
    long double d = 0, na = 0, ab = 0, mx = 0; for (int i = 0; i < n; ++i) { d += (long double)A[i] * B[i]; ab += fabsl((long double)A[i] * B[i]); na += (long double)A[i] * A[i]; mx = std::max(mx, fabsl((long double)A[i])); }
    CHECK(fabsl(dot(a, b) - d) <= 1e-13L * ab, "dot is " << fmt(dot(a, b)) << " expected " << fmt((double)d)); CHECK(dot(a, b) == dot(b, a), "dot is not symmetric"); CHECK(close(norm(a), (double)sqrtl(na), 1e-12, 0), "norm is " << fmt(norm(a)));
    if (na > 1e-150L) { vec u = normalize(a); CHECK(close(norm(u), 1.0, 1e-12, 0), "normalised norm " << fmt(norm(u))); for (int i = 0; i < n; ++i) { CHECK(close(u[i], (double)(A[i] / sqrtl(na)), 1e-12, 1e-300), "normalised component"); CHECK(a[i] == A[i], "normalize changed its argument"); } }
    vec p = product(a, b); CHECK(p.size() == n, "product size"); for (int i = 0; i < n; ++i) CHECK(p[i] == A[i] * B[i], "product component");
    vec s(1); s[0] = sc(g); vec q = product(s, b), r = product(b, s); CHECK(q.size() == n && r.size() == n, "scalar product size"); for (int i = 0; i < n; ++i) CHECK(q[i] == s[0] * B[i] && r[i] == q[i], "scalar product component");
    std::ostringstream o; o << a; std::string t = o.str(); CHECK(t.size() > 1 && t[0] == '[' && t[t.size() - 1] == ']', "printed as " << t); 
    arguments ar({{"v", t}}); vec back = ar.get_vec("v", n, 99.0f); for (int i = 0; i < n; ++i) CHECK(close(back[i], A[i], 1e-5, 0), "printed vector " << t << " component " << i << " parses to " << fmt(back[i]));
    std::vector<double> sv(A); std::ostringstream o2; o2 << sv; arguments ar2({{"v", o2.str()}}); auto b2 = ar2.get_vec<double>("v"); CHECK(b2.size() == A.size(), "printed list has " << b2.size() << " elements"); for (int i = 0; i < n; ++i) CHECK(close(b2[i], A[i], 1e-5, 0), "printed list component");
    double x = sc(g), lo = sc(g), hi = sc(g); if (lo > hi) std::swap(lo, hi); double c = clamp(x, lo, hi); CHECK(c >= lo && c <= hi && (c == x || (x < lo && c == lo) || (x > hi && c == hi)), "clamp(" << fmt(x) << "," << fmt(lo) << "," << fmt(hi) << ") = " << fmt(c));
    CHECK(is_in(A, A[n - 1]) >= 0 && A[is_in(A, A[n - 1])] == A[n - 1], "is_in does not find an element"); CHECK(is_in(A, 1e200) == -1, "is_in finds a missing element");
    double e = g.uniform(1e-9, 1); CHECK(close_to(x, x + e / 2, e) || fabs(x) > 1e5, "close_to near"); CHECK(!close_to(x, x + 2 * e + fabs(x), e), "close_to far");
}
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
