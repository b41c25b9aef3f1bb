// P01 text round trip, P02 binary round trip, P04 text-loader semantics, P05 domain and row access
#include "alta_gen.h"
using namespace ag;

static double textable(G& g) { double v = g.wild(); if (std::fabs(v) > 1e300) v /= 1e10; return v; }

static Model gen_model(G& g, int maxrows, bool bits) {
    Model m; gen_params(g, m); m.kind = bits ? (int)g.range(0, 2) : 0;
    // now and then far more rows, or wider ones, than fit in one buffer or in a machine word
    if (g.chance(1, 100) && m.in == params::UNKNOWN_INPUT) { m.nx = g.range(7, 40); g.label("wide"); } if (g.chance(1, 100) && m.out == params::UNKNOWN_OUTPUT) { m.ny = g.range(6, 40); g.label("wide"); }
    int n = g.chance(1, 400) ? g.range(61, 5000) : g.chance(1, 12) ? g.range(1, 60) : g.range(1, maxrows); if (n > 60) g.label("many rows");
    for (int i = 0; i < n; ++i) {
        std::vector<double> r;
        for (int j = 0; j < m.cols(); ++j) {
            double v;
            if (bits) {
                if (g.chance(1, 3)) { uint64_t u = g.bits(); memcpy(&v, &u, 8); if (j < m.nx && std::isnan(v)) v = 1.0; }
                else if (g.chance(1, 8)) { v = g.pick(std::vector<double>{INFINITY, -INFINITY, -0.0, 5e-324, 0.0}); if (g.chance(1, 4) && j >= m.nx) v = NAN; }
                else v = g.wild();
            } else v = textable(g);
            r.push_back(v);
        }
        m.rows.push_back(r);
    }
    return m;
}
static void note_model(G& g, const Model& m) {
    g.note("in", params::get_name(m.in)); g.note("out", params::get_name(m.out)); g.note("nx", m.nx); g.note("ny", m.ny); g.note("kind", m.kind);
    g.note("n", m.rows.size()); g.note("rows", rows_str(m));
}
static void check_meta(const ptr<data>& d, const Model& m) {
    CHECK(d, "no data loaded");
    CHECK(d->size() == (int)m.rows.size(), "row count " << d->size() << " expected " << m.rows.size());
    CHECK(d->parametrization().dimX() == m.nx && d->parametrization().dimY() == m.ny, "dimensions " << d->parametrization().dimX() << " " << d->parametrization().dimY());
    CHECK(d->parametrization().input_parametrization() == m.in, "input parametrization " << params::get_name(d->parametrization().input_parametrization()));
    CHECK(d->parametrization().output_parametrization() == m.out, "output parametrization " << params::get_name(d->parametrization().output_parametrization()));
}
static void check_rows_text(const ptr<data>& d, const Model& m) {
    for (size_t i = 0; i < m.rows.size(); ++i) {
        vec x = d->get(i);
        CHECK(x.size() == m.nx + m.ny, "row length " << x.size());
        for (int j = 0; j < m.nx + m.ny; ++j)
            CHECK(close(x[j], m.rows[i][j], 1.1e-14, 5e-324), "row " << i << " column " << j << ": " << fmt(x[j]) << " expected " << fmt(m.rows[i][j]));
    }
}
static void check_box(const data& d, const Model& m) {
    for (int j = 0; j < m.nx; ++j) {
        double lo = INFINITY, hi = -INFINITY;
        for (auto& r : m.rows) { lo = std::min(lo, r[j]); hi = std::max(hi, r[j]); }
        // bounds are finite numbers: infinite coordinates only occur in bit-pattern tests
        if (std::isinf(lo) || std::isinf(hi)) continue;
        CHECK(close(d.min()[j], lo, 1.1e-14, 5e-324), "min of dimension " << j << " is " << fmt(d.min()[j]) << " expected " << fmt(lo));
        CHECK(close(d.max()[j], hi, 1.1e-14, 5e-324), "max of dimension " << j << " is " << fmt(d.max()[j]) << " expected " << fmt(hi));
    }
}

// ---- P01 ----
PROPERTY(text_roundtrip) {
    Model m = gen_model(g, 12, false); note_model(g, m);
    g.nontrivial(m.rows.size() > 1); g.label(m.in == params::UNKNOWN_INPUT ? "unknown_in" : "named_in"); g.label("ny" + std::to_string(m.ny));
    ptr<vertical_segment> d = build(m);
    bool file = g.chance(1, 3); g.label(file ? "file" : "stream");
    ptr<data> e;
    if (file) {
        std::string f = pbt::tmpfile("d.txt"); d->save(f);
        e = plugins_manager::load_data(f, g.flip() ? "vertical_segment" : ""); unlink(f.c_str());
    } else { std::stringstream s; save_data_as_text(s, *d); e = plugins_manager::load_data("vertical_segment", s); }
    check_meta(e, m); check_rows_text(e, m); check_box(*e, m);
    // idempotence: a second trip changes nothing
    std::stringstream s1, s2; save_data_as_text(s1, *e); std::string t1 = s1.str();
    ptr<data> e2 = plugins_manager::load_data("vertical_segment", s1); save_data_as_text(s2, *e2);
    CHECK(e2->size() == e->size(), "second trip row count");
    for (int i = 0; i < e->size(); ++i) { vec a = e->get(i), b = e2->get(i); for (int j = 0; j < a.size(); ++j) CHECK(close(a[j], b[j], 1.1e-14, 5e-324), "second trip row " << i); }
    // the two data sets compare equal, and stop doing so when a value moves
    bool big = false; for (auto& r : m.rows) for (double v : r) if (std::fabs(v) > 1e3) big = true;
    if (!big) CHECK(d->equals(*e, 1e-9) && e->equals(*d, 1e-9), "round-tripped data does not compare equal");
}
PROPERTY(equals_detects_difference) {
    Model m = gen_model(g, 6, false); for (auto& r : m.rows) for (double& v : r) if (std::fabs(v) > 1e6) v = std::fmod(v, 1000.0);
    Model k = m; int i = g.below(m.rows.size()), j = g.below(m.nx + m.ny); double eps = std::pow(10.0, -(double)g.range(1, 8));
    double delta = (g.flip() ? 1 : -1) * (g.flip() ? 0.25 : 4.0) * eps; k.rows[i][j] += delta; double real = std::fabs(k.rows[i][j] - m.rows[i][j]);
    note_model(g, m); g.note("i", i); g.note("j", j); g.note("eps", eps); g.note("delta", delta);
    if (std::fabs(real - eps) < 0.2 * eps) pbt::discard();
    g.nontrivial(); g.label(real > eps ? "different" : "within");
    ptr<vertical_segment> a = build(m), b = build(k);
    CHECK(a->equals(*b, eps) == (real < eps), "equals(" << eps << ") with a difference of " << fmt(real));
    CHECK(a->equals(*a, eps), "data differs from itself");
    Model l = m; l.rows.pop_back(); if (!l.rows.empty()) { ptr<vertical_segment> c = build(l); CHECK(!a->equals(*c, 1e300), "equals ignores a missing row"); }
    // the default tolerance is a numerical precision, not a coarse one
    if (real > 1e-7) CHECK(!a->equals(*b), "default comparison ignores a difference of " << fmt(real));
    if (m.ny > 1 || m.nx > 1) { Model o = m; o.out = m.out == params::RGB_COLOR ? params::XYZ_COLOR : params::RGB_COLOR; ptr<vertical_segment> c = build(o); CHECK(!a->equals(*c, 1e300), "equals ignores the output parametrization"); }
}

// ---- P02 ----
static void check_bits(const ptr<data>& e, const Model& m) {
    ptr<vertical_segment> v = dynamic_pointer_cast<vertical_segment>(e);
    CHECK(v, "binary data is not a vertical_segment");
    CHECK((int)v->confidence_interval_kind() == m.kind, "kind of bounds " << (int)v->confidence_interval_kind());
    auto M = v->matrix_view();
    CHECK(M.rows() == (int)m.rows.size() && M.cols() == m.cols(), "storage shape " << M.rows() << "x" << M.cols());
    for (size_t i = 0; i < m.rows.size(); ++i) for (int j = 0; j < m.cols(); ++j)
        CHECK(same_bits(M(i, j), m.rows[i][j]), "row " << i << " column " << j << ": " << fmt(M(i, j)) << " expected " << fmt(m.rows[i][j]));
    for (size_t i = 0; i < m.rows.size(); ++i) { vec x = e->get(i); CHECK(x.size() == m.nx + m.ny, "row length"); for (int j = 0; j < x.size(); ++j) CHECK(same_bits(x[j], m.rows[i][j]), "get(" << i << ")[" << j << "]"); }
}
PROPERTY(binary_roundtrip) {
    Model m = gen_model(g, 12, true); note_model(g, m); g.nontrivial(m.rows.size() > 1); g.label("kind" + std::to_string(m.kind));
    ptr<vertical_segment> d = build(m);
    std::stringstream s; save_data_as_binary(s, *d); std::string b1 = s.str();
    ptr<data> e;
    if (g.chance(1, 3)) { std::string f = pbt::tmpfile("d.bin"); pbt::spew(f, b1); e = plugins_manager::load_data(f, "vertical_segment"); unlink(f.c_str()); }
    else e = plugins_manager::load_data("vertical_segment", s);
    check_meta(e, m); check_bits(e, m);
    bool nanx = false; for (auto& r : m.rows) for (int j = 0; j < m.nx; ++j) if (!std::isfinite(r[j])) nanx = true;
    if (!nanx) check_box(*e, m);
    std::stringstream s2; save_data_as_binary(s2, *e); CHECK(s2.str() == b1, "saving the loaded data gives different bytes");
}
PROPERTY(binary_text_binary) {
    Model m = gen_model(g, 8, false); note_model(g, m); g.nontrivial(m.rows.size() > 1);
    ptr<vertical_segment> d = build(m); std::stringstream t; save_data_as_text(t, *d);
    ptr<data> e = plugins_manager::load_data("vertical_segment", t);
    std::stringstream b; save_data_as_binary(b, *e); ptr<data> f = plugins_manager::load_data("vertical_segment", b);
    check_meta(f, m); check_rows_text(f, m); check_box(*f, m);
    ptr<vertical_segment> ev = dynamic_pointer_cast<vertical_segment>(e), fv = dynamic_pointer_cast<vertical_segment>(f);
    CHECK(ev && fv && ev->confidence_interval_kind() == fv->confidence_interval_kind(), "kind of bounds changed");
    for (int i = 0; i < e->size(); ++i) { vec x, a, c, y, p, q; ev->get(i, x, a, c); fv->get(i, y, p, q); CHECK(x == y && a == p && c == q, "segment of row " << i << " changed by the binary trip"); }
}
// the bytes written are the documented layout, so files written by other tools load too
PROPERTY(binary_layout) {
    Model m = gen_model(g, 8, true); note_model(g, m); g.nontrivial(m.rows.size() > 1);
    std::ostringstream h;
    std::vector<std::string> lines = {"#DIM " + std::to_string(m.nx) + " " + std::to_string(m.ny), std::string("#PARAM_IN ") + params::get_name(m.in), std::string("#PARAM_OUT ") + params::get_name(m.out),
        "#FORMAT binary", "#VERSION 0", "#PRECISION ieee754-double", "#SAMPLE_COUNT " + std::to_string(m.rows.size()), "#ENDIAN little"};
    if (m.kind || g.flip()) lines.push_back("#VS " + std::to_string(m.kind));
    for (size_t i = lines.size(); i > 1; --i) std::swap(lines[i - 1], lines[g.below(i)]);
    for (auto& l : lines) { h << l << "\n"; if (g.chance(1, 6)) h << "# a comment\n"; }
    h << "#BEGIN_STREAM\n";
    for (auto& r : m.rows) h.write((const char*)r.data(), r.size() * 8);
    // the byte after the header must not look like another header line
    std::string s = h.str(); size_t p = s.find("#BEGIN_STREAM\n") + 14; if (p < s.size() && s[p] == '#') pbt::discard();
    s += "\n#END_STREAM\n"; std::istringstream in(s);
    ptr<data> e = plugins_manager::load_data("vertical_segment", in);
    check_meta(e, m); check_bits(e, m);
}

// ---- P05 ----
PROPERTY(domain_box) {
    Model m = gen_model(g, 10, false); m.kind = g.range(0, 2); for (auto& r : m.rows) while ((int)r.size() < m.cols()) r.push_back(g.wild());
    if (g.chance(1, 3)) for (auto& r : m.rows) for (double& v : r) v = -std::fabs(v) - 1e-3;
    if (g.chance(1, 5)) m.rows.assign(m.rows.size(), m.rows[0]);
    note_model(g, m); g.nontrivial(m.rows.size() > 1);
    ptr<vertical_segment> d = build(m); check_box(*d, m);
    std::stringstream b; save_data_as_binary(b, *d); check_box(*plugins_manager::load_data("vertical_segment", b), m);
    std::stringstream t; save_data_as_text(t, *d); check_box(*plugins_manager::load_data("vertical_segment", t), m);
}
PROPERTY(row_writes) {
    Model m = gen_model(g, 8, true); note_model(g, m);
    ptr<vertical_segment> d = build(m); int ops = g.range(1, 12); g.nontrivial(ops > 2 && m.rows.size() > 1);
    bool viaget = g.flip(); if (g.flip()) { // a container created empty and filled row by row
        d = ptr<vertical_segment>(new vertical_segment(parameters(m.nx, m.ny, m.in, m.out), (unsigned int)m.rows.size())); m.kind = 2;
        for (auto& r : m.rows) r.assign(m.cols(), 0.0); g.label("zeroed");
        for (size_t i = 0; i < m.rows.size(); ++i) { vec x = d->get(i); for (int j = 0; j < x.size(); ++j) CHECK(x[j] == 0.0, "fresh row not zero"); }
    }
    for (int k = 0; k < ops; ++k) {
        int i = g.below(m.rows.size()); bool full = g.flip(); int len = full ? m.cols() : m.nx + m.ny; vec x(len);
        for (int j = 0; j < len; ++j) { x[j] = g.wild(); m.rows[i][j] = x[j]; }
        g.note("set", i); d->set(i, x);
        for (size_t r = 0; r < m.rows.size(); ++r) { vec y = d->get(r); for (int j = 0; j < y.size(); ++j) CHECK(same_bits(y[j], m.rows[r][j]), "after writing row " << i << ", row " << r << " column " << j << " is " << fmt(y[j]) << " expected " << fmt(m.rows[r][j])); }
        if (g.chance(1, 4)) { // a row of any other size is refused and changes nothing (checked with the storage below)
            int bad = g.range(0, m.cols() + 3), at = g.below(m.rows.size());
            if (bad != m.cols() && bad != m.nx + m.ny) { vec z = vec::Constant(bad, 7.25); bool refused = false; try { d->set(at, z); } catch (const std::exception&) { refused = true; }
                g.label("wrong size"); CHECK(refused, "a row of " << bad << " values is accepted where rows have " << m.nx + m.ny << " or " << m.cols()); } }
        auto M = d->matrix_view(); for (size_t r = 0; r < m.rows.size(); ++r) for (int j = 0; j < m.cols(); ++j) CHECK(same_bits(M(r, j), m.rows[r][j]), "storage of row " << r << " column " << j);
        (void)viaget;
    }
    // segments
    for (size_t r = 0; r < m.rows.size(); ++r) { vec x, yl, yu, zl, zu; d->get(r, x, yl, yu); d->get(r, zl, zu);
        CHECK(x.size() == m.nx && yl.size() == m.ny && yu.size() == m.ny, "segment sizes");
        for (int j = 0; j < m.nx; ++j) CHECK(same_bits(x[j], m.rows[r][j]), "segment position");
        for (int j = 0; j < m.ny; ++j) {
            double y = m.rows[r][m.nx + j], lo, hi;
            if (m.kind == 2) { lo = m.rows[r][m.nx + m.ny + j]; hi = m.rows[r][m.nx + 2 * m.ny + j]; }
            else if (m.kind == 1) { lo = y - m.rows[r][m.nx + m.ny + j]; hi = y + m.rows[r][m.nx + m.ny + j]; }
            else continue;
            CHECK((std::isnan(lo) && std::isnan(yl[j])) || yl[j] == lo, "lower bound of row " << r << " channel " << j << " is " << fmt(yl[j]) << " expected " << fmt(lo));
            CHECK((std::isnan(hi) && std::isnan(yu[j])) || yu[j] == hi, "upper bound of row " << r << " channel " << j << " is " << fmt(yu[j]) << " expected " << fmt(hi));
            CHECK((zl[j] == yl[j] || std::isnan(yl[j])) && (zu[j] == yu[j] || std::isnan(yu[j])), "two-argument bounds differ");
        } }
}

// ---- P04 ----
static std::string lit(G& g, double v) { char b[64]; switch (g.below(4)) { case 0: snprintf(b, 64, "%.17g", v); break; case 1: snprintf(b, 64, "%.17e", v); break; default: snprintf(b, 64, "%.15g", v); } return b; }
static double grid_value(G& g) { return g.chance(3, 4) ? g.range(-20, 20) / 10.0 : g.uniform(-2, 2); }

PROPERTY(text_loader_model) {
    int nx = g.chance(1, 20) ? g.range(5, 12) : g.range(1, 4), ny = g.chance(1, 20) ? g.range(4, 12) : g.range(1, 3), n = g.chance(1, 200) ? g.range(15, 1500) : g.range(0, 14);
    int vs = g.range(0, 2); std::string vsline = "#VS " + std::to_string(vs);
    for (int k = 1; k < ny; ++k) vsline += " 0";     // bounds in the file belong to the first channel only
    bool declare = vs != 0 || g.flip();
    std::vector<std::string> head = {"#DIM " + std::to_string(nx) + " " + std::to_string(ny), "#PARAM_IN UNKNOWN_INPUT", "#PARAM_OUT UNKNOWN_OUTPUT"};
    if (declare) head.push_back(vsline);
    if (g.flip()) head.push_back("#EXPORTING some text");
    if (g.flip()) head.push_back("# plain comment");
    for (size_t i = head.size(); i > 1; --i) std::swap(head[i - 1], head[g.below(i)]);
    const std::string nl = g.chance(1, 4) ? "\r\n" : "\n"; if (nl.size() > 1) g.label("crlf");
    std::ostringstream file; for (auto& h : head) file << h << (g.chance(1, 6) ? " " : "") << nl;
    if (g.chance(1, 4)) file << "#ALTA END HEADER" << nl;
    struct Row { std::vector<double> x, y; double a, b; }; std::vector<Row> rows;
    for (int i = 0; i < n; ++i) {
        Row r; for (int j = 0; j < nx; ++j) r.x.push_back(grid_value(g)); for (int j = 0; j < ny; ++j) r.y.push_back(grid_value(g));
        r.a = g.range(0, 10) / 10.0; r.b = g.range(0, 10) / 10.0;
        if (g.chance(1, 8)) file << (g.flip() ? "# comment between rows" : g.flip() ? "" : g.pick(std::vector<std::string>{" ", "\t", " \t ", "\r", "  "})) << nl;
        if (g.chance(1, 4)) file << " ";
        const char* sep = g.flip() ? " " : "\t"; bool first = true;
        auto put = [&](double& v) { std::string t = lit(g, v); v = strtod(t.c_str(), 0); if (!first) file << sep; first = false; file << t; };
        for (double& v : r.x) put(v); for (double& v : r.y) put(v); if (vs >= 1) put(r.a); if (vs == 2) put(r.b);
        if (g.chance(1, 6)) file << (g.flip() ? " " : "\t"); file << (i + 1 == n && g.flip() ? std::string() : nl); rows.push_back(r);
    }
    // options
    arguments args; double dt = 0.1; bool has_dt = g.flip(); if (has_dt) { dt = g.pick(std::vector<double>{0.0, 0.05, 0.25, 0.1, 1.5}); args.update("dt", lit(g, dt)); }
    int mode = g.range(0, 2); // 1 relative, 2 max of both
    if (mode == 1) args.update("dt-relative", ""); if (mode == 2) args.update("dt-max", "");
    bool pos = g.chance(1, 4); if (pos) g.label("positive"); if (pos) args.update("dt-positive", "");
    const double INF = INFINITY; std::vector<double> mn(nx, -INF), mx(nx, INF), ymn(ny, -INF), ymx(ny, INF);
    auto opt = [&](const char* key, std::vector<double>& b, bool low) {
        if (!g.chance(1, 3)) return;
        bool scalar = b.size() == 1 && g.flip(); std::string s;
        if (g.chance(1, 5) && b.size() > 1) { double v = low ? g.range(-20, 5) / 10.0 : g.range(-5, 20) / 10.0; s = lit(g, v); double w = strtod(s.c_str(), 0); for (double& x : b) x = w; g.label("broadcast"); }
        else { size_t len = b.size() > 1 && g.chance(1, 8) ? g.range(1, b.size() - 1) : b.size(); if (len < b.size()) g.label("partial list");   // components that are not given are not bounded
            for (size_t j = 0; j < len; ++j) { double v = low ? g.range(-20, 5) / 10.0 : g.range(-5, 20) / 10.0; std::string t = lit(g, v); b[j] = strtod(t.c_str(), 0); s += (j ? (g.flip() ? ", " : ",") : "") + t; } if (!scalar) s = "[" + s + "]"; }
        args.update(key, s); g.note(key, s); g.label(std::string("opt_") + key);
    };
    opt("min", mn, true); opt("max", mx, false); if (!pos) { opt("ymin", ymn, true); opt("ymax", ymx, false); }   // whether the clamp precedes the output filter is unspecified
    g.note("vs", vs); g.note("dt", has_dt ? fmt(dt) : "default"); g.note("mode", mode); g.note("pos", pos); g.note("file", file.str());
    std::vector<Row> keep;
    for (auto& r : rows) { bool in = true; for (int j = 0; j < nx; ++j) in = in && r.x[j] >= mn[j] && r.x[j] <= mx[j];
        for (int j = 0; j < ny; ++j) { double y = r.y[j]; in = in && y >= ymn[j] && y <= ymx[j]; }
        if (in) keep.push_back(r); }
    g.nontrivial(n > 1 && !keep.empty()); g.label(keep.size() == rows.size() ? "all_kept" : keep.empty() ? "none_kept" : "some_kept"); g.label("vs" + std::to_string(vs)); g.label("mode" + std::to_string(mode));
    std::istringstream in(file.str());
    ptr<data> d = plugins_manager::load_data("vertical_segment", in, args);
    CHECK(d, "not loaded");
    CHECK(d->size() == (int)keep.size(), "kept " << d->size() << " rows, expected " << keep.size());
    ptr<vertical_segment> v = dynamic_pointer_cast<vertical_segment>(d); CHECK(v, "not a vertical segment");
    for (size_t i = 0; i < keep.size(); ++i) {
        Row& r = keep[i]; vec x = d->get(i), px, yl, yu; v->get(i, px, yl, yu);
        for (int j = 0; j < nx; ++j) CHECK(x[j] == r.x[j] && px[j] == r.x[j], "row " << i << " position");
        for (int j = 0; j < ny; ++j) {
            double y = r.y[j], lo, hi;
            double l = dt, u = dt; if (j == 0 && vs == 1) l = u = r.a; if (j == 0 && vs == 2) { l = r.a; u = r.b; }
            if (mode == 1) { lo = y * (1 - l); hi = y * (1 + u); }
            else if (mode == 2) { double h = std::max(dt, std::fabs(y) * dt); lo = y - h; hi = y + h; }
            else { lo = y - l; hi = y + u; }
            if (pos) { y = std::max(y, 0.0); lo = std::max(lo, 0.0); hi = std::max(hi, 0.0); }
            CHECK(x[nx + j] == y, "row " << i << " value " << fmt(x[nx + j]) << " expected " << fmt(y));
            if (vs != 0 && mode != 0 && j == 0) continue;   // whether columns of the file are half-widths relative to the value is unspecified
            CHECK(close(yl[j], lo, 1e-12, 1e-12), "row " << i << " channel " << j << " lower bound " << fmt(yl[j]) << " expected " << fmt(lo));
            CHECK(close(yu[j], hi, 1e-12, 1e-12), "row " << i << " channel " << j << " upper bound " << fmt(yu[j]) << " expected " << fmt(hi));
        }
    }
}
// the cosine correction divides the values by both cosines and drops the rows that have a direction below the horizon
PROPERTY(cosine_correction) {
    const PIn& P = g.pick(inputs()); int ny = g.range(1, 4), n = g.range(0, 10); g.note("param", P.name); g.note("ny", ny); g.label(P.name);
    std::vector<std::vector<double>> rows, want; std::ostringstream f;
    f << "#DIM " << P.dim << " " << ny << "\n#PARAM_IN " << P.name << "\n#PARAM_OUT UNKNOWN_OUTPUT\n";
    bool vs = g.flip(); if (vs) { f << "#VS 1"; for (int k = 1; k < ny; ++k) f << " 0"; f << "\n"; }
    for (int i = 0; i < n; ++i) {
        double tv = g.uniform(0.02, g.chance(1, 4) ? 3.1 : 1.55), tl = g.uniform(0.02, g.chance(1, 4) ? 3.1 : 1.55), pv = g.uniform(-3.1, 3.1), pl = g.uniform(-3.1, 3.1);
        double c[6] = {sin(tv) * cos(pv), sin(tv) * sin(pv), cos(tv), sin(tl) * cos(pl), sin(tl) * sin(pl), cos(tl)}, x[6], b[6];
        if ((c[2] < 0 || c[5] < 0) && P.p != params::CARTESIAN && P.p != params::SPHERICAL_TL_PL_TV_PV && P.p != params::ISOTROPIC_TV_TL_DPHI) { c[2] = fabs(c[2]); c[5] = fabs(c[5]); }
        if (c[2] >= 0 && c[5] >= 0) params::convert(c, params::CARTESIAN, P.p, x); else if (P.p == params::CARTESIAN) memcpy(x, c, sizeof x); else if (P.p == params::ISOTROPIC_TV_TL_DPHI) { x[0] = tv; x[1] = tl; x[2] = pl; } else { x[0] = tl; x[1] = pl; x[2] = tv; x[3] = pv; }
        params::convert(x, P.p, params::CARTESIAN, b); if (fabs(b[2]) < 1e-6 || fabs(b[5]) < 1e-6) continue;
        std::vector<double> r(x, x + P.dim); for (int k = 0; k < ny; ++k) r.push_back(g.uniform(-5, 5));
        f.precision(17); for (double v : r) f << v << "\t"; if (vs) f << "0.25"; f << "\n";
        rows.push_back(r); if (b[2] > 0 && b[5] > 0) { for (int k = 0; k < ny; ++k) r[P.dim + k] /= b[2] * b[5]; want.push_back(r); }
    }
    g.note("file", f.str()); g.nontrivial(!want.empty()); if (want.size() < rows.size()) g.label("below the horizon");
    arguments args; args.update("data-correct-cosine", ""); std::istringstream in(f.str()); ptr<data> d = plugins_manager::load_data("vertical_segment", in, args);
    CHECK(d && d->size() == (int)want.size(), "kept " << (d ? d->size() : -1) << " rows of " << rows.size() << ", expected " << want.size());
    for (size_t i = 0; i < want.size(); ++i) { vec r = d->get(i); for (int k = 0; k < P.dim; ++k) CHECK(close(r[k], want[i][k], 1e-14, 1e-300), "row " << i << " coordinate " << k << " is " << fmt(r[k]) << " expected " << fmt(want[i][k]));
        for (int k = P.dim; k < P.dim + ny; ++k) CHECK(close(r[k], want[i][k], 1e-6, 1e-12), "row " << i << " value " << k - P.dim << " is " << fmt(r[k]) << " expected " << fmt(want[i][k]) << ": " << fmtv(rows[i]) << " over both cosines"); }
    std::istringstream in2(f.str()); ptr<data> e = plugins_manager::load_data("vertical_segment", in2); CHECK(e->size() == (int)rows.size(), "uncorrected row count");
    for (size_t i = 0; i < rows.size(); ++i) { vec r = e->get(i); for (size_t k = 0; k < rows[i].size(); ++k) CHECK(r[k] == rows[i][k], "uncorrected row " << i << " column " << k); }
}
int main(int c, char** v) { return pbt::pbt_main(c, v); }
