// What drive.py does through the Python module, done through the library.
#include <iomanip>
#include <map>
#include "common.hpp"
#include <omp.h>
#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
using namespace vt;
using namespace lmb;
using Tracker = SILMB<GM<4>>;
using Sensor = PositionSensor<Tracker::Target>;
using Report = GaussianReport_<2>;

static std::string num(long v) { return std::to_string(v); }
static std::string hx(double v) { unsigned long u; memcpy(&u, &v, 8); char b[20]; snprintf(b, sizeof b, "\"%016lx\"", u); return b; }
template<typename M> static std::string hm(const M& m) {
    std::string s = "[";
    for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) { s += (s.size() > 1 ? "," : "") + hx(m(i, j)); } }
    return s + "]";
}
static std::string h1(double v) { return "[" + hx(v) + "]"; }
static std::string kv(const std::string& k, const std::string& v) { return "\"" + k + "\":" + v; }

struct Obj {
    std::string k;
    Params p; Sensor s; NM<Tracker::Target> nm; CV<Tracker::Target> cv; BBox bb; AABBox ab{0, 0, 0, 0}; Tracker::Gaussian g; Report r;
};
static std::map<std::string, Obj> objs;
static std::unique_ptr<Tracker> tracker;

static std::string params(const Params& p) {
    return "{" + kv("w_lim", h1(p.w_lim)) + "," + kv("r_lim", h1(p.r_lim)) + "," + kv("nhyp_max", h1(p.nhyp_max)) + "," + kv("rB_max", h1(p.rB_max)) + ","
        + kv("nstd", h1(p.nstd)) + "," + kv("cw_lim", h1(p.cw_lim)) + "," + kv("cov_lim", h1(p.cov_lim)) + "," + kv("tscale", h1(p.tscale)) + "}";
}
static std::string attrs(Obj& o) {
    if (o.k == "Params") { return params(o.p); }
    if (o.k == "PositionSensor") { return "{" + kv("lambdaB", h1(o.s.lambdaB)) + "," + kv("pD", h1(o.s.pD_)) + "," + kv("kappa", h1(o.s.kappa_)) + "," + kv("pv", hm(o.s.pv)) + "," + kv("fov", hm(o.s.fov.corners)) + "}"; }
    if (o.k == "NM") { return "{" + kv("pS", h1(o.nm.pS)) + "," + kv("Q", hm(o.nm.Q)) + "}"; }
    if (o.k == "CV") { return "{" + kv("pS", h1(o.cv.pS)) + "," + kv("q", h1(o.cv.q)) + "}"; }
    if (o.k == "BBox") { return "{" + kv("corners", hm(o.bb.corners)) + "}"; }
    if (o.k == "AABBox") { return "{\"min\":[" + hx(o.ab.min[0]) + "," + hx(o.ab.min[1]) + "],\"max\":[" + hx(o.ab.max[0]) + "," + hx(o.ab.max[1]) + "]}"; }
    if (o.k == "Gaussian") { return "{" + kv("w", h1(o.g.w)) + "," + kv("m", hm(o.g.x)) + "," + kv("P", hm(o.g.P)) + "}"; }
    return "{" + kv("x", hm(o.r.x)) + "," + kv("P", hm(o.r.P)) + "," + kv("kappa", h1(o.r.kappa)) + "," + kv("cid", h1(o.r.cid)) + "}";
}
static std::string quote(const std::string& t) { std::string s = "\""; for (char c : t) { if (c == '"' || c == '\\') { s += '\\'; } s += c; } return s + "\""; }
static std::string shown(Obj& o) {
    if (o.k == "BBox") { return print(o.bb); }
    if (o.k == "AABBox") { return print(o.ab); }
    if (o.k == "Gaussian") { return print(o.g); }
    if (o.k == "GaussianReport") { return print(o.r); }
    return "";
}
using Summary = Tracker::TargetSummaries::value_type;
static std::string summary(const Summary& t) {
    std::string P;
    for (int i = 0; i < 16; ++i) { P += (i ? "," : "") + num(fx(t.P(i / 4, i % 4), 1e3)); }
    return "{\"id\":" + num(t.id) + ",\"cid\":" + num(t.cid) + ",\"r\":" + num(fx(t.r, 1e9)) + ",\"x\":[" + num(fx(t.x[0] - 30, 1e9)) + "," + num(fx(t.x[1] - 20, 1e9)) + ","
        + num(fx(t.x[2], 1e4)) + "," + num(fx(t.x[3], 1e4)) + "],\"P\":[" + P + "]}";
}
static std::string summaries(const Tracker::TargetSummaries& s) { return list(s, summary); }
static std::string report(const Report& z) {
    return "{\"cid\":" + num(z.cid) + ",\"x\":[" + num(fx(z.x[0] - 30, 1e9)) + "," + num(fx(z.x[1] - 20, 1e9)) + "],\"P\":["
        + num(fx(z.P(0, 0), 1e6)) + "," + num(fx(z.P(0, 1), 1e6)) + "," + num(fx(z.P(1, 0), 1e6)) + "," + num(fx(z.P(1, 1), 1e6)) + "],\"kappa\":" + num(fx(z.kappa, 1e9)) + "}";
}
static std::string corners(const BBox& b) {
    std::string s;
    for (int i = 0; i < 4; ++i) { s += (i ? ",[" : "[") + num(fx(b.corners(0, i), 1e3)) + "," + num(fx(b.corners(1, i), 1e3)) + "]"; }
    return s;
}
static std::string groups() {
    return "\"ncl\":" + num(tracker->nof_clusters) + ",\"cnt\":" + ints(tracker->cluster_ntargets) + ",\"cnr\":" + ints(tracker->cluster_nreports) + ",\"cnh\":" + ints(tracker->cluster_nhyps);
}
template<typename V> static std::string fxs(const V& v, double s) {
    std::string o;
    for (int i = 0; i < v.rows(); ++i) { for (int j = 0; j < v.cols(); ++j) { o += "," + num(fx(v(i, j), s)); } }
    return o;
}
static Eigen::Vector2d place(double n, double e) { return Eigen::Vector2d(30 + n / 1e5, 20 + e / 1e5); }

int main(int, char** argv) {
    std::ifstream in(argv[1]);
    open(argv[2]);
    omp_set_num_threads(1);
    std::string ln;
    while (std::getline(in, ln)) {
        std::istringstream is(ln);
        std::string op; is >> op;
        watch();
        auto word = [&]() { std::string w; is >> w; return w; };
        auto F = [&]() { double v = 0; std::string w; is >> w; if (!w.empty()) { v = std::stod(w); } return v; };
        auto rest = [&]() { std::vector<double> v; std::string w; while (is >> w) { if (isalpha(w[0])) { break; } v.push_back(std::stod(w)); } return v; };
        if (op == "make") {
            std::string k = word(), name = word();
            Obj o; o.k = k;
            std::vector<double> v; std::string by;
            if (k == "SensorReport") { for (int i = 0; i < 6; ++i) { v.push_back(F()); } by = word(); } else { v = rest(); }
            Eigen::Matrix4d M4; Eigen::Matrix2d M2;
            auto m4 = [&](int at) { for (int i = 0; i < 16; ++i) { M4(i / 4, i % 4) = v[at + i]; } };
            auto m2 = [&](int at) { M2 << v[at], v[at + 1], v[at + 2], v[at + 3]; };
            if (k == "NM" && v.size()) { m4(1); o.nm = NM<Tracker::Target>(v[0], M4); }
            if (k == "CV") { if (v.size() == 1) { o.cv = CV<Tracker::Target>(v[0]); } if (v.size() == 2) { o.cv = CV<Tracker::Target>(v[0], v[1]); } }
            if (k == "BBox" && v.size() == 4) { o.bb = BBox(AABBox(v[0], v[1], v[2], v[3])); }
            if (k == "BBox" && v.size() == 8) { BBox::Corners c; c << v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]; o.bb = BBox(c); }
            if (k == "AABBox" && v.size()) { o.ab = AABBox(v[0], v[1], v[2], v[3]); }
            if (k == "Gaussian") { m4(4); Eigen::Vector4d x(v[0], v[1], v[2], v[3]); o.g = v.size() == 20 ? Tracker::Gaussian(x, M4) : Tracker::Gaussian(x, M4, v[20]); }
            if (k == "GaussianReport") { m2(2); Eigen::Vector2d x(v[0], v[1]); o.r = v.size() == 6 ? Report(x, M2) : Report(x, M2, v[6]); }
            if (k == "SensorReport") { m2(2); Eigen::Vector2d x(v[0], v[1]); o.r = Report(objs[by].s, x, M2); o.k = "GaussianReport"; }
            objs[name] = o;
            bool bare = (k == "AABBox" || k == "BBox") && v.empty();
            int words = 1; { std::istringstream ws(ln); std::string w; words = 0; while (ws >> w) { ++words; } }
            Ev("make").str("o", name).str("kind", o.k).raw("at", bare ? "{}" : attrs(o)).raw("repr", words < 40 && !bare ? quote(shown(o)) : "\"\"");
        } else if (op == "set") {
            std::string name = word(), n = word();
            auto v = rest();
            std::string all = "[";
            for (double d : v) { all += (all.size() > 1 ? "," : "") + hx(d); }
            std::string at;
            Params* pp = nullptr;
            Obj& o = objs[name];
            if (name == "live") { pp = &tracker->params; } else if (o.k == "Params") { pp = &o.p; }
            if (pp) {
                (n == "w_lim" ? pp->w_lim : n == "r_lim" ? pp->r_lim : n == "nhyp_max" ? pp->nhyp_max : n == "rB_max" ? pp->rB_max : n == "nstd" ? pp->nstd
                    : n == "cw_lim" ? pp->cw_lim : n == "cov_lim" ? pp->cov_lim : pp->tscale) = v[0];
                at = params(*pp);
            } else {
                auto fill = [&](auto& m) { for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) { m(i, j) = v[i * m.cols() + j]; } } };
                if (o.k == "PositionSensor") { if (n == "fov") { fill(o.s.fov.corners); } else if (n == "pv") { fill(o.s.pv); } else { (n == "lambdaB" ? o.s.lambdaB : n == "pD" ? o.s.pD_ : o.s.kappa_) = v[0]; } }
                if (o.k == "NM") { if (n == "Q") { fill(o.nm.Q); } else { o.nm.pS = v[0]; } }
                if (o.k == "CV") { (n == "pS" ? o.cv.pS : o.cv.q) = v[0]; }
                if (o.k == "BBox") { fill(o.bb.corners); }
                if (o.k == "AABBox") { auto& m = n == "min" ? o.ab.min : o.ab.max; m[0] = v[0]; m[1] = v[1]; }
                if (o.k == "Gaussian") { if (n == "w") { o.g.w = v[0]; } else if (n == "m") { fill(o.g.x); } else { fill(o.g.P); } }
                if (o.k == "GaussianReport") { if (n == "kappa") { o.r.kappa = v[0]; } else if (n == "x") { fill(o.r.x); } else { fill(o.r.P); } }
                at = attrs(o);
            }
            Ev("set").str("o", name).str("a", n).raw("v", all + "]").raw("at", at);
        } else if (op == "boxes") {
            Obj& ob = objs[word()]; cf::LL o; o << F(), F();
            BBox bb = ob.k == "BBox" ? ob.bb : BBox(ob.ab);
            AABBox ab = ob.k == "BBox" ? ob.bb.aabbox() : ob.ab;
            AABBox ne = ab.neaabbox(o), ll = AABBox(-20.0, -30.0, 40.0, 50.0).llaabbox(o);
            auto four = [](const AABBox& b, const cf::LL& o, double s) { return ",[" + num(fx(b.min[0] - o[0], s)) + "," + num(fx(b.min[1] - o[1], s)) + "," + num(fx(b.max[0] - o[0], s)) + "," + num(fx(b.max[1] - o[1], s)) + "]"; };
            cf::LL z; z.setZero();
            Ev("value").raw("py", "[" + corners(bb.nebbox(o)) + four(ne, z, 1e3) + four(ab, z, 1e6) + four(ll, o, 1e9) + "]");
        } else if (op == "gauss") {
            Eigen::Vector2d m; m << F(), F(); Eigen::Matrix2d P; P << F(), F(), F(), F(); double nstd = F(); cf::LL o; o << F(), F();
            BBox b1, b2; b1.from_gaussian(m, P); b2.from_gaussian(m, P, nstd);
            Report r(m, P);
            Ev("value").raw("py", "[" + corners(b1) + "," + corners(b2) + "," + corners(r.nebbox(o)) + "," + corners(r.nebbox(o, nstd)) + "]");
        } else if (op == "cf") {
            using namespace cf;
            LL p, o; p << F(), F(); o << F(), F(); LLA pa, oa; pa << p, F(); oa << o, F();
            ECEF e = ll2ecef(p), ea = lla2ecef(pa);
            NED ned; ned << 100, 200, 30; NE ne; ne << 100, 200;
            std::string s = fxs(nedrot(oa), 1e9) + fxs(nerot(o), 1e9) + fxs(e, 1e2) + fxs(ea, 1e2) + fxs(ecef2ned(ea, oa), 1e2) + fxs(lla2ned(pa, oa), 1e2) + fxs(ecef2ne(e, o), 1e2) + fxs(ll2ne(p, o), 1e2)
                + fxs(ned2ecef(ned, oa), 1e2) + fxs(ne2ecef(ne, o), 1e2) + fxs(ecef2lla(ea), 1e6) + fxs(ned2lla(ned, oa), 1e6) + fxs(ecef2ll(e), 1e6) + fxs(ne2ll(ne, o), 1e6);
            Ev("value").raw("py", "[[" + s.substr(1) + "]]");
        } else if (op == "tracker") {
            std::string from = word();
            tracker.reset(from.empty() ? new Tracker() : new Tracker(objs[from].p));
            Ev("tracker").str("frm", from).raw("at", params(tracker->params));
        } else if (op == "scan") {
            Obj& s = objs[word()];
            double t = F(); int n = F();
            Sensor::Scan scan;
            for (int j = 0; j < n; ++j) {
                double x = F(), y = F(), a = F(), b = F(), c = F();
                Eigen::Matrix2d R; R << a, b, b, c;
                scan.emplace_back(s.s, place(x, y), R);
            }
            tracker->correct(s.s, scan, t);
            Ev("scan").raw("reports", list(scan, report)).raw("post", summaries(tracker->get_targets())).raw("ncl", groups().substr(6));
        } else if (op == "predict") {
            Obj& m = objs[word()]; double t = F(), t0 = F();
            if (m.k == "NM") { tracker->predict(m.nm, t, t0); } else { tracker->predict(m.cv, t, t0); }
            Ev("predict").raw("post", summaries(tracker->get_targets()));
        } else if (op == "queries") {
            int nb = F(), nl = F(), nt = F();
            std::vector<AABBox> boxes; std::vector<double> lims; Tracker::TargetStates truth;
            for (int i = 0; i < nb; ++i) { auto lo = place(F(), F()); double a = F(), b = F(); auto hi = place(a, b); boxes.emplace_back(lo[0], lo[1], hi[0], hi[1]); }
            for (int i = 0; i < nl; ++i) { lims.push_back(F()); }
            for (int i = 0; i < nt; ++i) { double a = F(), b = F(); GM<4>::State x; x << place(a, b), 0, 0; truth.push_back(x); }
            double c = F(), p = F(), g0 = F(), g1 = F(), g2 = F(), g3 = F(); Eigen::Array2i n; n[0] = F(); n[1] = F();
            auto all = [&](auto enof, auto nofd, auto nof, auto sum) {
                return "\"enof\":" + num(fx(enof(), 1e6)) + ",\"nofd\":" + num(nofd()) + ",\"nof\":" + list(lims, [&](double q) { return num(nof(q)); }) + ",\"sum\":" + summaries(sum());
            };
            auto& T = *tracker;
            std::string s = "{" + all([&]() { return T.enof_targets(); }, [&]() { return T.nof_targets(); }, [&](double q) { return T.nof_targets(q); }, [&]() { return T.get_targets(); })
                + ",\"reg\":" + list(boxes, [&](const AABBox& b) { return "{" + all([&]() { return T.enof_targets(b); }, [&]() { return T.nof_targets(b); }, [&](double q) { return T.nof_targets(b, q); }, [&]() { return T.get_targets(b); }) + "}"; });
            s += ",\"ospa\":" + num(fx(T.ospa(truth, c, p), 1e4)) + ",\"gospa\":" + num(fx(T.gospa(truth, c, p), 1e4));
            auto lo = place(g0, g1), hi = place(g2, g3);
            auto m = T.pos_phd(AABBox(lo[0], lo[1], hi[0], hi[1]), n);
            s += ",\"phd\":[";
            for (int i = 0; i < m.rows(); ++i) { s += i ? ",[" : "["; for (int j = 0; j < m.cols(); ++j) { s += (j ? "," : "") + num(fx(m(i, j), 1e6)); } s += "]"; }
            s += "]," + groups() + "}";
            std::string named = "[";
            for (double q : lims) { named += (named.size() > 1 ? "," : "") + num(T.nof_targets(q)); }
            for (auto& b : boxes) { for (double q : lims) { named += (named.size() > 1 ? "," : "") + num(T.nof_targets(b, q)); } }
            Ev("queries").raw("q", s).raw("named", named + "]");
        } else if (op == "pickles") {
            Ev("pickles");
        }
    }
    return 0;
}
