// What is printed: every kind of object beside the values it holds.
// The texts are read back by a JSON reader (checks.py) before they are judged.
#include "common.hpp"
#include <map>
#include <set>
#include <sstream>
#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
#include "pf.hpp"
using namespace vt;
using namespace lmb;

static std::mt19937 gen_;
static int R(int a, int b) { return a + int(gen_() % unsigned(b - a + 1)); }
static double U() { return gen_() / 4294967296.0; }
// a number of any size and sign
static double any() {
    switch (R(0, 7)) {
        case 0: return 0;
        case 1: return R(-9, 9);
        case 2: return std::ldexp(U(), -R(0, 40)) * (R(0, 1) ? 1 : -1);
        case 3: return (U() - 0.5) * 1e7;
        default: return (U() - 0.5) * 400;
    }
}
static std::string B(double v) { return big(v, 5); }
template<typename V> static std::string vec(const V& v) { std::string s = "["; for (int i = 0; i < v.size(); ++i) { s += (i ? "," : "") + B(v(i)); } return s + "]"; }
template<typename M> static std::string mat(const M& m) {
    std::string s = "[";
    for (int i = 0; i < m.rows(); ++i) { s += (i ? ",[" : "["); for (int j = 0; j < m.cols(); ++j) { s += (j ? "," : "") + B(m(i, j)); } s += "]"; }
    return s + "]";
}
static std::string quote(const std::string& t) {
    std::string s = "\"";
    char b[8];
    for (unsigned char c : t) {
        if (c == '"' || c == '\\') { s += '\\'; s += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); s += b; } else { s += c; }
    }
    return s + "\"";
}
template<typename T> static std::string shown(const T& o) { std::ostringstream a; a << o; return a.str(); }
template<typename T> static std::string told(const T& o) { std::ostringstream a; o.repr(a); return a.str(); }

template<int S> static Gaussian_<S> gaussian() {
    Gaussian_<S> g;
    g.w = R(0, 3) ? U() : any();
    for (int i = 0; i < S; ++i) { g.x[i] = any(); for (int j = 0; j < S; ++j) { g.P(i, j) = any(); } }
    return g;
}
template<typename G> static std::string val(const G& g) { return "{\"w\":" + B(g.w) + ",\"x\":" + vec(g.x) + ",\"P\":" + mat(g.P) + "}"; }
template<int S> static GM<S> mix(Params* p, int n) {
    GM<S> g(p);
    for (int i = 0; i < n; ++i) {
        // some components are like their predecessor, or weigh the same
        g.c.push_back(i > 0 && R(0, 5) == 0 ? g.c.back() : gaussian<S>());
        if (i > 0 && R(0, 3) == 0) { g.c.back().w = g.c[i - 1].w; }
    }
    return g;
}
template<typename M> static std::string mval(const M& m) { return list(m.c, [](const typename M::Gaussian& g) { return val(g); }); }
// what was last done to each target, as the harness did it
static std::map<unsigned, std::string> last;
static std::string done(unsigned id) { return last.count(id) ? last[id] : "init"; }
template<typename T> static std::string tval(const T& t) {
    return "{\"id\":" + B(t.id) + ",\"cid\":" + B(t.cid) + ",\"la\":\"" + done(t.id)
        + "\",\"r\":" + B(t.r) + ",\"c\":" + mval(t.pdf) + "}";
}
static std::string rval(const GaussianReport_<2>& r) { return "{\"x\":" + vec(r.x) + ",\"P\":" + mat(r.P) + "}"; }
static void say(const std::string& kind, const std::string& text, const std::string& v) { Ev("print").str("kind", kind).raw("text", quote(text)).raw("val", v); }
// through << and through the printing function of the module, which have to agree
template<typename T> static void both(const std::string& kind, const T& o, const std::string& v) { say(kind, shown(o), v); say(kind, print(o), v); }

using Tracker = SILMB<GM<4>>;
using Sensor = PositionSensor<Tracker::Target>;
using Report = Sensor::Report;

int main(int, char** argv) {
    std::ifstream f(argv[1]);
    open(argv[2]);
    std::string op;
    unsigned long seed;
    while (f >> op >> seed) {
        watch();
        gen_.seed(seed);
        if (op == "parts") {
            Params par;
            auto g = gaussian<4>(); both("gaussian", g, val(g));
            auto h = gaussian<2>(); both("gaussian", h, val(h));
            auto m = mix<4>(&par, R(0, 4) ? R(0, 3) : R(4, 12)); both("mixture", m, mval(m));
            TargetSummary_<4> s(g.x, g.P, g.w, R(0, 99999), R(0, 99));
            say("summary", print(s), "{\"id\":" + B(s.id) + ",\"w\":" + B(s.r) + ",\"x\":" + vec(s.x) + ",\"P\":" + mat(s.P) + "}");
            Report r(h.x, h.P, any()); both("report", r, rval(r));
            std::vector<Report> scan;
            for (int n = R(0, 4) ? R(0, 3) : R(4, 12); n > 0; --n) {
                if (!scan.empty() && R(0, 4) == 0) { scan.push_back(scan.back()); continue; }
                auto k = gaussian<2>(); scan.emplace_back(k.x, k.P, 1.0);
            }
            say("scan", shown(scan), list(scan, [](const Report& r) { return rval(r); }));
            BBox b; for (int i = 0; i < 8; ++i) { b.corners(i) = any(); }
            both("box", b, mat(b.corners));
            AABBox a(any(), any(), any(), any());
            std::string av = "{\"min\":[" + B(a.min[0]) + "," + B(a.min[1]) + "],\"max\":[" + B(a.max[0]) + "," + B(a.max[1]) + "]}";
            for (auto& t : {shown(a), print(a)}) { say(t.substr(0, 6) == "AABBox" ? "area" : "no area", t.size() > 6 ? t.substr(6) : "", av); }
            using P = PF<4, 6>;
            auto* p = new P();
            for (int i = 0; i < 6; ++i) { p->w[i] = U(); for (int k = 0; k < 4; ++k) { p->x(k, i) = any(); } }
            std::string pv = "{\"w\":" + vec(p->w) + ",\"x\":" + mat(p->x) + "}";
            say("particles", told(*p), pv);
            say("particles", print(*p), pv);
            delete p;
        } else if (op == "whole") {
            Tracker t;
            last.clear();
            t.params.r_lim = 1e-4; t.params.cw_lim = 1e-3;
            Sensor s; s.pD_ = 0.9; s.lambdaB = R(0, 1) ? 0.5 : 0; s.kappa_ = 0.01;
            double la = R(-70, 70), lo = R(-170, 170);
            s.fov = BBox(AABBox(la - 0.1, lo - 0.1, la + 0.1, lo + 0.1));
            auto tell = [&] {
                std::string v = "[";
                for (auto* x : t.targettree.targets) { v += (v.size() > 1 ? "," : "") + tval(*x); both("target", *x, tval(*x)); }
                v += "]";
                both("tracker", t, v);
            };
            std::set<unsigned> aside;  // out of view, and far from every report
            for (int n = R(0, 4) ? R(0, 3) : R(4, 9); n > 0; --n) {
                Eigen::Vector4d x(la + U() * 1e-3, lo + U() * 1e-3, U() - 0.5, U());
                Eigen::Matrix4d P = Eigen::Matrix4d::Identity() * (1 + U());
                P(0, 1) = P(1, 0) = U() - 0.5;
                if (R(0, 4) == 0) { x[1] += 5; }
                auto* a = t.targettree.new_target(R(0, 3) ? U() : 0.5, GM<4>(&t.params, x, P), 0);
                if (x[1] > lo + 4) { aside.insert(a->id); }
                if (R(0, 3) == 0) { a->pdf = mix<4>(&t.params, R(2, 4)); for (auto& c : a->pdf.c) { c.w = c.w > 0 && c.w < 1 ? c.w : 0.5; c.x = x; c.P = P; } a->pdf.normalize(); }
            }
            tell();
            auto all = [&](const char* what, bool seen = false) {
                for (unsigned id = 0; id < t.targettree.id_counter; ++id) { if (!seen || !aside.count(id)) { last[id] = what; } }
            };
            for (int k = R(0, 3); k > 0; --k) {
                Sensor::Scan scan;
                for (int n = R(0, 3); n > 0; --n) { scan.emplace_back(Eigen::Vector2d(la + U() * 1e-3, lo + U() * 1e-3), Eigen::Matrix2d::Identity() * (1 + U())); }
                if (R(0, 1)) { all("correct", true); t.correct(s, scan, k); } else { CV<Tracker::Target> cv(0.9 + U() * 0.1, U()); t.predict(cv, k + U(), k); all("predict"); }
                tell();
            }
            // a group
            Params par;
            using Cl = Cluster_<Report, Tracker::Target>;
            std::vector<Report> reps;
            for (int n = R(0, 2); n > 0; --n) { auto k = gaussian<2>(); reps.emplace_back(k.x, k.P, 1.0); }
            Cl::Reports rp; for (auto& r : reps) { rp.push_back(&r); }
            Cl c(R(0, 9), rp, t.targettree.targets, &par);
            std::string tv = "[";
            for (auto* x : t.targettree.targets) { tv += (tv.size() > 1 ? "," : "") + tval(*x); }
            both("group", c, "{\"R\":" + list(reps, [](const Report& r) { return rval(r); }) + ",\"T\":" + tv + "]}");
        }
    }
}
