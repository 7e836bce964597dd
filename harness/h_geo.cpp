// The tracker in geographic coordinates, over Gaussian mixtures (and particles).
// Positions are written as offsets from a reference location, in 10^-9 degrees.
#include "common.hpp"
#include <omp.h>
#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
#include "pf.hpp"
using namespace vt;
using namespace lmb;

static std::istringstream is;
static long I() { long v = 0; is >> v; return v; }
static std::string num(long v) { return std::to_string(v); }
static cf::LL ref;
static std::string at(const Eigen::Vector2d& p) { return "[" + num(fx(p[0] - ref[0], 1e9)) + "," + num(fx(p[1] - ref[1], 1e9)) + "]"; }
static std::string bx(const AABBox& b) {
    return "[" + num(fx(b.min[0] - ref[0], 1e9)) + "," + num(fx(b.min[1] - ref[1], 1e9)) + "," + num(fx(b.max[0] - ref[0], 1e9)) + "," + num(fx(b.max[1] - ref[1], 1e9)) + "]";
}
// a place some metres north and east of the reference, by the size of a degree there
static double mlat = 110574, mlon = 111320;
static cf::LL place(double n, double e) { cf::LL p; p << ref[0] + n / mlat, ref[1] + e / mlon; return p; }

static unsigned long fnv = 0;
static void mixin(double d) { unsigned long u; memcpy(&u, &d, 8); for (int i = 0; i < 8; ++i) { fnv = (fnv ^ (u >> (8 * i) & 255)) * 1099511628211UL; } }
static std::string hex() { char b[32]; snprintf(b, sizeof b, "\"%016lx\"", fnv); return b; }

using GM4 = GM<4>;
using PF4 = PF<4, 64>;

static std::string comps(GM4& p) {
    return list(p.c, [](const GM4::Gaussian& g) {
        return "{\"w\":" + num(fx(g.w, 1e9)) + ",\"x\":" + at(g.pos()) + ",\"v\":[" + num(fx(g.x[2], 1e6)) + "," + num(fx(g.x[3], 1e6)) + "],\"P\":["
            + num(fx(g.P(0, 0), 1e3)) + "," + num(fx(g.P(0, 1), 1e3)) + "," + num(fx(g.P(1, 1), 1e3)) + "]}";
    });
}
static std::string comps(PF4& p) {
    std::string s = "[";
    for (int i = 0; i < 64; ++i) {
        s += (i ? "," : "") + std::string("{\"w\":") + num(fx(p.w[i], 1e9)) + ",\"x\":" + at(p.x.col(i).matrix().head<2>()) + ",\"v\":[" + num(fx(p.x(2, i), 1e6)) + "," + num(fx(p.x(3, i), 1e6)) + "]}";
    }
    return s + "]";
}
static void digest(GM4& p) {
    for (auto& g : p.c) { mixin(g.w); for (int i = 0; i < 4; ++i) { mixin(g.x[i]); } for (int i = 0; i < 16; ++i) { mixin(g.P(i / 4, i % 4)); } }
}
static void digest(PF4& p) { for (int i = 0; i < 64; ++i) { mixin(p.w[i]); for (int k = 0; k < 4; ++k) { mixin(p.x(k, i)); } } }
static GM4 density(GM4*, Params* par, int n) {
    GM4 g(par);
    for (int i = 0; i < n; ++i) {
        double w = I(), dn = I(), de = I(), vn = I(), ve = I(), a = I(), b = I(), c = I(), v = I();
        GM4::State x; x << place(dn, de), vn, ve;
        GM4::Covariance P; P.setZero(); P(0, 0) = a; P(0, 1) = P(1, 0) = b; P(1, 1) = c; P(2, 2) = P(3, 3) = v;
        g.c.emplace_back(x, P, w / 128);
    }
    g.transform_to_local(); g.transform_to_global();
    return g;
}
static PF4 density(PF4*, Params* par, int n) {
    GM4 g = density((GM4*)nullptr, par, n);
    // drawn about the first component, in its local frame
    g.transform_to_local();
    PF4 p(par, g.c[0].x, g.c[0].P);
    // the constructor reads the mean as a position; start over about the right one
    PF4 q(par);
    q.valid = true; q.w.setConstant(1.0 / 64);
    q.origin = g.origin;
    for (int i = 0; i < 64; ++i) {
        double u = (i % 8 - 3.5) / 2.3, v = (i / 8 - 3.5) / 2.3;
        Eigen::Matrix2d L = Eigen::LLT<Eigen::Matrix2d>(g.c[0].poscov()).matrixL();
        q.x.col(i).head<2>() = (g.c[0].pos() + L * Eigen::Vector2d(u, v)).array();
        q.x.col(i).tail<2>() = g.c[0].x.tail<2>().array();
    }
    q.transform_to_global();
    return q;
}

template<typename PDF> struct Geo {
    using F = SILMB<PDF>;
    using T = typename F::Target;
    using Sensor = PositionSensor<T>;
    F* f = nullptr;
    std::string targets() {
        return list(f->targettree.targets, [](T* t) {
            std::string bb = "[";
            for (int i = 0; i < 4; ++i) { bb += (i ? "," : "") + at(t->pdf.bbox.corners.col(i)); }
            return "{\"id\":" + num(t->id) + ",\"r\":" + num(fx(t->r, 1e9)) + ",\"c\":" + comps(t->pdf) + ",\"box\":" + bx(t->llaabbox()) + ",\"bb\":" + bb + "],\"cid\":" + num(t->cid) + "}";
        });
    }
    std::string state() {
        fnv = 14695981039346656037UL;
        for (auto t : f->targettree.targets) {
            mixin(t->id); mixin(t->r); mixin(t->cid); mixin(t->t0); digest(t->pdf);
            auto b = t->llaabbox(); mixin(b.min[0]); mixin(b.min[1]); mixin(b.max[0]); mixin(b.max[1]);
            for (int i = 0; i < 8; ++i) { mixin(t->pdf.bbox.corners(i / 4, i % 4)); }
        }
        mixin(f->targettree.tree.Count());
        return hex();
    }
    bool step(const std::string& op, double& now) {
        if (op == "target") {
            double r = I(); int n = I();
            f->targettree.new_target(r / 128, density((PDF*)nullptr, &f->params, n), now);
            Ev("added").raw("post", targets());
        } else if (op == "nm" || op == "cv") {
            std::string pre = targets();
            long k = 0, a = 0, q = 0;
            if (op == "nm") {
                k = I(); a = I(); q = I();
                Eigen::Matrix4d Q; Q.setZero(); Q(0, 0) = a; Q(1, 1) = q;
                NM<T> m(1, Q);
                for (int i = 0; i < k; ++i) { f->predict(m, now + 1, now); now += 1; }
            } else {
                k = I();
                CV<T> m(1, 0);
                f->predict(m, now + k, now); now += k;
            }
            Ev(op).i("k", k).i("qn", a).i("qe", q).raw("pre", pre).raw("post", targets());
        } else if (op == "scan") {
          if constexpr (std::is_same_v<PDF, GM4>) {
            Sensor s;
            s.pD_ = I() / 128.0; s.kappa_ = I() / 1e6; s.lambdaB = I() / 128.0;
            double a = I(), b = I(), c = I(), d = I();      // field of view, metres from the reference
            auto lo = place(a, b), hi = place(c, d);
            s.fov = BBox(AABBox(lo[0], lo[1], hi[0], hi[1]));
            bool half = I();
            int n = I();
            typename Sensor::Scan scan;
            for (int j = 0; j < n; ++j) {
                double dn = I(), de = I(), u = I(), v = I(), w = I();
                Eigen::Matrix2d R; R << u, v, v, w;
                scan.emplace_back(s, place(dn, de), R);
            }
            auto reps = [&]() { return list(scan, [](typename Sensor::Report z) { return "{\"x\":" + at(z.pos()) + ",\"P\":[" + num(fx(z.P(0, 0), 1e3)) + "," + num(fx(z.P(0, 1), 1e3)) + "," + num(fx(z.P(1, 1), 1e3)) + "],\"box\":" + bx(z.llaabbox()) + "}"; }); };
            std::string pre = targets(), rp = reps();
            f->correct(s, scan, now);
            Ev("scan").i("pD", std::lround(s.pD_ * 128)).b("half", half).raw("fov", bx(s.fov.aabbox())).raw("pre", pre).raw("rpre", rp).raw("post", targets()).raw("rpost", reps());
          }
        } else if (op == "phd") {
          if constexpr (std::is_same_v<PDF, GM4>) {
            double a = I(), b = I(), c = I(), d = I();
            Eigen::Array2i n; n << I(), I();
            auto lo = place(a, b), hi = place(c, d);
            long spread = I();
            std::string st = state(), pre = targets();
            auto m = f->pos_phd(AABBox(lo[0], lo[1], hi[0], hi[1]), n);
            std::string cells = "[";
            for (int i = 0; i < m.rows(); ++i) { cells += i ? ",[" : "["; for (int j = 0; j < m.cols(); ++j) { cells += (j ? "," : "") + num(fx(m(i, j), 1e8)); } cells += "]"; }
            Ev("phd").raw("box", bx(AABBox(lo[0], lo[1], hi[0], hi[1]))).i("nx", n[0]).i("ny", n[1]).i("spread", spread).raw("m", cells + "]").raw("pre", pre).raw("before", st).raw("after", state());
          }
        } else { return false; }
        return true;
    }
};

// OSPA and GOSPA: targets and truths at whole metres in the local frame of a place
static void metrics() {
    long c = I(), p = I();
    int M = I();
    Params par; par.cov_lim = 1e12;
    SILMB<GM4> f(par);
    std::string ts = "[", qs = "[";
    for (int i = 0; i < M; ++i) {
        long n = I(), e = I(), s = I();     // a mixture of two, s metres to either side
        Eigen::Vector2d ne; ne << n, e;
        GM4 g(&f.params);
        GM4::Covariance P; P.setIdentity();
        for (int k = -1; k <= 1; k += 2) {
            GM4::State x; x << ne + Eigen::Vector2d(k * s, -k * s), 0, 0;
            g.c.emplace_back(x, P, 0.5);
        }
        g.origin = ref;
        g.transform_to_global();
        f.targettree.new_target(0.5, std::move(g), 0);
        ts += (i ? ",[" : "[") + num(n) + "," + num(e) + "]";
    }
    int N = I();
    SILMB<GM4>::TargetStates truth, back;
    for (int j = 0; j < N; ++j) {
        long n = I(), e = I();
        Eigen::Vector2d ne; ne << n, e;
        GM4::State x; x << cf::ne2ll(ne, ref), 0, 0;
        truth.push_back(x);
        qs += (j ? ",[" : "[") + num(n) + "," + num(e) + "]";
    }
    back.assign(truth.rbegin(), truth.rend());
    Geo<GM4> g; g.f = &f;
    std::string st = g.state();
    std::string o = "[" + big(f.ospa(truth, ref, c, p), 2) + "," + big(f.ospa(truth, c, p), 2) + "," + big(f.ospa(back, ref, c, p), 2) + "]";
    std::string h = "[" + big(f.gospa(truth, ref, c, p), 2) + "," + big(f.gospa(truth, c, p), 2) + "," + big(f.gospa(back, ref, c, p), 2) + "]";
    Ev("metric").i("c", c).i("p", p).raw("ts", ts + "]").raw("qs", qs + "]").raw("ospa", o).raw("gospa", h).raw("before", st).raw("after", g.state());
}

int main(int, char** argv) {
    std::ifstream in(argv[1]);
    open(argv[2]);
    omp_set_num_threads(1);
    Geo<GM4> g; Geo<PF4> p;
    bool particles = false;
    double now = 0;
    std::string ln;
    while (std::getline(in, ln)) {
        is = std::istringstream(ln);
        std::string op; is >> op;
        watch();
        if (op == "new") {
            particles = I() == 1;
            long loc = I();
            double lat = loc == 0 ? 0.01 : loc == 1 ? 30 : loc == 2 ? 45 : loc == 3 ? 60 : -30;
            ref << lat, I();
            static const double m[5][2] = {{110574, 111320}, {110852, 96486}, {111132, 78847}, {111412, 55800}, {110852, 96486}};
            mlat = m[loc][0]; mlon = m[loc][1];
            Params par; par.cov_lim = 1e12; par.r_lim = 0.001;
            long a = I(); par.nstd = a / 4.0;
            delete g.f; delete p.f;
            g.f = new SILMB<GM4>(par); p.f = new SILMB<PF4>(par);
            now = 0;
            Ev("new").i("loc", loc).i("a", a).b("particles", particles);
        } else if (op == "metric") { metrics();
        } else if (particles) { if (op != "phd") { p.step(op, now); } } else { g.step(op, now); }
    }
    return 0;
}
