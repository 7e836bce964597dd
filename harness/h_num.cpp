// The numeric parts by themselves: boxes, Gaussians, mixtures, particles, motion models.
// Inputs are integers (probabilities out of 128); outputs are written in fixed point.
#include "common.hpp"
#include <omp.h>
#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
#include "pf.hpp"
using namespace vt;
using namespace lmb;

static std::istringstream is;
static long I() { long v = 0; is >> v; return v; }
static std::string num(long v) { return std::to_string(v); }
template<typename M> static std::string mat(const M& m, int limbs) {     // list of rows
    std::string s = "[";
    for (int i = 0; i < m.rows(); ++i) {
        s += i ? ",[" : "[";
        for (int j = 0; j < m.cols(); ++j) { s += (j ? "," : "") + big(m(i, j), limbs); }
        s += "]";
    }
    return s + "]";
}
template<typename V> static std::string vec(const V& v, int limbs) {
    std::string s = "[";
    for (int i = 0; i < v.size(); ++i) { s += (i ? "," : "") + big(v(i), limbs); }
    return s + "]";
}
template<typename M> static std::string imat(const M& m) {
    std::string s = "[";
    for (int i = 0; i < m.rows(); ++i) {
        s += i ? ",[" : "[";
        for (int j = 0; j < m.cols(); ++j) { s += (j ? "," : "") + num(std::lround(m(i, j))); }
        s += "]";
    }
    return s + "]";
}
template<typename V> static std::string ivec(const V& v) {
    std::string s = "[";
    for (int i = 0; i < v.size(); ++i) { s += (i ? "," : "") + num(std::lround(v(i))); }
    return s + "]";
}
template<int N> static Eigen::Matrix<double, N, 1> rv() { Eigen::Matrix<double, N, 1> x; for (int i = 0; i < N; ++i) { x[i] = I(); } return x; }
template<int N> static Eigen::Matrix<double, N, N> rm() {     // symmetric, lower triangle given
    Eigen::Matrix<double, N, N> P;
    for (int i = 0; i < N; ++i) { for (int j = 0; j <= i; ++j) { P(i, j) = P(j, i) = I(); } }
    return P;
}

using G4 = GM<4>;
using T4 = Target_<G4>;

static std::string comps(const G4& g) {
    return list(g.c, [](const G4::Gaussian& c) { return "{\"w\":" + big(c.w, 4) + ",\"x\":" + vec(c.x, 3) + ",\"P\":" + mat(c.P, 3) + "}"; });
}
static std::string icomps(const G4& g) {
    return list(g.c, [](const G4::Gaussian& c) { return "{\"w\":" + num(std::lround(c.w * 128)) + ",\"x\":" + ivec(c.x) + ",\"P\":" + imat(c.P) + "}"; });
}
static G4 mixture(Params* par) {
    G4 g(par);
    int n = I();
    for (int i = 0; i < n; ++i) { double w = I(); auto x = rv<4>(); auto P = rm<4>(); g.c.emplace_back(x, P, w / 128); }
    return g;
}

// The field of view: everything near the origin, or what lies north, east, south or west of it
static BBox fov(const cf::LL& o, int side) {
    double d = 0.02;
    double a = o[0] - d, b = o[1] - d, c = o[0] + d, e = o[1] + d;
    if (side == 1) { a = o[0]; } else if (side == 2) { b = o[1]; } else if (side == 3) { c = o[0]; } else if (side == 4) { e = o[1]; }
    return BBox(AABBox(a, b, c, e));
}

template<int MAXC> struct Mix {
    using M = GM<2, MAXC>;
    static M read(Params* p, int& id) {
        M m(p);
        int n = I();
        for (int i = 0; i < n; ++i) { add(m, id++, I()); }
        return m;
    }
    static void add(M& m, int id, int w) {
        typename M::State x; x << id, 3 * id + 1;
        typename M::Covariance P; P << 2 * id + 5, 1, 1, id + 7;
        m.c.emplace_back(x, P, w / 128.0);
    }
    static std::string out(const M& m) {
        return list(m.c, [](const typename M::Gaussian& c) {
            int id = std::lround(c.x[0]);
            bool own = c.x[0] == id && c.x[1] == 3 * id + 1 && c.P(0, 0) == 2 * id + 5 && c.P(1, 1) == id + 7 && c.P(0, 1) == 1 && c.P(1, 0) == 1;
            return "{\"id\":" + num(own ? id : -1) + ",\"w\":" + big(c.w, 4) + "}";
        });
    }
    static std::string in(const M& m) {
        return list(m.c, [](const typename M::Gaussian& c) { return "[" + num(std::lround(c.x[0])) + "," + num(std::lround(c.w * 128)) + "]"; });
    }
    static void run(const std::string& op) {
        Params par;
        int id = 0;
        long lim = I();
        par.cw_lim = lim / 128.0;
        if (op == "join") {
            int k = I();
            Eigen::Matrix<double, 1, Eigen::Dynamic> w(1, k);
            std::vector<long> wi;
            for (int j = 0; j < k; ++j) { wi.push_back(I()); w(0, j) = wi.back() / 128.0; }
            std::vector<M> pdfs;
            for (int j = 0; j < k; ++j) { pdfs.push_back(read(&par, id)); }
            M pdf(&par); add(pdf, 900, 128);
            std::string ins = list(pdfs, in);
            M::join(pdf, w, pdfs);
            Ev("join").i("max", MAXC).i("lim", lim).raw("W", ints(wi)).raw("in", ins).raw("out", out(pdf));
        } else {
            M a = read(&par, id), b = read(&par, id);
            std::string ia = in(a), ib = in(b);
            M s = a + b;
            bool kept = in(a) == ia && in(b) == ib;
            M t = b;
            t += a;
            M p(&par); p.c = a.c; p.c.insert(p.c.end(), b.c.begin(), b.c.end());
            p.prune();
            Ev("plus").i("max", MAXC).i("lim", lim).raw("a", ia).raw("b", ib).b("kept", kept).raw("sum", out(s)).raw("inc", out(t)).raw("pruned", out(p));
        }
    }
};

template<int N> struct Par {
    using P = PF<4, N>;
    using S = PositionSensor<Target_<P>>;
    static P* read(Params* p) {
        P* q = new P();
        q->params = p; q->valid = true;
        for (int i = 0; i < N; ++i) { q->w[i] = I() / 128.0; q->x.col(i) = rv<4>().array(); }
        return q;
    }
    static std::string in(const P& p) {
        std::string s = "[";
        for (int i = 0; i < N; ++i) { s += (i ? "," : "") + std::string("{\"w\":") + num(std::lround(p.w[i] * 128)) + ",\"x\":" + ivec(p.x.col(i)) + "}"; }
        return s + "]";
    }
    static std::string out(P& p) {
        std::string s = "{\"valid\":" + std::string(p.valid ? "true" : "false") + ",\"eta\":" + big(p.eta, 5) + ",\"p\":[";
        for (int i = 0; i < N; ++i) { s += (i ? "," : "") + std::string("{\"w\":") + big(p.w[i], 4) + ",\"x\":" + ivec(p.x.col(i)) + "}"; }
        return s + "],\"m\":" + vec(p.mean(), 3) + ",\"C\":" + mat(p.cov(), 3) + "}";
    }
    static void run(const std::string& op) {
        Params par;
        S s;
        s.pD_ = I() / 128.0;
        long pd = std::lround(s.pD_ * 128), side = I();
        cf::LL o; o << I(), I();
        s.fov = fov(o, side);
        if (op == "pf") {
            long kap = I();
            Eigen::Vector2d z = rv<2>(); Eigen::Matrix2d R = rm<2>();
            P* a = read(&par);
            P* b = new P(*a); P* c = new P(*a);
            std::string ia = in(*a);
            a->origin = o; b->origin = o;
            GaussianReport_<2> rep(z, R, kap / 128.0);
            double e1 = a->correct(rep, s), e2 = b->missed(s);
            std::string st = "{\"m\":" + vec(c->mean(), 3) + ",\"C\":" + mat(c->cov(), 3) + "}";
            c->resample();
            Ev("pf").i("pD", pd).i("side", side).i("kap", kap).raw("z", ivec(z)).raw("R", imat(R)).raw("in", ia)
                .raw("cor", out(*a)).raw("ceta", big(e1, 5)).raw("mis", out(*b)).raw("meta", big(e2, 5)).raw("st", st).raw("res", out(*c));
            delete a; delete b; delete c;
        } else {
            int k = I();
            Eigen::Array<double, 1, Eigen::Dynamic> w(1, k);
            std::vector<long> wi;
            for (int j = 0; j < k; ++j) { wi.push_back(I()); w[j] = wi.back() / 128.0; }
            std::vector<P> pdfs;
            for (int j = 0; j < k; ++j) { P* p = read(&par); pdfs.push_back(*p); delete p; }
            std::string ins = list(pdfs, in);
            P* pdf = new P(pdfs[0]);
            P::join(*pdf, w, pdfs);
            Ev("pfjoin").raw("W", ints(wi)).raw("in", ins).raw("out", out(*pdf));
            delete pdf;
        }
    }
};

static std::string b4(const AABBox& b, int limbs) { return "[" + big(b.min[0], limbs) + "," + big(b.min[1], limbs) + "," + big(b.max[0], limbs) + "," + big(b.max[1], limbs) + "]"; }

int main(int, char** argv) {
    std::ifstream f(argv[1]);
    open(argv[2]);
    std::string ln;
    while (std::getline(f, ln)) {
        is = std::istringstream(ln);
        std::string op; is >> op;
        watch();
        Params par;
        if (op == "kal") {
            PositionSensor<T4> s;
            long pd = I(), side = I(), kap = I(), ke = I();
            cf::LL o; o << I(), I();
            s.pD_ = pd / 128.0; s.fov = fov(o, side);
            Eigen::Vector2d z = rv<2>(); Eigen::Matrix2d R = rm<2>();
            G4 g = mixture(&par);
            g.origin = o;
            std::string in = icomps(g);
            G4 h(g);
            GaussianReport_<2> rep(z, R, std::ldexp(kap / 128.0, -ke));
            double eta = g.correct(rep, s), miss = h.missed(s);
            Ev("kal").i("pD", pd).i("side", side).i("kap", kap).i("ke", ke).raw("z", ivec(z)).raw("R", imat(R)).raw("in", in)
                .raw("out", comps(g)).raw("ret", big(eta, 5)).raw("eta", big(g.eta, 5)).raw("miss", big(miss, 4)).b("same", icomps(h) == in);
        } else if (op == "see") {
            // a field of view whose edge or corner is the mean of a Gaussian; in twelfths, how much of it is seen
            PositionSensor<T4> s;
            long pd = I(), th = I(), quad = I(), share = I();
            cf::LL o; o << I(), I();
            Eigen::Matrix2d R = rm<2>();
            Eigen::Rotation2Dd rot(th * M_PI / 180);
            Eigen::Vector2d m; m << I(), I();
            BBox ne;
            double e = quad ? 0 : -5000;
            ne.corners << 5000, 5000, 0, 0, 5000, e, e, 5000;
            ne.corners = ((rot.toRotationMatrix() * ne.corners).colwise() + m).eval();
            s.pD_ = pd / 128.0; s.fov = ne.llbbox(o);
            G4 g(&par); g.origin = o;
            G4::Covariance P; P.setIdentity(); P.topLeftCorner<2, 2>() = R;
            G4::State x; x << m, 0, 0;
            g.c.emplace_back(x, P, 0.75);
            g.c.emplace_back(x, P, 0.25);
            Ev("see").i("pD", pd).i("share", share).raw("miss", big(g.missed(s), 4)).raw("one", big(s.pD(g.c[0], o), 4)).raw("ov", big(g.overlap(ne), 4))
                .raw("ab", big(g.overlap(ne.aabbox()), 4)).b("box", th % 90 == 0);
        } else if (op == "cv" || op == "nm") {
            long r = I(), pS = I(), q = I(), ts4 = I();
            std::vector<long> steps;
            int k = I();
            for (int i = 0; i < k; ++i) { steps.push_back(I()); }
            Eigen::Matrix4d Q; Q.setZero();
            if (op == "nm") { Q = rm<4>(); }
            par.tscale = ts4 / 4.0;
            G4 g = mixture(&par);
            std::string in = icomps(g), pr;
            T4 t(r / 128.0, std::move(g), &par, 0);
            CV<T4> cv(pS / 128.0, q);
            NM<T4> nm(pS / 128.0, Q);
            double now = 1000;
            if (op == "cv") { pr = vec(cv.predict(t.pdf, steps[0] / 4.0), 3); } else { pr = "[]"; }
            for (auto a : steps) {      // a steps of a quarter of the time scale
                double next = now + a / 4.0 * par.tscale;
                if (op == "cv") { cv(&t, next, now); } else { nm(&t, next, now); }
                now = next;
            }
            Ev(op).i("r", r).i("pS", pS).i("q", q).raw("steps", ints(steps)).raw("Q", imat(Q)).raw("in", in).raw("out", comps(t.pdf)).raw("rr", big(t.r, 3)).raw("pr", pr);
        } else if (op == "join3" || op == "plus3") { Mix<3>::run(op.substr(0, 4));
        } else if (op == "join5" || op == "plus5") { Mix<5>::run(op.substr(0, 4));
        } else if (op == "join9" || op == "plus9") { Mix<200>::run(op.substr(0, 4));
        } else if (op == "mom") {
            G4 g = mixture(&par);
            Ev("mom").raw("in", icomps(g)).raw("m", vec(g.mean(), 3)).raw("C", mat(g.cov(), 3)).raw("pos", vec(g.pos(), 3)).raw("vel", vec(g.vel(), 3))
                .raw("pc", mat(g.poscov(), 3)).raw("vc", mat(g.velcov(), 3));
        } else if (op == "pf8" || op == "pfjoin8") { Par<8>::run(op.substr(0, op.size() - 1));
        } else if (op == "pf32" || op == "pfjoin32") { Par<32>::run(op.substr(0, op.size() - 2));
        } else if (op == "gauss") {
            long a = I();
            double n = a / 4.0;
            Eigen::Vector2d x = rv<2>(); Eigen::Matrix2d P = rm<2>();
            Gaussian_<2> g(x, P);
            AABBox ab(x, P, n), ab2 = g.aabbox(n), ab0(P, n), ab3;
            ab3.from_gaussian(x, P, n);
            BBox bb(x, P, n), bb2 = g.bbox(n), bb3;
            bb3.from_gaussian(x, P, n);
            AABBox d = g.aabbox(), d2(x, P, 2.0);
            bool same = b4(ab, 4) == b4(ab2, 4) && b4(ab, 4) == b4(ab3, 4) && (bb.corners - bb2.corners).norm() == 0 && (bb.corners - bb3.corners).norm() == 0
                && b4(d, 4) == b4(d2, 4) && std::abs(ab0.max[0] - (ab.max[0] - x[0])) < 1e-9 && std::abs(ab0.max[1] - (ab.max[1] - x[1])) < 1e-9
                && ab0.max[0] == -ab0.min[0] && ab0.max[1] == -ab0.min[1];
            Ev("gauss").i("a", a).raw("x", ivec(x)).raw("P", imat(P)).raw("ab", b4(ab, 3)).raw("bb", mat(bb.corners.transpose().eval(), 3)).b("same", same);
        } else if (op == "dens") {
            // the density at points: of a Gaussian, a mixture or a target, several times over
            long how = I(), sc = I(), times = I(), n = I();
            Eigen::Array<double, 2, Eigen::Dynamic> pts(2, n);
            Eigen::Array<double, 1, Eigen::Dynamic> res(1, n);
            std::string ps = "[", base = "[";
            for (int i = 0; i < n; ++i) {
                pts(0, i) = I(); pts(1, i) = I();
                long b = I();
                res[i] = b / 128.0;
                ps += (i ? "," : "") + ivec(pts.col(i)); base += (i ? "," : "") + num(b);
            }
            G4 g = mixture(&par);
            std::string in = icomps(g);
            T4 t(sc / 128.0, G4(g), &par, 0);
            for (int k = 0; k < times; ++k) {
                if (how == 0) { for (auto& c : g.c) { c.sampled_pos_pdf(pts, res, sc / 128.0); }
                } else if (how == 1) { g.sampled_pos_pdf(pts, res, sc / 128.0);
                } else if (how == 2) { t.pos_phd(pts, res);
                } else if (how == 3) { for (auto& c : g.c) { c.sampled_pos_pdf(pts, res); }
                } else { g.sampled_pos_pdf(pts, res); }
            }
            bool same = icomps(g) == in && icomps(t.pdf) == in && t.r == sc / 128.0;
            Ev("dens").i("how", how).i("sc", sc).i("times", times).raw("pts", ps + "]").raw("base", base + "]").raw("in", in).raw("out", vec(res, 4)).b("same", same);
        } else if (op == "mixbox") {
            long a = I();
            par.nstd = a / 4.0;
            G4 g = mixture(&par);
            g.update_local_bbox();
            Ev("mixbox").i("a", a).raw("in", icomps(g)).raw("ab", b4(g.aabbox, 3)).raw("bb", mat(g.bbox.corners.transpose().eval(), 3)).raw("llab", b4(g.llaabbox(), 3));
        } else if (op == "boxes") {      // two boxes by their corners, then points
            BBox b[2]; AABBox a[2];
            std::string qs = "[", as = "[", hull = "[", hit = "[", mix = "[";
            for (int i = 0; i < 2; ++i) {
                for (int k = 0; k < 4; ++k) { b[i].corners(0, k) = I(); b[i].corners(1, k) = I(); }
                qs += (i ? "," : "") + imat(b[i].corners.transpose());
            }
            for (int i = 0; i < 2; ++i) {
                double x = I(), y = I(), u = I(), v = I();
                a[i] = AABBox(x, y, u, v);
                as += (i ? "," : "") + ints(std::vector<double>{x, y, u, v});
                hull += (i ? "," : "") + b4(b[i].aabbox(), 3);
            }
            auto B = [](bool x) { return std::string(x ? "1" : "0"); };
            // box/box, axis-aligned/axis-aligned (also as rotated ones), rotated/axis-aligned
            std::string bb = B(b[0].intersects(b[1])) + "," + B(b[1].intersects(b[0]));
            std::string aa = B(a[0].intersects(a[1])) + "," + B(a[1].intersects(a[0])) + "," + B(BBox(a[0]).intersects(BBox(a[1]))) + "," + B(BBox(a[1]).intersects(a[0]));
            std::string ba;
            for (int i = 0; i < 2; ++i) { for (int j = 0; j < 2; ++j) {
                ba += (i + j ? ",[" : "[") + B(b[i].intersects(a[j])) + "," + B(b[i].intersects(BBox(a[j]))) + "," + B(BBox(a[j]).intersects(b[i])) + "]";
            } }
            std::string pts = "[";
            long x;
            while (is >> x) {
                Eigen::Vector2d p; p << x, I();
                Eigen::Vector4d p4; p4 << p, 7, 9;
                pts += std::string(pts.size() > 1 ? "," : "") + "{\"p\":" + ivec(p) + ",\"in\":[" + B(b[0].within(p)) + "," + B(b[1].within(p4)) + "," + B(a[0].within(p)) + "," + B(a[1].within(p4))
                    + "," + B(BBox(a[0]).within(p)) + "," + B(BBox(a[1]).within(p)) + "]}";
            }
            Ev("boxes").raw("q", qs + "]").raw("a", as + "]").raw("hull", hull + "]").raw("bb", "[" + bb + "]").raw("aa", "[" + aa + "]").raw("ba", "[" + ba + "]").raw("pts", pts + "]");
        } else if (op == "points") {
            int n = I();
            Eigen::Matrix<double, 2, Eigen::Dynamic> p(2, n);
            for (int i = 0; i < n; ++i) { p(0, i) = I(); p(1, i) = I(); }
            AABBox b; b.from_points(p);
            Ev("points").raw("p", imat(p.transpose())).raw("ab", b4(b, 3));
        }
    }
    return 0;
}
