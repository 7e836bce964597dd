// The real tracker under threads.  The spatial index and the target list log when an operation on
// them begins and ends, and dawdle in between; densities and models dawdle too.
#include <atomic>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include "common.hpp"
#include <omp.h>
#define RTree RTree_real
#include "RTree.h"
#undef RTree
using namespace vt;

static std::atomic<int> lazy{0};            // microseconds, at most
static std::atomic<bool> logging{false};
static std::mutex mu;
static std::vector<std::string> lines;      // events in the order they happened
static void note(const std::string& s) { std::lock_guard<std::mutex> g(mu); lines.push_back(s); }
static int me() { static std::atomic<int> n{0}; thread_local int k = n++; return k; }
static void dawdle(int part = 1) {
    int z = lazy;
    if (z <= 0) { return; }
    thread_local std::minstd_rand g(me() * 7919 + 17);
    int r = g() % 8;
    if (r < 4) { return; }
    usleep(g() % (z * part / (r < 7 ? 4 : 1) + 1));
}

// What is shared: the list or the index of the tracker under test
static std::set<const void*> watched;
struct Op {
    const char* o; bool w, on, slow;
    Op(const void* p, const char* o_, bool w_, bool slow_ = true) : o(o_), w(w_), on(logging && watched.count(p)), slow(slow_) {
        if (on) { say("b"); if (slow) { dawdle(); } }
    }
    ~Op() { if (on) { if (slow) { dawdle(); } say("f"); } }
    void say(const char* ph) { note(std::string("{\"e\":\"op\",\"th\":") + std::to_string(me()) + ",\"o\":\"" + o + "\",\"w\":" + (w ? "true" : "false") + ",\"ph\":\"" + ph + "\"}"); }
};

template<class D, class E, int N, class R = E, int MAX = 8, int MIN = MAX / 2>
class RTree : public RTree_real<D, E, N, R, MAX, MIN> {
    using B = RTree_real<D, E, N, R, MAX, MIN>;
 public:
    using B::B;
    template<class... A> auto Insert(A&&... a) { Op o(this, "index", true); return B::Insert(std::forward<A>(a)...); }
    template<class... A> auto Remove(A&&... a) { Op o(this, "index", true); return B::Remove(std::forward<A>(a)...); }
    template<class... A> auto RemoveAll(A&&... a) { Op o(this, "index", true); return B::RemoveAll(std::forward<A>(a)...); }
    template<class... A> auto Search(A&&... a) const { Op o(this, "index", false); return B::Search(std::forward<A>(a)...); }
    template<class... A> auto Count(A&&... a) { Op o(this, "index", false); return B::Count(std::forward<A>(a)...); }
};

struct ParPDF;
namespace lmb { template<typename PDF_> struct Target_; }
template<class T> struct OtherAllocator : std::allocator<T> { template<class U> struct rebind { using other = OtherAllocator<U>; }; };
namespace std {
template<> class vector<lmb::Target_<ParPDF>*, allocator<lmb::Target_<ParPDF>*>> : public vector<lmb::Target_<ParPDF>*, OtherAllocator<lmb::Target_<ParPDF>*>> {
    using B = vector<lmb::Target_<ParPDF>*, OtherAllocator<lmb::Target_<ParPDF>*>>;
 public:
    using B::B;
    vector() {}
    vector(const vector& o) : B((Op(&o, "list", false), o)) {}
    vector(vector&& o) : B(static_cast<B&&>(o)) {}
    vector& operator=(const vector& o) { Op a(this, "list", true); Op b(&o, "list", false); B::operator=(o); return *this; }
    vector& operator=(vector&& o) { Op a(this, "list", true); B::operator=(static_cast<B&&>(o)); return *this; }
    template<class... A> void push_back(A&&... a) { Op o(this, "list", true); B::push_back(std::forward<A>(a)...); }
    template<class... A> decltype(auto) emplace_back(A&&... a) { Op o(this, "list", true); return B::emplace_back(std::forward<A>(a)...); }
    template<class... A> auto erase(A&&... a) { Op o(this, "list", true); return B::erase(std::forward<A>(a)...); }
    template<class... A> void clear(A&&... a) { Op o(this, "list", true); B::clear(std::forward<A>(a)...); }
    // going over the list
    auto begin() { { Op o(this, "list", false, false); } return B::begin(); }
    auto begin() const { { Op o(this, "list", false, false); } return B::begin(); }
    void swap(vector& o) { Op a(this, "list", true); B::swap(o); }
};
}

#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
using namespace lmb;

static std::istringstream is;
static long I() { long v = 0; is >> v; return v; }
static std::string num(long v) { return std::to_string(v); }

struct ParReport : public GaussianReport_<2> {
    int rep = 0;
    AABBox box;
    AABBox llaabbox() { return box; }
    void transform_to_local(const cf::LL&) { dawdle(); }
    void transform_to_global(const cf::LL&) { dawdle(); }
};

static std::atomic<int> tags{0};
struct ParPDF : public GM<4> {
    using Base = GM<4>;
    int tag = -1, rep = -1;
    double h = 1;
    ParPDF() {}
    ParPDF(Params* p, const State& m, const Covariance& P) : Base(p) { c.emplace_back(m, P); h = P(0, 0); tag = tags++; dawdle(); box(); }
    void box() { aabbox = AABBox(c[0].x[0] - h, c[0].x[1] - h, c[0].x[0] + h, c[0].x[1] + h); bbox = BBox(aabbox); }
    void transform_to_local(const cf::LL& o) { origin = o; dawdle(); }
    cf::LL transform_to_local() { transform_to_local(pos()); return origin; }
    void transform_to_global() { dawdle(); box(); }
    void normalize() { eta = 1; }
    template<typename Sensor> double correct(const ParReport& z, const Sensor&) {
        dawdle();
        rep = z.rep;
        double d = std::abs(z.x[0] - c[0].x[0]) + std::abs(z.x[1] - c[0].x[1]);
        c[0].x[0] = (c[0].x[0] + z.x[0]) / 2; c[0].x[1] = (c[0].x[1] + z.x[1]) / 2;
        return 4 / (1 + d + z.rep % 3);
    }
    template<typename Sensor> double missed(const Sensor&) { dawdle(); rep = -1; return 0.25 + (tag % 5) / 16.0; }
    template<typename W> static void join(ParPDF& pdf, const W& w, std::vector<ParPDF>& pdfs) {
        dawdle();
        int best = 0;
        for (int k = 0; k < w.cols(); ++k) { if (w(0, k) > w(0, best) + 1e-9) { best = k; } }
        pdf.c = pdfs[best].c;
    }
};

// The real mixtures, dawdling
struct LazyGM : public GM<4> {
    using Base = GM<4>;
    int tag = -1;
    LazyGM() {}
    explicit LazyGM(Params* p) : Base(p) { tag = tags++; }
    LazyGM(Params* p, const State& m, const Covariance& P) : Base(p, m, P) { tag = tags++; dawdle(); }
    void transform_to_local(const cf::LL& o) { dawdle(); Base::transform_to_local(o); }
    cf::LL transform_to_local() { dawdle(); return Base::transform_to_local(); }
    void transform_to_global() { dawdle(); Base::transform_to_global(); }
    template<typename R, typename S> double correct(const R& z, const S& s) { dawdle(); return Base::correct(z, s); }
    template<typename S> double missed(const S& s) { dawdle(); return Base::missed(s); }
    template<typename W> static void join(LazyGM& pdf, const W& w, std::vector<LazyGM>& pdfs) {
        dawdle();
        std::vector<Base> b(pdfs.begin(), pdfs.end());
        Base::join(pdf, w, b);
    }
};

struct Move {
    double dx = 0, pS = 1;
    template<typename T> void operator()(T* t, const double, const double) {
        dawdle();
        auto m = t->pdf.c;
        for (auto& g : m) { g.x[0] += dx; }
        dawdle();
        t->pdf.c = m;
        t->r *= pS;
    }
};

static long coord(double v, double s) { return fx(v, s); }

template<typename PDF> struct World {
    using F = SILMB<PDF>;
    using T = typename F::Target;
    static constexpr bool spy = std::is_same_v<PDF, ParPDF>;
    struct Sensor : public PositionSensor<T> {
        using Report = std::conditional_t<spy, ParReport, GaussianReport_<2>>;
        using Scan = std::vector<Report>;
    };
    std::unique_ptr<F> a, b;     // with one thread, with several
    Sensor sensor;
    double now = 0;
    static constexpr double S = spy ? 1e3 : 1e9, x0 = spy ? 0 : 30, y0 = spy ? 0 : 20;

    std::string target(T* t) {
        auto m = t->pdf.mean(); auto P = t->pdf.cov();
        return "{\"id\":" + num(t->id) + ",\"r\":" + num(fx(t->r, 1e9)) + ",\"cid\":" + num(t->cid) + ",\"tag\":" + num(t->pdf.tag)
            + ",\"x\":[" + num(coord(m[0] - x0, S)) + "," + num(coord(m[1] - y0, S)) + "," + num(fx(m[2], 1e4)) + "," + num(fx(m[3], 1e4)) + "]"
            + ",\"P\":[" + num(fx(P(0, 0), 1e3)) + "," + num(fx(P(0, 1), 1e3)) + "," + num(fx(P(1, 1), 1e3)) + "]}";
    }
    std::string state(F& f) { return list(f.targettree.targets, [&](T* t) { return target(t); }); }
    std::string indexed(F& f) {
        auto q = f.targettree.query(AABBox(-1e5, -1e5, 1e5, 1e5));
        return "{\"n\":" + num(f.targettree.tree.Count()) + ",\"ids\":" + list(q, [](T* t) { return num(t->id); }) + "}";
    }
    std::string outcome(F& f, typename Sensor::Scan& scan) {
        return "{\"post\":" + state(f) + ",\"idx\":" + indexed(f) + ",\"rB\":" + list(scan, [](const typename Sensor::Report& z) { return num(fx(z.rB, 1e9)); })
            + ",\"zc\":" + list(scan, [](const typename Sensor::Report& z) { return num(z.cid); })
            + ",\"ncl\":" + num(f.nof_clusters) + ",\"cnt\":" + ints(f.cluster_ntargets) + ",\"cnr\":" + ints(f.cluster_nreports) + ",\"cnh\":" + ints(f.cluster_nhyps) + "}";
    }
    void drain() { for (auto& x : lines) { fputs((x + "\n").c_str(), out); } fflush(out); lines.clear(); }
    template<typename G> void threaded(int threads, int z, G g) {
        omp_set_num_threads(threads);
        lazy = z;
        watched = {&b->targettree.tree, &b->targettree.targets};
        logging = true;
        g();
        logging = false;
        lazy = 0;
        omp_set_num_threads(1);
    }
    void add(F& f, double r, double x, double y, double h) {
        if constexpr (spy) {
            typename PDF::State m; m << x, y, 0, 0;
            typename PDF::Covariance P; P.setZero(); P(0, 0) = h; P(1, 1) = h;
            f.targettree.new_target(r, PDF(&f.params, m, P), 0);
        } else {
            PDF p(&f.params);
            typename PDF::State m; m << 30 + x / 1e5, 20 + y / 1e5, x / 16, y / 16;
            typename PDF::Covariance P; P.setIdentity(); P(0, 0) = h; P(1, 1) = 2 * h; P(0, 1) = P(1, 0) = h / 4;
            p.c.emplace_back(m, P, 0.75);
            m[0] += 1e-5;
            p.c.emplace_back(m, P, 0.25);
            p.transform_to_local(); p.transform_to_global();
            f.targettree.new_target(r, std::move(p), 0);
        }
    }
    void step(const std::string& op) {
        if (op == "target") {
            double r = I() / 128.0, x = I(), y = I(), h = I();
            int t = tags;
            add(*a, r, x, y, h); tags = t; add(*b, r, x, y, h);
            note("{\"e\":\"added\"}");
        } else if (op == "predict") {
            int threads = I(), z = I(); Move m; m.dx = spy ? I() : I() / 1e5; m.pS = I() / 128.0;
            a->predict(m, now + 1, now);
            int t0 = me();
            note("{\"e\":\"start\",\"threads\":" + num(threads) + "}");
            threaded(threads, z, [&]() { b->predict(m, now + 1, now); });
            note("{\"e\":\"predict\",\"a\":{\"post\":" + state(*a) + ",\"idx\":" + indexed(*a) + "},\"b\":{\"post\":" + state(*b) + ",\"idx\":" + indexed(*b) + "}}");
            now += 1;
        } else if (op == "scan") {
            int threads = I(), z = I(), nest = I(), readers = I();
            sensor.lambdaB = I() / 16.0;
            if constexpr (spy) { sensor.fov = BBox(AABBox(-1e5, -1e5, 1e5, 1e5)); }
            else { sensor.fov = BBox(AABBox(20, 10, 40, 30)); sensor.pD_ = 0.75; sensor.kappa_ = 0.001; }
            int n = I();
            typename Sensor::Scan s;
            for (int j = 0; j < n; ++j) {
                double x = I(), y = I(), h = I();
                if constexpr (spy) {
                    ParReport r; r.rep = j; r.x << x, y; r.P << h, 0, 0, h; r.box = AABBox(x - h, y - h, x + h, y + h); r.rB = -7; r.cid = 77;
                    s.push_back(r);
                } else {
                    Eigen::Vector2d p; p << 30 + x / 1e5, 20 + y / 1e5;
                    Eigen::Matrix2d R; R << h, 0, 0, h;
                    s.emplace_back(sensor, p, R);
                }
            }
            auto s2 = s;
            int t = tags;
            a->correct(sensor, s, now);
            tags = t;
            omp_set_max_active_levels(nest ? 3 : 1);
            note("{\"e\":\"start\",\"threads\":" + num(threads) + "}");
            threaded(threads, z, [&]() {
                std::atomic<bool> done{false};
                std::vector<std::thread> th;
                for (int i = 0; i < readers; ++i) {
                    th.emplace_back([&, i]() {
                        std::minstd_rand g(i + 1);
                        for (int n = 0; n < 40 && !done; ++n) {
                            switch (g() % 4) {
                                case 0: b->enof_targets(); break;
                                case 1: b->nof_targets(); break;
                                case 2: b->get_targets(AABBox(-1e5, -1e5, 1e5, 1e5)); break;
                                case 3: b->enof_targets(AABBox(-1e5, -1e5, 1e5, 1e5)); break;
                            }
                            usleep(g() % 100);
                        }
                    });
                }
                b->correct(sensor, s2, now);
                done = true;
                for (auto& t : th) { t.join(); }
            });
            omp_set_max_active_levels(1);
            note("{\"e\":\"correct\",\"old\":" + num(t) + ",\"a\":" + outcome(*a, s) + ",\"b\":" + outcome(*b, s2) + "}");
            int hi = 0;
            for (auto f : {a.get(), b.get()}) { for (auto u : f->targettree.targets) { hi = std::max(hi, u->pdf.tag + 1); } }
            tags = hi;
            // from here on both go on with the same targets
            resync();
        } else if (op == "race") { race(); }
    }
    // the trackers agree up to names of newborns; make the second a copy of the first
    void resync() {
        auto c = std::make_unique<F>(a->params);
        unsigned next = a->targettree.id_counter;
        for (auto t : a->targettree.targets) {
            PDF p(t->pdf); p.params = &c->params;
            int tg = p.tag;
            auto u = c->targettree.new_target(t->r, std::move(p), t->t0);
            u->pdf.tag = tg; u->id = t->id; u->cid = t->cid; u->is_new = t->is_new;
        }
        c->targettree.id_counter = next;
        b = std::move(c);
    }
    // Predictions and queries at the same time, from several threads.
    void race() {
        if constexpr (spy) {
            int writers = I(), readers = I(), gens = I(), z = I(), asks = I();
            Move m; m.dx = I(); m.pS = 0.5;
            std::vector<std::string> pre;
            note("{\"e\":\"race\",\"dx\":" + num(m.dx) + ",\"rl\":" + num(std::lround(b->params.r_lim * (1 << 20))) + ",\"pre\":" + list(b->targettree.targets, [](T* t) {
                return "{\"id\":" + num(t->id) + ",\"r\":" + num(std::lround(t->r * 128)) + ",\"x\":" + num(std::lround(t->pdf.c[0].x[0])) + ",\"y\":" + num(std::lround(t->pdf.c[0].x[1])) + ",\"h\":" + num(std::lround(t->pdf.h)) + "}"; }) + "}");
            std::vector<AABBox> regions;
            long k;
            while (is >> k) { double q = I(), c = I(), d = I(); regions.emplace_back(k, q, c, d); }
            threaded(2, z, [&]() {
                std::vector<std::thread> th;
                std::atomic<int> left{gens};
                std::atomic<bool> done{false};
                for (int i = 0; i < writers; ++i) {
                    th.emplace_back([&, i]() {
                        while (left-- > 0) {
                            omp_set_num_threads(2);
                            note("{\"e\":\"pb\"}");
                            b->predict(m, 1, 0);
                            note("{\"e\":\"pe\"}");
                            usleep(100 + 200 * i);
                        }
                    });
                }
                std::atomic<int> qid{0};
                for (int i = 0; i < readers; ++i) {
                    th.emplace_back([&, i]() {
                        std::minstd_rand g(i + 5);
                        for (int n = 0; n < asks && !(done && n > 3); ++n) {
                            usleep(g() % 300);
                            int id = qid++, kind = g() % 9, rg = g() % regions.size();
                            auto& R = regions[rg];
                            note("{\"e\":\"qb\",\"q\":" + num(id) + "}");
                            std::string v;
                            auto summ = [](const typename F::TargetSummaries& s) { return list(s, [](const typename F::TargetSummaries::value_type& t) {
                                return "[" + num(t.id) + "," + num(std::lround(t.r * (1 << 20))) + "," + num(std::lround(t.x[0])) + "," + num(std::lround(t.x[1])) + "]"; }); };
                            double lim = 1.0 / (1 << (g() % 6));
                            typename F::TargetStates truth(12, F::PDF::State::Zero());
                            cf::LL o; o.setZero();
                            switch (kind) {
                                case 0: v = num(std::lround(b->enof_targets() * (1 << 20))); break;
                                case 1: v = num(std::lround(b->enof_targets(R) * (1 << 20))); break;
                                case 2: v = num(b->nof_targets(lim)); break;
                                case 3: v = num(b->nof_targets(R, lim)); break;
                                case 4: v = summ(b->get_targets()); break;
                                case 5: v = summ(b->get_targets(R)); break;
                                case 7: v = num(fx(b->gospa(truth, o, 1000, 1), 1e4)); break;
                                case 8: v = num(fx(b->pos_phd(AABBox(-60, -60, 60, 60), Eigen::Array2i(1, 1))(0, 0), 1 << 20)); break;
                                case 6: v = num(fx(b->ospa(truth, o, 1000, 1), 1e4)); break;
                            }
                            note("{\"e\":\"qe\",\"q\":" + num(id) + ",\"k\":" + num(kind) + ",\"lim\":" + num(std::lround(lim * (1 << 20)))
                                + ",\"b\":" + ints(std::vector<double>{R.min[0], R.min[1], R.max[0], R.max[1]}) + ",\"v\":" + v + "}");
                        }
                    });
                }
                for (int i = 0; i < writers; ++i) { th[i].join(); }
                done = true;
                for (unsigned i = writers; i < th.size(); ++i) { th[i].join(); }
            });
            note("{\"e\":\"rest\",\"gens\":" + num(gens) + ",\"v\":" + list(b->targettree.targets, [](T* t) {
                return "[" + num(t->id) + "," + num(std::lround(t->r * (1 << 20))) + "," + num(std::lround(t->pdf.c[0].x[0])) + "," + num(std::lround(t->pdf.c[0].x[1])) + "]"; }) + ",\"idx\":" + indexed(*b) + "}");
        }
    }
};

int main(int, char** argv) {
    std::ifstream in(argv[1]);
    open(argv[2]);
    omp_set_num_threads(1);
    omp_set_dynamic(0);
    me();
    World<ParPDF> s; World<LazyGM> g;
    bool real = false;
    std::string ln;
    while (std::getline(in, ln)) {
        is = std::istringstream(ln);
        std::string op; is >> op;
        watch();
        if (op == "new") {
            real = I() == 1;
            Params par; par.cov_lim = 1e12; par.w_lim = 0; par.nhyp_max = 100000; par.cw_lim = 0;
            par.r_lim = I() / 1024.0;
            tags = 0;
            s.a.reset(new SILMB<ParPDF>(par)); s.b.reset(new SILMB<ParPDF>(par)); s.now = 0;
            g.a.reset(new SILMB<LazyGM>(par)); g.b.reset(new SILMB<LazyGM>(par)); g.now = 0;
            note("{\"e\":\"new\"}");
        } else if (real) { g.step(op); } else { s.step(op); }
        s.drain();
    }
    return 0;
}
