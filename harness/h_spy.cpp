// The real tracker (SILMB, Cluster, Target, TargetTree, PositionSensor) over a density that keeps
// account of what is done to it: its likelihoods, shares and shapes come from the script.
// Geographic and local frames coincide, but a density knows which of them it is in.
#include <map>
#include <set>
#include "common.hpp"
#include <omp.h>
#include "gm.hpp"
#include "lmb.hpp"
using namespace vt;
using namespace lmb;

struct Cand { int tag, rep; double l; bool local; };
struct Join { int tag; std::vector<std::pair<int, double>> w; double miss; bool local; };
struct Logs {
    std::vector<Cand> cands;
    std::vector<std::pair<int, double>> misses;
    std::vector<Join> joins;
    std::vector<int> modelled;
};
static Logs logs;      // only one thread: OMP_NUM_THREADS=1
static int tags = 0;

struct Table { std::vector<std::vector<int>> l; std::vector<int> pm; std::vector<int> ex; };
static Table table;
static std::vector<int> etas{128};

struct SpyReport : public GaussianReport_<2> {
    int rep = 0;
    AABBox box;
    int ex = 0, ey = 0, ehx = 1, ehy = 1, evar = 1;    // what a density corrected by it looks like
    bool local = false;
    AABBox llaabbox() { return box; }
    void transform_to_local(const cf::LL&) { local = true; }
    void transform_to_global(const cf::LL&) { local = false; }
};

struct SpyPDF : public GM<4> {
    using Base = GM<4>;
    int tag = -1, rep = -1;
    double hx = 1, hy = 1;
    bool local = false;

    SpyPDF() {}
    SpyPDF(Params* p, const State& m, const Covariance& P) : Base(p) {
        c.emplace_back(m, P);
        hx = P(0, 0); hy = P(1, 1);
        tag = tags++;
        box();
    }
    void box() {
        double x = c[0].x[0], y = c[0].x[1];
        aabbox = AABBox(x - hx, y - hy, x + hx, y + hy);
        bbox = BBox(aabbox);
    }
    void transform_to_local(const cf::LL& o) { origin = o; local = true; }
    cf::LL transform_to_local() { transform_to_local(pos()); return origin; }
    void transform_to_global() { box(); local = false; }
    void normalize() { eta = etas[tag % etas.size()] / 128.0; }

    template<typename Sensor>
    double correct(const SpyReport& z, const Sensor&) {
        rep = z.rep;
        int a = tag % table.l.size();
        int l = table.l[a][z.rep];
        logs.cands.push_back({tag, z.rep, double(l), local && z.local});
        c[0].x[0] = z.ex; c[0].x[1] = z.ey; hx = z.ehx; hy = z.ehy;
        c[0].P.setZero();
        c[0].P(0, 0) = 3 * z.evar; c[0].P(1, 1) = 4 * z.evar;    // norm 5 evar
        return std::ldexp(l / 128.0, table.ex[a]);
    }
    template<typename Sensor>
    double missed(const Sensor&) {
        rep = -1;
        int a = tag % table.pm.size();
        logs.misses.push_back({tag, double(table.pm[a])});
        return table.pm[a] / 128.0;
    }
    template<typename W>
    static void join(SpyPDF& pdf, const W& w, std::vector<SpyPDF>& pdfs) {
        Join j{pdf.tag, {}, -1, pdf.local};
        int best = 0;
        for (int k = 0; k < w.cols(); ++k) {
            if (pdfs[k].rep < 0) { j.miss = w(0, k); } else { j.w.push_back({pdfs[k].rep, w(0, k)}); }
            if (w(0, k) > w(0, best)) { best = k; }
        }
        logs.joins.push_back(j);
        pdf.c = pdfs[best].c; pdf.hx = pdfs[best].hx; pdf.hy = pdfs[best].hy;
    }
};
using Filter = SILMB<SpyPDF>;
using Target = Target_<SpyPDF>;

struct SpySensor : public PositionSensor<Target> {
    using Report = SpyReport;
    using Scan = std::vector<SpyReport>;
};

struct SpyModel {
    int dx, dy, grow, dvar; double pS;
    void operator()(Target* t, const double, const double) {
        logs.modelled.push_back(t->pdf.tag);
        auto& g = t->pdf.c[0];
        g.x[0] += dx; g.x[1] += dy;
        t->pdf.hx += grow; t->pdf.hy += grow;
        g.P(0, 0) += 3 * dvar; g.P(1, 1) += 4 * dvar;
        t->r *= pS;
    }
};

static std::string bx(const AABBox& b) { return ints(std::vector<double>{b.min[0], b.min[1], b.max[0], b.max[1]}); }
static std::string num(long v) { return std::to_string(v); }

static std::string targets(Filter& f) {
    return list(f.targettree.targets, [](Target* t) {
        auto& p = t->pdf; auto& g = p.c[0];
        double k = t->r * 128;
        return "{\"id\":" + num(t->id) + ",\"r\":" + num(fx(t->r, 1e9)) + ",\"rx\":" + (k == std::round(k) ? num(k) : "-1")
            + ",\"tag\":" + num(p.tag) + ",\"x\":" + ints(std::vector<double>(g.x.data(), g.x.data() + 4))
            + ",\"h\":" + ints(std::vector<double>{p.hx, p.hy})
            + ",\"P\":" + ints(std::vector<double>{g.P(0, 0), g.P(1, 1), g.P(2, 2), g.P(3, 3), g.P(0, 1), g.P(0, 2), g.P(2, 3)})
            + ",\"box\":" + bx(t->llaabbox()) + ",\"cid\":" + num(t->cid) + ",\"t0\":" + num(fx(t->t0, 1))
            + ",\"local\":" + (p.local ? "true" : "false") + "}";
    });
}

static int idof(Filter& f, Target* t) {
    for (auto u : f.targettree.targets) { if (u == t) { return u->id; } }
    return -1;
}

// What the index answers: everywhere, at the corners of each target's box, and just outside its sides
static bool sane = true;
static std::string index(Filter& f) {
    std::vector<AABBox> ps;
    ps.emplace_back(-1e6, -1e6, 1e6, 1e6);
    for (auto t : f.targettree.targets) {
        auto b = t->llaabbox();
        for (double x : {b.min[0], b.max[0]}) { for (double y : {b.min[1], b.max[1]}) { ps.emplace_back(x, y, x, y); } }
        ps.emplace_back(b.min[0] - 1, b.min[1], b.min[0] - 1, b.max[1]);
        ps.emplace_back(b.max[0] + 1, b.min[1], b.max[0] + 1, b.max[1]);
        ps.emplace_back(b.min[0], b.min[1] - 1, b.max[0], b.min[1] - 1);
        ps.emplace_back(b.min[0], b.max[1] + 1, b.max[0], b.max[1] + 1);
    }
    sane = true;
    return "{\"n\":" + num(f.targettree.tree.Count()) + ",\"q\":" + list(ps, [&](const AABBox& b) {
        auto r = f.targettree.query(b);
        return "{\"b\":" + bx(b) + ",\"ids\":" + list(r, [&](Target* t) { int i = idof(f, t); if (i < 0) { sane = false; } return num(i); }) + "}";
    }) + "}";
}

static std::string pairs(const std::vector<std::pair<int, double>>& v, double s) {
    return list(v, [s](const std::pair<int, double>& p) { return "[" + num(p.first) + "," + num(fx(p.second, s)) + "]"; });
}

static std::string outcome(Filter& f, SpySensor::Scan& scan) {
    std::string s = "{\"reports\":" + list(scan, [](const SpyReport& z) {
        return "{\"rep\":" + num(z.rep) + ",\"box\":" + bx(z.box) + ",\"x\":" + ints(std::vector<double>{z.x[0], z.x[1]})
            + ",\"P\":" + ints(std::vector<double>{z.P(0, 0), z.P(1, 1), z.P(0, 1)})
            + ",\"rB\":" + num(fx(z.rB, 1e9)) + ",\"one\":" + (z.rB == 1.0 ? "true" : "false")
            + ",\"cid\":" + num(z.cid) + ",\"local\":" + (z.local ? "true" : "false") + "}";
    });
    s += ",\"cands\":" + list(logs.cands, [](const Cand& c) { return "{\"tag\":" + num(c.tag) + ",\"rep\":" + num(c.rep) + ",\"l\":" + num(c.l) + ",\"local\":" + (c.local ? "true" : "false") + "}"; });
    s += ",\"misses\":" + pairs(logs.misses, 1);
    s += ",\"joins\":" + list(logs.joins, [](const Join& j) { return "{\"tag\":" + num(j.tag) + ",\"w\":" + pairs(j.w, 1e9) + ",\"miss\":" + num(fx(j.miss, 1e9)) + ",\"local\":" + (j.local ? "true" : "false") + "}"; });
    s += ",\"ncl\":" + num(f.nof_clusters) + ",\"cnt\":" + ints(f.cluster_ntargets) + ",\"cnr\":" + ints(f.cluster_nreports) + ",\"cnh\":" + ints(f.cluster_nhyps);
    s += ",\"post\":" + targets(f) + "}";
    return s;
}

static std::string corners(const BBox& b) {
    std::string s = "[";
    for (int i = 0; i < 4; ++i) { s += (i ? ",[" : "[") + num(fx(b.corners(0, i), 1)) + "," + num(fx(b.corners(1, i), 1)) + "]"; }
    return s + "]";
}

static Target* add(Filter& f, double r, double x, double y, double hx, double hy, double var) {
    SpyPDF::State m; m << x, y, 0, 0;
    SpyPDF::Covariance P; P.setZero(); P(0, 0) = 3 * var; P(1, 1) = 4 * var;
    SpyPDF p(&f.params, m, P);
    p.hx = hx; p.hy = hy; p.box();
    return f.targettree.new_target(r, std::move(p), 0);
}

static std::string summaries(const Filter::TargetSummaries& s) {
    return list(s, [](const Filter::TargetSummaries::value_type& t) {
        return "{\"id\":" + num(t.id) + ",\"r\":" + num(fx(t.r, 1e9)) + ",\"cid\":" + num(t.cid)
            + ",\"x\":" + ints(std::vector<double>(t.x.data(), t.x.data() + 4))
            + ",\"P\":" + ints(std::vector<double>{t.P(0, 0), t.P(1, 1), t.P(2, 2), t.P(3, 3), t.P(0, 1), t.P(0, 2), t.P(2, 3)}) + "}";
    });
}

int main(int, char** argv) {
    std::ifstream in(argv[1]);
    open(argv[2]);
    omp_set_num_threads(1);
    Filter* f = nullptr;
    Params par;
    SpySensor sensor;
    double lam = 128;
    double now = 0;
    std::string ln;
    while (std::getline(in, ln)) {
        std::istringstream is(ln);
        std::string op; is >> op;
        auto I = [&]() { long v = 0; is >> v; return v; };
        watch();
        logs = Logs();
        if (op == "new") {
            double rl = I(), wn = I(), wd = I(), nh = I(), rb = I(), cl = I();
            par = Params();
            par.r_lim = rl / 128; par.w_lim = wn / wd; par.nhyp_max = nh; par.rB_max = rb / 128; par.cov_lim = cl;
            delete f; f = new Filter(par);
            sensor = SpySensor(); lam = 128; now = 0;
            etas = {128};
            Ev("new").i("r_lim", rl).i("wn", wn).i("wd", wd).i("nh", nh).i("rB_max", rb).i("cov_lim", cl);
            continue;
        }
        if (op == "fov") {
            if (I() == 0) { double a = I(), b = I(), c = I(), d = I(); sensor.fov = BBox(AABBox(a, b, c, d)); }
            else { double x = I(), y = I(), d = I(); sensor.fov.corners << x, x + d, x, x - d, y + d, y, y - d, y; }
        } else if (op == "sensor") {
            lam = I(); sensor.lambdaB = lam / 128; double a = I(), b = I(); sensor.pv << a, 0, 0, b;
        } else if (op == "table") {
            int A = I(), N = I();
            table = Table();
            for (int a = 0; a < A; ++a) {
                std::vector<int> r(N); for (int& v : r) { v = I(); }
                table.l.push_back(r); table.pm.push_back(I()); table.ex.push_back(I());
            }
        } else if (op == "target") {
            double k = I(), x = I(), y = I(), hx = I(), hy = I(), var = I();
            add(*f, k / 128, x, y, hx, hy, var);
            Ev("added").raw("post", targets(*f)).raw("idx", index(*f));
        } else if (op == "poke") {
            std::vector<double> ks; long v; while (is >> v) { ks.push_back(v); }
            unsigned i = 0;
            for (auto t : f->targettree.targets) { t->r = ks[i++ % ks.size()] / 128; }
            Ev("poke").raw("post", targets(*f));
        } else if (op == "predict") {
            SpyModel m; m.dx = I(); m.dy = I(); m.grow = I(); m.dvar = I(); int ps = I(); m.pS = ps / 128.0;
            etas.clear(); long v; while (is >> v) { etas.push_back(v); }
            f->predict(m, now + 1, now);
            std::string x = index(*f);
            Ev("predict").raw("m", ints(std::vector<int>{m.dx, m.dy, m.grow, m.dvar, ps})).raw("etas", ints(etas))
                .raw("modelled", ints(logs.modelled)).raw("post", targets(*f)).raw("idx", x);
            now += 1;
        } else if (op == "scan" || op == "twin") {
            int N = I();
            SpySensor::Scan scan(N);
            for (int j = 0; j < N; ++j) {
                auto& z = scan[j];
                z.rep = j; double x = I(), y = I(), hx = I(), hy = I();
                z.x << x, y; z.P << hx, 0, 0, hy; z.box = AABBox(x - hx, y - hy, x + hx, y + hy); z.rB = -7;
                z.ex = I(); z.ey = I(); z.ehx = I(); z.ehy = I(); z.evar = I(); z.cid = 77;
            }
            if (op == "scan") {
                std::string pre = list(scan, [](const SpyReport& z) {
                    return "{\"x\":" + ints(std::vector<double>{z.x[0], z.x[1]}) + ",\"box\":" + bx(z.box) + ",\"P\":" + ints(std::vector<double>{z.P(0, 0), z.P(1, 1), z.P(0, 1)})
                        + ",\"evar\":" + num(z.evar) + "}"; });
                f->correct(sensor, scan, now);
                std::string x = index(*f), o = outcome(*f, scan);
                Ev("correct").i("time", fx(now, 1)).i("lam", lam).raw("fov", corners(sensor.fov))
                    .raw("pv", ints(std::vector<double>{sensor.pv(0, 0), sensor.pv(1, 1)})).raw("in", pre).raw("o", o).raw("idx", x);
            } else {
                // the same scan on a copy of the tracker, whole, and with each group alone
                auto run = [&](const std::set<int>& tg, const std::set<int>& reps) {
                    Filter g(f->params);
                    for (auto t : f->targettree.targets) {
                        if (!tg.count(t->pdf.tag)) { continue; }
                        SpyPDF p(t->pdf); p.params = &g.params;
                        g.targettree.new_target(t->r, std::move(p), t->t0);
                    }
                    SpySensor::Scan sc;
                    for (auto& z : scan) { if (reps.count(z.rep)) { sc.push_back(z); } }
                    logs = Logs();
                    SpySensor s(sensor);
                    s.lambdaB = 0;    // births depend on the whole scan
                    g.correct(s, sc, now);
                    return std::make_pair(outcome(g, sc), sc);
                };
                std::set<int> tg, reps;
                for (auto t : f->targettree.targets) { tg.insert(t->pdf.tag); }
                for (auto& z : scan) { reps.insert(z.rep); }
                auto whole = run(tg, reps);
                std::map<unsigned, std::pair<std::set<int>, std::set<int>>> groups;
                std::map<int, unsigned> of;
                for (auto& z : whole.second) { groups[z.cid].second.insert(z.rep); of[z.rep] = z.cid; }
                for (auto& c : logs.cands) { groups[of[c.rep]].first.insert(c.tag); }
                std::string parts = "[";
                for (auto& kv : groups) { parts += (parts.size() > 1 ? "," : "") + run(kv.second.first, kv.second.second).first; }
                Ev("twin").raw("whole", whole.first).raw("parts", parts + "]").raw("post", targets(*f));
            }
        } else if (op == "queries") {
            std::vector<AABBox> rs; long a;
            while (is >> a) { double b = I(), c = I(), d = I(); rs.emplace_back(a, b, c, d); }
            index(*f);
            if (!sane) { Ev("insane"); break; }
            std::string all = "{\"enof\":" + num(fx(f->enof_targets(), 1e6)) + ",\"sum\":" + summaries(f->get_targets())
                + ",\"nofd\":" + num(f->nof_targets()) + ",\"nof\":[";
            for (int k = 0; k <= 128; k += 8) { all += (k ? "," : "") + num(f->nof_targets(k / 128.0)); }
            all += "]}";
            std::string reg = list(rs, [&](const AABBox& b) {
                std::string s = "{\"b\":" + bx(b) + ",\"enof\":" + num(fx(f->enof_targets(b), 1e6)) + ",\"sum\":" + summaries(f->get_targets(b))
                    + ",\"nofd\":" + num(f->nof_targets(b)) + ",\"nof\":[";
                for (int k = 0; k <= 128; k += 8) { s += (k ? "," : "") + num(f->nof_targets(b, k / 128.0)); }
                return s + "]}";
            });
            Ev("queries").raw("all", all).raw("reg", reg).raw("post", targets(*f)).raw("idx", index(*f));
        }
        if (f && !sane) { break; }
    }
    return 0;
}
