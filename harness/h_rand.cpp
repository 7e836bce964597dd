// Samples: sums over what the code draws for exact inputs.
#include "common.hpp"
#include <atomic>
#include <thread>
#include "gm.hpp"
#include "gaussian.hpp"
#include "pf.hpp"
#include "statistics.hpp"
using namespace vt;
using namespace lmb;

static std::string bl(const std::vector<long double>& v) { return list(v, [](long double x) { return big(static_cast<double>(x), 2); }); }

// sums of deviations from mu; second moments; products of neighbours; within 1 and 2 deviations; along u; within the ellipse
template<int S> static void sums(Ev& ev, const Eigen::Matrix<double, S, Eigen::Dynamic>& x, const Eigen::Matrix<double, S, 1>& mu, const Eigen::Matrix<double, S, S>& P, const Eigen::Matrix<double, S, 1>& u) {
    std::vector<long double> s1(S), s2(S * S), lag(S), along(1);
    std::vector<long> c1(S), c2(S);
    bool finite = true;
    for (int k = 0; k < x.cols(); ++k) {
        Eigen::Matrix<double, S, 1> d = x.col(k) - mu;
        for (int i = 0; i < S; ++i) {
            finite = finite && std::isfinite(d[i]);
            s1[i] += d[i];
            for (int j = 0; j < S; ++j) { s2[i * S + j] += d[i] * d[j]; }
            if (k) { lag[i] += d[i] * (x(i, k - 1) - mu[i]); }
            c1[i] += d[i] * d[i] <= P(i, i);
            c2[i] += d[i] * d[i] <= 4 * P(i, i);
        }
        along[0] += u.dot(d) * u.dot(d);
    }
    ev.b("finite", finite).raw("s1", bl(s1)).raw("s2", bl(s2)).raw("lag", bl(lag)).raw("c1", ints(c1)).raw("c2", ints(c2)).raw("along", bl(along));
}

// a mixture of one, without the constructor's way over degrees
template<int S> static GM<S> one(Params* params, const Eigen::Matrix<double, S, 1>& mu, const Eigen::Matrix<double, S, S>& P) {
    GM<S> g(params);
    g.c.emplace_back(mu, P, 1.0);
    return g;
}

template<int S> static void gauss(std::istream& in) {
    int how, N; in >> how >> N;
    Eigen::Matrix<double, S, 1> mu, u; Eigen::Matrix<double, S, S> P;
    for (int i = 0; i < S; ++i) { in >> mu[i]; }
    for (int i = 0; i < S; ++i) { for (int j = 0; j <= i; ++j) { in >> P(i, j); P(j, i) = P(i, j); } }
    for (int i = 0; i < S; ++i) { in >> u[i]; }
    Eigen::Matrix<double, S, Eigen::Dynamic> x(S, N);
    Params params;
    Ev ev("gauss");
    ev.i("N", N).i("how", how).raw("mu", ints(mu)).raw("P", list(std::vector<int>{0}, [&](int) { std::string s; for (int i = 0; i < S * S; ++i) { s += (i ? "," : "") + std::to_string(long(P(i / S, i % S))); } return s; })).raw("u", ints(u));
    if (how == 0) { nrand(x, mu, P); }
    if (how == 1) { Gaussian_<S>(mu, P).sample(x); }
    if (how == 2) { one<S>(&params, mu, P).sample(x); }
    if (how == 4) { for (int k = 0; k < N; ++k) { auto c = x.col(k); nrand(c, mu, P); } }
    if (how == 3) {
        Eigen::Matrix<double, 2, Eigen::Dynamic> y(2, N);
        if (N % 2) { one<S>(&params, mu, P).sample_pos(y); } else { Gaussian_<S>(mu, P).sample_pos(y); }
        x.topRows(2) = y;
        if (S > 2) {
            Eigen::Matrix<double, S, Eigen::Dynamic> z(S, N);
            Gaussian_<S>(mu, P).sample(z);
            x = z; x.topRows(2) = y;
        }
        Eigen::Matrix<double, 2, 1> m2 = mu.template head<2>(), u2 = u.template head<2>();
        Eigen::Matrix2d P2 = P.template topLeftCorner<2, 2>();
        // only the position is drawn
        ev.i("S", 2);
        sums<2>(ev, y, m2, P2, u2);
        return;
    }
    ev.i("S", S);
    sums<S>(ev, x, mu, P, u);
}

int main(int, char** argv) {
    std::ifstream in(argv[1]);
    open(argv[2]);
    std::string op;
    while (in >> op) {
        watch();
        if (op == "gauss2") { gauss<2>(in); }
        if (op == "gauss4") { gauss<4>(in); }
        if (op == "unit") {
            int N; in >> N;
            std::vector<long> bins(20);
            bool inside = true;
            std::vector<long double> m(2);
            double prev = 0, lo = 1, hi = 0;
            for (int i = 0; i < N; ++i) {
                double u = urand();
                inside = inside && u >= 0 && u < 1;
                lo = std::min(lo, u); hi = std::max(hi, u);
                bins[std::min(19, std::max(0, int(u * 20)))]++;
                m[0] += u - 0.5;
                m[1] += (u - 0.5) * prev;
                prev = u - 0.5;
            }
            Ev("unit").i("N", N).raw("bins", ints(bins)).b("inside", inside).b("reaches", lo * N < 30 && (1 - hi) * N < 30).raw("m", bl(m));
        }
        if (op == "normal") {       // counts between half deviations
            int N; in >> N;
            std::vector<long> bins(18);
            std::vector<long double> m(3);
            double prev = 0;
            for (int i = 0; i < N; ++i) {
                double x = nrand();
                bins[x < -4 ? 0 : x >= 4 ? 17 : int(std::floor(x * 2)) + 9]++;
                m[0] += x; m[1] += x * x; m[2] += x * prev;
                prev = x;
            }
            Ev("normal").i("N", N).raw("bins", ints(bins)).raw("m", bl(m));
        }
        if (op == "streams") {
            int N, T; in >> N >> T;
            std::vector<std::vector<double>> v(T, std::vector<double>(N));
            std::vector<std::thread> th;
            // each draws its first alone: this processor's RDSEED was seen to give two cores the same number at the same instant
            std::atomic<int> turn{0};
            for (int t = 0; t < T; ++t) {
                th.emplace_back([&, t]() {
                    while (turn < t) { std::this_thread::yield(); }
                    nrand();
                    ++turn;
                    while (turn < T) { std::this_thread::yield(); }
                    for (auto& x : v[t]) { x = nrand(); }
                });
            }
            for (auto& t : th) { t.join(); }
            std::vector<long double> cross, own;
            for (int a = 0; a < T; ++a) {
                long double s = 0, q = 0;
                for (double x : v[a]) { s += x; q += x * x; }
                own.push_back(s); own.push_back(q);
                for (int b = a + 1; b < T; ++b) { long double c = 0; for (int i = 0; i < N; ++i) { c += v[a][i] * v[b][i]; } cross.push_back(c); }
            }
            Ev("streams").i("N", N).i("T", T).raw("cross", bl(cross)).raw("own", bl(own));
        }
        if (op == "mix") {          // components a thousand deviations apart
            int how, N, K; in >> how >> N >> K;
            Params params;
            GM<2> g(&params);
            std::vector<int> w(K);
            for (int i = 0; i < K; ++i) { in >> w[i]; g.c.emplace_back(Eigen::Vector2d(1000 * i, -2000 * i), Eigen::Matrix2d::Identity() * (i + 1), w[i] / 128.0); }
            Eigen::Matrix<double, 2, Eigen::Dynamic> x(2, N);
            x.setConstant(-1e9);
            if (how) { g.sample(x); } else { g.sample_pos(x); }
            std::vector<long> got(K);
            for (int k = 0; k < N; ++k) {
                for (int i = 0; i < K; ++i) { if (std::abs(x(0, k) - 1000 * i) < 100 && std::abs(x(1, k) + 2000 * i) < 100) { ++got[i]; } }
            }
            Ev("mix").i("N", N).raw("w", ints(w)).raw("got", ints(got));
        }
        if (op == "share") {        // mean share of a box of a1..b1, a2..b2 half deviations, turned by th, of a round or upright Gaussian
            int how, R, s, t, th, a1, b1, a2, b2; in >> how >> R >> s >> t >> th >> a1 >> b1 >> a2 >> b2;
            Eigen::Vector4d m(50, -30, 3, 4); Eigen::Vector4d d(s * s, t * t, 2, 3); Eigen::Matrix4d P = d.asDiagonal();
            Gaussian_<4> g(m, P, 0.5);
            Params params;
            GM<4> gm = one<4>(&params, m, P);
            double c = std::cos(th * M_PI / 180), q = std::sin(th * M_PI / 180);
            auto at = [&](double x, double y) { x *= s / 2.0; y *= t / 2.0; return Eigen::Vector2d(m[0] + c * x - q * y, m[1] + q * x + c * y); };
            BBox::Corners k; k << at(a1, a2), at(a1, b2), at(b1, b2), at(b1, a2);
            BBox bb(k);
            long double sum = 0; bool unit = true;
            for (int r = 0; r < R; ++r) {
                double o = how == 0 ? g.overlap(bb) : how == 1 ? g.overlap(bb.aabbox()) : how == 2 ? gm.overlap(bb) : gm.overlap(bb.aabbox());
                unit = unit && o >= 0 && o <= 1;
                sum += o;
            }
            Ev("share").i("R", R).b("unit", unit).raw("box", ints(std::vector<int>{a1, b1, a2, b2})).raw("sum", big(sum, 2));
        }
    }
    return 0;
}
