// Drives lap() and Murty over the matrices of a script.
//   lap <r|c|n|m> rows cols v...  (X is an infinite cost; r/c: row or column major; n/m: the same,
//                                  every cost off by up to 10^-9, so that none are equal)
//   murty draws rows cols v...
//   lap@e and murty@e do the same with every cost times 2^e, which changes nothing but the unit
#include "common.hpp"
#include "murty.hpp"
using namespace vt;
static const long INF = 1000000000;

using Mat = std::vector<std::vector<long>>;

// Reference solver on integers (shortest augmenting paths with potentials, written here):
// only used to hand the specification a certificate, which it checks itself.
struct Cert { bool ok; std::vector<long> u, v; std::vector<int> hall; };
static Cert certify(const Mat& C) {
    int n = C.size(), m = C[0].size();
    Cert r; r.ok = true;
    {   // feasibility first
        std::vector<int> match(m, -1);
        for (int i = 0; i < n; ++i) {
            std::vector<int> rows{i}; std::vector<char> seenr(n, 0), seenc(m, 0); std::vector<int> par(m, -1);
            seenr[i] = 1; int end = -1;
            for (size_t k = 0; k < rows.size() && end < 0; ++k) {
                for (int j = 0; j < m; ++j) {
                    if (C[rows[k]][j] >= INF || seenc[j]) { continue; }
                    seenc[j] = 1; par[j] = rows[k];
                    if (match[j] < 0) { end = j; break; }
                    if (!seenr[match[j]]) { seenr[match[j]] = 1; rows.push_back(match[j]); }
                }
            }
            if (end < 0) { r.ok = false; for (int k : rows) { r.hall.push_back(k + 1); } return r; }
            while (end >= 0) {
                int row = par[end], prev = -1;
                for (int j = 0; j < m; ++j) { if (match[j] == row) { prev = j; } }
                match[end] = row;
                end = row == i ? -1 : prev;
            }
        }
    }
    long BIG = 1;   // stands for infinity: more than any finite assignment costs
    for (auto& row : C) {
        long w = 0;
        for (long x : row) { if (x < INF) { w = std::max(w, std::labs(x)); } }
        BIG += 2 * w;
    }
    std::vector<long> u(n + 1, 0), v(m + 1, 0);
    std::vector<int> p(m + 1, 0), way(m + 1, 0);
    for (int i = 1; i <= n; ++i) {
        p[0] = i; int j0 = 0;
        std::vector<long> minv(m + 1, 1000000000000000L); std::vector<char> used(m + 1, 0);
        do {
            used[j0] = 1; int i0 = p[j0], j1 = 0; long delta = 1000000000000000L;
            for (int j = 1; j <= m; ++j) {
                if (used[j]) { continue; }
                long c = C[i0 - 1][j - 1]; if (c >= INF) { c = BIG; }
                long cur = c - u[i0] - v[j];
                if (cur < minv[j]) { minv[j] = cur; way[j] = j0; }
                if (minv[j] < delta) { delta = minv[j]; j1 = j; }
            }
            for (int j = 0; j <= m; ++j) {
                if (used[j]) { u[p[j]] += delta; v[j] -= delta; } else { minv[j] -= delta; }
            }
            j0 = j1;
        } while (p[j0]);
        do { int j1 = way[j0]; p[j0] = p[j1]; j0 = j1; } while (j0);
    }
    for (int i = 1; i <= n; ++i) { r.u.push_back(u[i]); }
    for (int j = 1; j <= m; ++j) { r.v.push_back(v[j]); }
    return r;
}

static std::string mat(const Mat& C) { return list(C, [](auto& r) { return ints(r); }); }
static std::string sol(const lap::Assignment& a) {
    std::string s = "[";
    for (int i = 0; i < a.rows(); ++i) { s += (i ? "," : "") + std::to_string(a[i] + 1); }
    return s + "]";
}

int main(int, char** argv) {
    std::ifstream in(argv[1]);
    open(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op, t; int rows, cols; char order = 'r'; int draws = 0;
        is >> op;
        int unit = 0;
        if (op.find('@') != std::string::npos) { unit = std::stoi(op.substr(op.find('@') + 1)); op = op.substr(0, op.find('@')); }
        if (op == "lap") { is >> order; } else { is >> draws; }
        is >> rows >> cols;
        Mat C(rows, std::vector<long>(cols));
        for (auto& r : C) { for (auto& x : r) { is >> t; x = t == "X" ? INF : std::stol(t); } }
        lap::CostMatrix R(rows, cols);
        for (int i = 0; i < rows; ++i) { for (int j = 0; j < cols; ++j) { R(i, j) = C[i][j] >= INF ? lap::inf : C[i][j]; } }
        if (order == 'n' || order == 'm') {
            unsigned long h = rows * 31 + cols;
            double by = std::pow(10.0, -9 - (C[0][0] & 3));
            for (int i = 0; i < rows; ++i) { for (int j = 0; j < cols; ++j) { h = h * 6364136223846793005UL + C[i][j]; R(i, j) += by * ((h >> 40) % 2001 / 1000.0 - 1); } }
            order = order == 'n' ? 'r' : 'c';
        }
        R *= std::ldexp(1.0, unit);
        Eigen::MatrixXd M = R;
        watch();
        if (op == "lap") {
            lap::Assignment x(rows); lap::Dual u(rows), v(cols);
            bool ok = order == 'r' ? lap::lap(R, x, u, v) : lap::lap(M, x, u, v);
            lap::Assignment y = ok ? (order == 'r' ? lap::lap(R) : lap::lap(M)) : x;
            double c = ok ? (order == 'r' ? lap::cost(R, x) : lap::cost(M, x)) : 0;
            bool small = rows <= 4 && cols <= 6;
            Ev e("lap");
            e.raw("C", mat(C)).b("ok", ok).b("small", small);
            e.raw("s", ok ? sol(x) : "[]").raw("s2", ok ? sol(y) : "[]").i("c", fx(std::ldexp(c, -unit), 1));
            if (!small) {
                Cert k = certify(C);
                e.raw("u", ints(k.u)).raw("v", ints(k.v)).raw("hall", ints(k.hall));
            }
        } else {
            lap::Murty murty(R);
            std::string d = "[";
            bool ended = false;
            for (int k = 0; k < draws; ++k) {
                lap::Assignment x; double c;
                if (!murty.draw(x, c)) { ended = true; break; }
                d += std::string(k ? "," : "") + "{\"s\":" + sol(x) + ",\"c\":" + std::to_string(fx(std::ldexp(c, -unit), 1)) + "}";
            }
            Ev("murty").raw("C", mat(C)).raw("d", d + "]").b("ended", ended);
        }
    }
    return 0;
}
