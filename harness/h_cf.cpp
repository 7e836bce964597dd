// Coordinate conversions: what the code makes of exact inputs.
#include "common.hpp"
#include "cf.hpp"
using namespace vt;

template<typename M> static std::string bigs(const M& m) {
    std::string s = "[";
    for (int i = 0; i < m.rows(); ++i) { for (int j = 0; j < m.cols(); ++j) { s += (s.size() > 1 ? "," : "") + big(m(i, j), 3); } }
    return s + "]";
}

int main(int, char** argv) {
    std::ifstream in(argv[1]);
    open(argv[2]);
    std::string op;
    while (in >> op) {
        watch();
        long la, lo, h;
        in >> la >> lo >> h;
        cf::LLA o(la / 1e6, lo / 1e6, h / 1e3);
        cf::LL oo(o[0], o[1]);
        if (op == "at") {
            cf::ECEF e = cf::lla2ecef(o), g = cf::ll2ecef(oo);
            Ev("at").i("la", la).i("lo", lo).i("h", h).raw("lla", bigs(e)).raw("ll", bigs(g)).raw("ned", bigs(cf::nedrot(o))).raw("ne", bigs(cf::nerot(oo)))
                .raw("blla", bigs(cf::ecef2lla(e))).raw("bll", bigs(cf::ecef2ll(g))).raw("hll", bigs(cf::ecef2ll(e)));
        } else {
            long n, e, d;
            in >> n >> e >> d;
            cf::NED x(n / 1e3, e / 1e3, d / 1e3);
            cf::NE y(x[0], x[1]);
            cf::ECEF c = cf::ned2ecef(x, o), f = cf::ne2ecef(y, oo);
            cf::LLA l = cf::ned2lla(x, o);
            cf::LL g = cf::ne2ll(y, oo);
            Eigen::Vector4d s(y[0], y[1], 7, 8);
            cf::ne2ll_i(s, oo);
            Eigen::Vector4d t = s;
            cf::ll2ne_i(t, oo);
            Ev("by").i("la", la).i("lo", lo).i("h", h).i("n", n).i("e_", e).i("d", d)
                .raw("ecef", bigs(c)).raw("ned", bigs(cf::ecef2ned(c, o))).raw("lla", bigs(l)).raw("lned", bigs(cf::lla2ned(l, o)))
                .raw("surf", bigs(f)).raw("ll", bigs(g)).raw("ne", bigs(cf::ll2ne(g, oo))).raw("sne", bigs(cf::ecef2ne(f, oo)))
                .raw("lli", bigs(s)).raw("nei", bigs(t));
        }
    }
    return 0;
}
