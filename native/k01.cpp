#include "nv.hpp"
#include "util.cpp"
using namespace nv; using namespace knor::base;
int main(int c, char** v) {
    begin(c, v);
    struct { const char* s; dist_t t; } names[] = {{"eucl", EUCL}, {"cos", COS}, {"taxi", TAXI}, {"sqeucl", SQEUCL}};
    for (auto& x : names) { CASE("get_dist_type(\"%s\")", x.s); expecti(get_dist_type(x.s), x.t, "metric"); }
    const char* badn[] = {"", "x", "euc", "eucl ", "manhattan", "EUCL", "cosine"};
    for (auto s : badn) { CASE("get_dist_type(\"%s\")", s); bool th = false; try { get_dist_type(s); } catch (std::exception&) { th = true; } if (!th) fail("unknown metric accepted"); }
    for (long it = 0; it < 40000 && more(); it++) {
        size_t n = it < 400 ? it % 9 : rnd(70);
        std::vector<double> a = rvec(n), b = rvec(n), a0 = a, b0 = b;
        CASE("n=%zu a=%s b=%s", n, str(a).c_str(), str(b).c_str());
        expect(eucl_dist<double>(a.data(), b.data(), n), metric(a.data(), b.data(), n, 0), "eucl_dist");
        expect(sqeucl_dist<double>(a.data(), b.data(), n), metric(a.data(), b.data(), n, 3), "sqeucl_dist");
        expect(taxi_dist<double>(a.data(), b.data(), n), metric(a.data(), b.data(), n, 2), "taxi_dist");
        bool za = true, zb = true; for (size_t i = 0; i < n; i++) { if (a[i]) za = false; if (b[i]) zb = false; }
        for (int t = 0; t < 4; t++) if (t != 1 || (!za && !zb)) expect(dist_comp_raw<double>(a.data(), b.data(), n, (dist_t)t), metric(a.data(), b.data(), n, t), "dist_comp_raw");
        if (!za && !zb) expect(cos_dist<double>(a.data(), b.data(), n), metric(a.data(), b.data(), n, 1), "cos_dist");
        if (a != a0 || b != b0) fail("argument modified");
    }
    CASE("dist_comp_raw metric 7"); double z = 0; bool th = false; try { dist_comp_raw<double>(&z, &z, 1, (dist_t)7); } catch (std::exception&) { th = true; } if (!th) fail("unknown metric accepted");
    return done();
}
