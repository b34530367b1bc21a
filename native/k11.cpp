#include "nv.hpp"
#include "util.cpp"
#include "thd_safe_bool_vector.cpp"
using namespace nv; using namespace knor::base;
static void same(thd_safe_bool_vector& v, const std::vector<bool>& m, const char* w) {
    if (v.size() != m.size()) fail("after %s: size %zu, expected %zu", w, v.size(), m.size());
    for (size_t i = 0; i < m.size(); i++) { if (v.get(i) != m[i]) fail("after %s: get(%zu) = %d", w, i, (int)v.get(i)); if (v[i] != m[i]) fail("after %s: [%zu] = %d", w, i, (int)v[i]); }
}
int main(int ac, char** av) {
    begin(ac, av);
    for (long it = 0; it < 60000 && more(); it++) {
        size_t n = it < 300 ? it % 7 : rnd(40); bool init = rnd(2); std::string h = "size " + std::to_string(n) + " init " + std::to_string(init);
        std::vector<bool> m(n, init); CASE("%s", h.c_str());
        thd_safe_bool_vector::ptr v = thd_safe_bool_vector::create(n, init); same(*v, m, "create");
        for (int q = 0; q < 8; q++) {
            int op = rnd(4); bool b = rnd(2); char t[80];
            if (op == 0 && !m.empty()) { size_t i = rnd(m.size()); snprintf(t, 80, " set(%zu,%d)", i, b); h += t; CASE("%s", h.c_str()); v->set(i, b); m[i] = b; }
            else if (op == 1) { size_t i = rnd(m.size() + 4); if (rnd(4) == 0) i = m.size(); snprintf(t, 80, " check_set(%zu,%d)", i, b); h += t; CASE("%s", h.c_str()); v->check_set(i, b); if (i >= m.size()) m.resize(i + 1, false); m[i] = b; }
            else if (op == 2) { size_t i = rnd(m.size() + 5); snprintf(t, 80, " resize(%zu,%d)", i, b); h += t; CASE("%s", h.c_str()); v->resize(i, b); m.resize(i, b); }
            else { size_t i = rnd(m.size() + 5); snprintf(t, 80, " resize(%zu)", i); h += t; CASE("%s", h.c_str()); v->resize(i); m.resize(i, false); }
            same(*v, m, "the last operation");
        }
        std::vector<bool> z(n); thd_safe_bool_vector::ptr u = thd_safe_bool_vector::create(n); for (size_t i = 0; i < n; i++) { z[i] = rnd(2); u->set(i, z[i]); } CASE("size %zu without initial value, then every flag set", n); same(*u, z, "set");
    }
    return done();
}
