#include "nv.hpp"
#include "util.cpp"
#include "types.cpp"
using namespace nv; using namespace knor::base;
template <typename V> static void same(V& v, const std::map<size_t, unsigned>& m, size_t cap) {
    if (v.size() != cap) fail("capacity %zu, expected %zu", v.size(), cap);
    expecti(v.keycount(), m.size(), "keycount"); expecti(v.keyless(), m.empty(), "keyless"); expecti(v.empty(), cap == 0, "empty");
    for (size_t i = 0; i < cap + 3; i++) { if (v.has_key(i) != (m.count(i) > 0)) fail("has_key(%zu) = %d", i, (int)v.has_key(i)); }
    const V& c = v;
    for (auto& kv : m) if (c[kv.first] != kv.second) fail("[%zu] = %u, expected %u", kv.first, c[kv.first], kv.second);
    bool thrown = false; try { c[cap]; } catch (...) { thrown = true; } if (!thrown) fail("lookup beyond the end did not throw");
    std::vector<size_t> ks; ks.push_back(77); v.get_keys(ks); if (ks.size() != m.size() + 1 || ks[0] != 77) fail("get_keys lists %zu keys, expected %zu", ks.size() - 1, m.size());
    size_t q = 1; for (auto& kv : m) if (ks[q++] != kv.first) fail("get_keys entry %zu is %zu", q - 2, ks[q - 1]);
    auto it = v.get_iterator(); auto mi = m.begin();
    while (it.has_next()) { if (mi == m.end()) fail("iterator visits too many keys"); auto p = it.next(); if (p.first != mi->first || p.second != mi->second) fail("iterator yields (%zu,%u), expected (%zu,%u)", p.first, p.second, mi->first, mi->second); ++mi; }
    if (mi != m.end()) fail("iterator misses key %zu", mi->first);
}
int main(int ac, char** av) {
    begin(ac, av);
    for (long it = 0; it < 40000 && more(); it++) {
        size_t cap = it < 200 ? it % 6 : rnd(12); unsigned ev = rnd(3) ? 0 : (rnd(2) ? 5 : 0xffffffffu); std::string h = "capacity " + std::to_string(cap) + " empty value " + std::to_string(ev);
        if (rnd(5) == 0) { cap = 0; ev = 0; }
        vmap<unsigned> v = (cap == 0 && ev == 0) ? vmap<unsigned>() : vmap<unsigned>(cap, ev);
        std::map<size_t, unsigned> m; CASE("%s", h.c_str()); same(v, m, cap);
        for (int q = 0; q < 7; q++) {
            char t[80]; int op = rnd(6); unsigned val = rnd(9); 
            if (op <= 2) { size_t k = rnd(cap + 4); snprintf(t, 80, op == 2 ? " at(%zu)=%u" : " [%zu]=%u", k, val); h += t; CASE("%s", h.c_str()); if (op == 2) v.at(k) = val; else v[k] = val; cap = std::max(cap, k + 1); if (val == ev) m.erase(k); else m[k] = val; }
            else if (op == 3 && cap) { size_t k = rnd(cap); snprintf(t, 80, " erase(%zu)", k); h += t; CASE("%s", h.c_str()); v.erase(k); m.erase(k); }
            else if (op == 4 && rnd(3) == 0) { h += " clear"; CASE("%s", h.c_str()); v.clear(); m.clear(); }
            else if (op == 5 && rnd(4) == 0) { cap = rnd(9); snprintf(t, 80, " set_capacity(%zu)", cap); h += t; CASE("%s", h.c_str()); v.set_capacity(cap); m.clear(); }
            same(v, m, cap);
        }
    }
    return done();
}
