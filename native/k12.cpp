#include "nv.hpp"
#include "util.cpp"
#include "hclust_id_generator.hpp"
using namespace nv; using namespace knor;
int main(int ac, char** av) {
    begin(ac, av);
    for (long it = 0; it < 40000 && more(); it++) {
        std::string h; auto g = hclust_id_generator::create();
        std::set<unsigned> live; live.insert(0); std::set<unsigned> waiting; unsigned top = 0;
        for (int q = 0, n = 1 + rnd(24); q < n; q++) {
            char t[64];
            if (rnd(2) && !live.empty()) {
                auto i = live.begin(); std::advance(i, rnd(live.size())); unsigned id = *i;
                snprintf(t, 64, " reclaim(%u)", id); h += t; CASE("%s", h.c_str()); g->reclaim_id(id); live.erase(id); waiting.insert(id);
            } else {
                h += " split"; CASE("%s", h.c_str()); auto p = g->get_split_ids();
                if (p.first == p.second) fail("the split got %u twice", p.first);
                unsigned ids[2] = {p.first, p.second}; size_t reuse = std::min<size_t>(2, waiting.size()), reused = 0;
                for (unsigned id : ids) {
                    if (live.count(id)) fail("split id %u is already in use", id);
                    if (waiting.erase(id)) reused++; else { if (id <= top) fail("id %u is neither waiting for reuse nor new", id); }
                }
                for (unsigned id : ids) { live.insert(id); top = std::max(top, id); }
                if (reused != reuse) fail("%zu ids reused, %zu were waiting", reused, reuse);
            }
        }
    }
    return done();
}
