// Exhaustive exploration of operation histories of a system under test in lockstep with its model.
//   S: void start(); bool enabled(int op); void apply(int op); void verify(); int nops();
#ifndef VERIF_SEQ_HPP
#define VERIF_SEQ_HPP
#include "mc.hpp"
namespace seq {
    // all histories of exactly `depth` operations (every prefix is verified once)
    template <typename S>
    inline void histories(S& s, int depth, int upfront = 2)
    {
        std::vector<int> pre;
        for (int i = 0; i < upfront && i < depth; ++i)
            pre.push_back(mc::choose(s.nops()));
        mc::shard();
        s.start();
        for (int i = 0; i < depth; ++i) {
            int o = i < (int)pre.size() ? pre[i] : mc::choose(s.nops());
            if (!s.enabled(o))
                throw mc::Skip();
            s.apply(o);
            mc::op();
            if (i < upfront || mc::fresh())
                s.verify();
        }
    }
    // all histories prefix.cycle^w with |prefix| <= P, 1 <= |cycle| <= C, cut at `total` operations
    template <typename S>
    inline void lassos(S& s, int P, int C, int total, bool verify_all = true)
    {
        int p = mc::choose(P + 1), c = 1 + mc::choose(C);
        std::vector<int> w;
        for (int i = 0; i < p + c; ++i)
            w.push_back(mc::choose(s.nops()));
        mc::shard();
        s.start();
        for (int i = 0; i < total; ++i) {
            int o = i < p ? w[i] : w[p + (i - p) % c];
            if (!s.enabled(o))
                throw mc::Skip();
            s.apply(o);
            mc::op();
            if (verify_all || i + 1 == total)
                s.verify();
        }
    }
} // namespace seq
#endif
