// B04: every decision uses a model of all data so far and is acted upon.
#include "bosys.hpp"
template <int DIN, int DOUT>
void decisions(int n)
{
    BP::bayes_opt_bobase::set_bounded(mc::flip());
    int period = mc::choose(6) - 1, i0 = mc::choose(3), b0 = 1 + mc::choose(n), r1 = mc::choose(3), b1 = r1 ? mc::choose(4) : 0;
    mc::shard();
    BP::bayes_opt_boptimizer::set_hp_period(period);
    BOSys<DIN, DOUT> s;
    s.run(true, b0, i0);
    s.w.fixed_answers = 1;
    if (r1)
        s.run(r1 == 2, b1, 2);
}
MC_SUITE("decisions_1_1", [] { decisions<1, 1>(mc::tier(4, 6)); }, 24);
MC_SUITE("decisions_2_2", [] { decisions<2, 2>(mc::tier(3, 5)); }, 24);
MC_SUITE("decisions_3_1", [] { decisions<3, 1>(mc::tier(3, 4)); }, 16);
MC_SUITE("long_periods", [] {
    BP::bayes_opt_bobase::set_bounded(true);
    int period = 1 + mc::choose(8), budget = 1 + mc::choose(14), i0 = mc::choose(2), k = mc::choose(2);
    mc::shard();
    BP::bayes_opt_boptimizer::set_hp_period(period);
    BOSys<1, 2> s;
    s.w.fixed_answers = k;
    s.w.points = 7;
    s.run(true, budget, i0);
    s.run(false, period, i0);
}, 8);
// the period may be changed between the calls
MC_SUITE("changing_period", [] {
    BP::bayes_opt_bobase::set_bounded(true);
    int p0 = mc::choose(5) - 1, p1 = mc::choose(5) - 1, b0 = mc::choose(5), b1 = 1 + mc::choose(4), r = mc::choose(2);
    BOSys<1, 1> s;
    s.w.fixed_answers = 0;
    BP::bayes_opt_boptimizer::set_hp_period(p0);
    s.run(true, b0, 2);
    BP::bayes_opt_boptimizer::set_hp_period(p1);
    s.run(r, b1, 1);
}, 8);
MC_MAIN
