// B01: the record across sequences of optimisation calls with resume and reset.
#include "bosys.hpp"
template <int DIN, int DOUT>
void calls(int n, const std::vector<int>& budgets, const std::vector<int>& inits)
{
    BP::bayes_opt_bobase::set_bounded(mc::flip());
    BP::bayes_opt_boptimizer::set_hp_period(mc::flip() ? 2 : -1);
    int r0 = mc::choose(2), b0 = mc::pick(budgets), i0 = mc::pick(inits);
    mc::shard();
    BOSys<DIN, DOUT> s;
    s.w.fixed_answers = 0;
    s.run(r0, b0, i0);
    for (int k = 1; k < n; ++k) {
        int r = mc::choose(2), b = mc::pick(budgets), i = r ? mc::pick(inits) : (k % 3);
        s.w.fixed_answers = k % 2; // the second answer repeats a point
        s.run(r, b, i);
    }
}
MC_SUITE("calls_1_1", [] { calls<1, 1>(mc::tier(4, 5), {0, 1, 3}, {0, 1, 2}); }, 24);
MC_SUITE("calls_2_2", [] { calls<2, 2>(mc::tier(3, 4), {0, 1, 2, 5}, {0, 2, 3}); }, 24);
MC_SUITE("calls_1_3", [] { calls<1, 3>(mc::tier(3, 4), {0, 1, 2}, {0, 1}); }, 24);
// every answer of the inner optimiser, including points evaluated before
MC_SUITE("answers", [] {
    BP::bayes_opt_bobase::set_bounded(true);
    BP::bayes_opt_boptimizer::set_hp_period(-1);
    int i0 = mc::choose(3);
    BOSys<1, 1> s;
    s.run(true, mc::tier(4, 6), i0);
    s.run(mc::choose(2), 2, 1);
}, 1);
// long runs
MC_SUITE("long", [] {
    BP::bayes_opt_bobase::set_bounded(true);
    BP::bayes_opt_boptimizer::set_hp_period(mc::choose(4) - 1);
    int cut = mc::choose(12), i0 = mc::choose(3) * 5;
    mc::shard();
    BOSys<2, 1> s;
    s.w.points = 7;
    s.w.fixed_answers = 0;
    s.run(true, cut, i0);
    s.run(false, 12 - cut, 3);
    s.run(false, 1, 3);
    s.run(true, 3, 2);
}, 8);
// one optimiser object on functions of different dimensions (each change of function starts afresh)
MC_SUITE("dimensions", [] {
    BP::bayes_opt_bobase::set_bounded(mc::flip());
    BP::bayes_opt_boptimizer::set_hp_period(mc::flip() ? 2 : -1);
    BOSys<1, 1> s;
    int n = mc::tier(3, 4), now = 0;
    for (int k = 0; k < n; ++k) {
        int f = mc::choose(4);
        bool r = k == 0 || f != now || mc::flip();
        if (f == 0)
            s.become<1, 1>();
        else if (f == 1)
            s.become<2, 1>();
        else if (f == 2)
            s.become<1, 2>();
        else
            s.become<3, 2>();
        now = f;
        mc::note(mc::fmt("function with %d inputs and %d outputs", s.w.din, s.w.dout));
        if (k == 0)
            mc::shard();
        s.w.fixed_answers = k % 2;
        int b = mc::choose(3), i = r ? mc::choose(3) : 1;
        s.run(r, b, i);
    }
}, 8);
// samples added by the user between runs are part of the record
MC_SUITE("user_samples", [] {
    BP::bayes_opt_bobase::set_bounded(true);
    BP::bayes_opt_boptimizer::set_hp_period(-1);
    int i0 = mc::choose(3), b0 = mc::choose(3), n = 1 + mc::choose(3), b1 = mc::choose(3), r = mc::choose(2);
    BOSys<2, 2> s;
    s.w.fixed_answers = 0;
    s.run(true, b0, i0);
    for (int i = 0; i < n; ++i) {
        VectorXd x = zoo::point(6 + i, 2), y = zoo::obs(i + 3, 2);
        s.bo.add_new_sample(x, y);
        s.w.X.push_back(x);
        s.w.Y.push_back(y);
    }
    s.w.record("after samples are added by hand");
    s.best();
    s.run(r, b1, 1);
});
MC_MAIN
