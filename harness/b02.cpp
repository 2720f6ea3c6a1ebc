// B02: failing and non-finite evaluations at every position.
#include "bosys.hpp"
template <int DIN, int DOUT>
struct Faulty : BOSys<DIN, DOUT> {
    using BOSys<DIN, DOUT>::w;
    using BOSys<DIN, DOUT>::bo;
    int faults_left = 0, last = 0;
    bool init_broken = false;
    int valid_init = 0; // valid evaluations of the unfinished initialisation(s)
    Faulty(int faults)
    {
        faults_left = faults;
        w.fixed_answers = 0;
        w.fault = [this] {
            if (faults_left <= 0)
                return OK;
            last = mc::choose(6);
            if (last)
                faults_left--;
            return (Fault)last;
        };
    }
    // one call; false when it was interrupted
    bool call(bool reset, int budget, int n_init)
    {
        mc::note(mc::fmt("optimize(%s, %d iterations, %d initial points)", reset ? "reset" : "resume", budget, n_init));
        BP::stop_maxiterations::set_iterations(budget);
        w.n_init = n_init;
        bool fresh = reset || !w.initialised;
        if (reset)
            valid_init = 0;
        this->begin(reset);
        int before = faults_left;
        size_t valid = w.X.size();
        bool thrown = false;
        try {
            bo.optimize(this->fun, this->agg, reset);
        }
        catch (const limbo::EvaluationError&) {
            thrown = true;
            mc::check(before > faults_left, "spurious-evaluation-error", "a run without a failing evaluation reports one");
            mc::check(last != THROW_OTHER, "error-translated");
        }
        catch (const Boom&) {
            thrown = true;
            mc::check(last == THROW_OTHER, "wrong-error");
        }
        mc::op();
        mc::check(thrown == (faults_left < before), "failure-not-reported", mc::fmt("an evaluation failed (%d) but the run went on", last));
        mc::check(!w.initialised || reset || w.inits == 0, "initialised-again", "the initial design is evaluated again although it was complete");
        if (fresh) {
            mc::check(w.inits <= 1, "initialisation-count");
            if (w.in_init) { // interrupted there
                mc::check(thrown, "initialisation-interrupted");
                valid_init += w.X.size() - valid;
                w.in_init = false;
                // the record holds the valid evaluations and nothing else
                w.record("after an interrupted initialisation");
                this->best();
                mc::check(bo.total_iterations() == 0 && bo.current_iteration() == 0, "iterations-after-interrupted-initialisation");
                mc::state(this->hash() * 7 + 1);
                return false;
            }
            mc::check(valid_init + w.evals_init >= n_init, "initialisation-incomplete", mc::fmt("%d of %d initial evaluations", valid_init + w.evals_init, n_init));
            w.initialised = true;
        }
        if (!thrown) {
            w.end_iteration();
            mc::check(w.evals_loop == budget && w.iter == budget, "iterations", mc::fmt("%d evaluations, %d iterations in a run of %d", w.evals_loop, w.iter, budget));
        }
        else {
            // the failed evaluation belongs to the iteration under way
            mc::check(w.evals_loop == w.iter + 1 && w.asks == w.iter + 1, "interrupted-iteration");
            mc::check(w.stats == w.iter, "statistics-of-failed-evaluation", "statistics are written for an evaluation that failed");
            int p = BP::bayes_opt_boptimizer::hp_period();
            mc::check(w.hp_calls == (p > 0 ? w.iter / p : 0), "hyper-parameter-period");
            w.asked = false;
        }
        w.total += w.iter;
        mc::check(bo.current_iteration() == w.iter, "current-iteration", mc::fmt("%d after %d completed iterations", bo.current_iteration(), w.iter));
        this->done();
        return !thrown;
    }
};
template <int DIN, int DOUT>
void faults(int ncalls, int nfaults, int maxbudget)
{
    BP::bayes_opt_bobase::set_bounded(true);
    BP::bayes_opt_boptimizer::set_hp_period(mc::flip() ? 2 : -1);
    int i0 = mc::choose(3), b0 = 1 + mc::choose(maxbudget), r1 = mc::choose(2), b1 = mc::choose(maxbudget), r2 = mc::choose(2);
    mc::shard();
    Faulty<DIN, DOUT> s(nfaults);
    s.call(true, b0, i0);
    if (ncalls > 1)
        s.call(r1, b1, r1 ? 2 : i0);
    if (ncalls > 2)
        s.call(r2, 1, r2 ? 1 : (r1 ? 2 : i0));
    // and at last a call without failure
    s.faults_left = 0;
    s.call(false, 2, 2);
}
MC_SUITE("faults_1_1", [] { faults<1, 1>(3, mc::tier(2, 3), 3); }, 24);
MC_SUITE("faults_2_2", [] { faults<2, 2>(3, mc::tier(2, 3), mc::tier(2, 3)); }, 24);
MC_SUITE("faults_2_3", [] { faults<2, 3>(2, 2, mc::tier(2, 3)); }, 24);
MC_SUITE("long_run", [] { // one failure anywhere in a longer run
    BP::bayes_opt_bobase::set_bounded(true);
    BP::bayes_opt_boptimizer::set_hp_period(mc::flip() ? 3 : -1);
    int i0 = mc::choose(3) * 3;
    mc::shard();
    Faulty<1, 2> s(1);
    s.w.points = 7;
    s.call(true, mc::tier(8, 12), i0);
    s.faults_left = 1;
    s.call(false, 3, i0);
    s.faults_left = 0;
    s.call(false, 1, i0);
    s.call(true, 2, 1);
}, 6);
// the finiteness test itself: every combination of special values in every component
MC_SUITE("values", [] {
    static const double V[] = {1.0, -0.0, 4.9e-324, -1.7976931348623157e308, 1.7976931348623157e308, -1e200, NAN, -NAN, INFINITY, -INFINITY};
    int n = 1 + mc::choose(mc::tier(4, 5));
    mc::shard();
    VectorXd y(n);
    bool ok = true;
    for (int i = 0; i < n; ++i) {
        y[i] = V[mc::choose(10)];
        ok = ok && (y[i] == y[i]) && y[i] <= 1.7976931348623157e308 && y[i] >= -1.7976931348623157e308;
    }
    mc::check(limbo::tools::is_nan_or_inf(y) == !ok, "finite-test", "is_nan_or_inf wrong for " + zoo::str(y));
    for (int i = 0; i < n; ++i)
        mc::check(limbo::tools::is_nan_or_inf((double)y[i]) == !(y[i] == y[i] && std::abs(y[i]) <= 1.7976931348623157e308), "finite-test-scalar");
    static BOSys<1, 1>* keep = new BOSys<1, 1>();
    static size_t count = 0;
    W = &keep->w;
    VectorXd x = VectorXd::Constant(1, 0.5);
    bool thrown = false;
    try {
        keep->bo.add_new_sample(x, y);
    }
    catch (const limbo::EvaluationError&) {
        thrown = true;
    }
    mc::op();
    mc::check(thrown == !ok, "non-finite-observation", mc::fmt("observation %s %s", zoo::str(y).c_str(), thrown ? "refused" : "recorded"));
    count += ok;
    if (mc::replaying())
        count = keep->bo.samples().size();
    mc::check(keep->bo.samples().size() == keep->bo.observations().size(), "record-unpaired");
    mc::check(keep->bo.samples().size() == count, "record-size");
    if (ok)
        mc::check(keep->bo.observations().back() == y && keep->bo.samples().back() == x, "record");
}, 8);
MC_MAIN
