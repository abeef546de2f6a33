// B01-B04: the Bayesian optimisation loop, its records and its stopping criteria
#include "verif.hpp"
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/stop/max_predicted_value.hpp>

namespace verif {
    // abstract environment: any objective, design, acquisition optimiser, stopping rule, aggregator
    int dimin();
    Vec f_obs(int i, const Vec& x); // observation returned by the i-th evaluation
    int n_design();
    Vec design(int i);
    Vec next_pt(int evals, int iteration); // point chosen by the acquisition optimiser
    bool stop_1(int evals, int iteration);
    bool stop_2(int evals, int iteration);
    double agg(const Vec& v);
    int n_marks();
    struct P {
        struct bayes_opt_bobase {
            static bool stats_enabled() { return false; }
            static bool bounded();
        };
        struct bayes_opt_boptimizer {
            static int hp_period();
        };
        struct stop_maxiterations {
            static int iterations();
        };
        struct stop_maxpredictedvalue {
            static double ratio();
        };
    };
#ifdef VERIF_RT
    int dimin() { return 1 + (int)rt_param("dim", 0., 3.); }
    Vec f_obs(int i, const Vec& x)
    {
        Vec v(2);
        v << std::round(3. * std::sin(3 * i + 5. * x.sum() + rt_param("f", 0., 6.))), std::cos(i + x.sum());
        return v;
    }
    int n_design() { return (int)rt_param("design", 0., 4.); }
    Vec design(int i) { return Vec::Constant(dimin(), std::abs(std::sin(i + 1.))); }
    Vec next_pt(int e, int it) { return Vec::Constant(dimin(), std::abs(std::sin(e * 1.7 + it * 0.3))); }
    bool stop_1(int e, int it) { return it >= 12 || std::sin(e * 1.1 + it * 2.3 + rt_param("stop", 0., 6.)) > 0.8; }
    bool stop_2(int e, int it) { return std::sin(e * 1.3 - it * 1.3 + rt_param("stop2", 0., 6.)) > 0.9; }
    double agg(const Vec& v) { return std::round(2. * std::sin(v.sum() + rt_param("agg", 0., 6.))); }
    int n_marks() { return 60; }
    bool P::bayes_opt_bobase::bounded() { return rt_param("bounded", 0., 1.) > 0.5; }
    int P::bayes_opt_boptimizer::hp_period() { return (int)rt_param("hp", -1.99, 5.); }
    int P::stop_maxiterations::iterations() { return (int)rt_param("iterations", 0., 7.); }
    double P::stop_maxpredictedvalue::ratio() { return rt_param("ratio", -2., 2.); }
#endif
    // observations are finite here; others: B01_invalid
    inline Vec obs(int i, const Vec& x) { return finite(f_obs(i, x)); }
    struct Agg {
        using result_type = double;
        double operator()(const Vec& v) const { return agg(v); }
    };
    struct Fun {
        static int dim_in() { return dimin(); }
        static int dim_out() { return 2; }
        Vecs* log;
        Fun(Vecs* l) : log(l) {}
        Vec operator()(const Vec& x) const
        {
            log->push_back(x);
            return obs(log->size() - 1, x);
        }
    };
    // the model is any class with this interface; this one only records what it is told
    struct Model {
        Vecs S, O;
        int computes, adds, hps, resets;
        mutable int stats, built;
        Vec hp_marks; // number of hyper-parameter optimisations with that many samples
        mutable Vec build_marks, iter_marks, stat_marks; // acquisition functions built, their iteration, statistics updates
        Model() : computes(0), adds(0), hps(0), resets(0), stats(0), built(0), hp_marks(marks()), build_marks(marks()), iter_marks(marks()), stat_marks(marks()) {}
        Model(int, int) : computes(0), adds(0), hps(0), resets(1), stats(0), built(0), hp_marks(marks()), build_marks(marks()), iter_marks(marks()), stat_marks(marks()) {}
        static Vec marks()
        {
            return build_vec(n_marks(), [&](int i) { return 0.; });
        }
        void compute(const Vecs& s, const Vecs& o)
        {
            S = s;
            O = o;
            computes++;
        }
        void add_sample(const Vec& s, const Vec& o)
        {
            S.push_back(s);
            O.push_back(o);
            adds++;
        }
        void optimize_hyperparams()
        {
            hps++;
            if ((int)S.size() < n_marks())
                hp_marks((int)S.size()) += 1.;
        }
        int dim_in() const { return dimin(); }
    };
    struct Acqui {
        const Model& m;
        int it;
        Acqui(const Model& model, int iteration = 0) : m(model), it(iteration)
        {
            model.built++;
            if ((int)model.S.size() < n_marks()) {
                model.build_marks((int)model.S.size()) += 1.;
                model.iter_marks((int)model.S.size()) = iteration;
            }
        }
        template <typename A>
        limbo::opt::eval_t operator()(const Vec& x, const A& afun, bool gradient) const
        {
            // what the acquisition optimiser is told: enough to make its choice depend on the history
            return std::make_pair((double)m.S.size() + 0. * afun(x), boost::optional<Vec>(Vec::Constant(1, (double)it)));
        }
    };
    struct AcquiOpt {
        template <typename F>
        Vec operator()(const F& f, const Vec& init, bool bounded) const
        {
            ensures("the search starts from a point of the input space", eq((int)init.size(), dimin()));
            ensures("the search is bounded exactly as configured", bounded == P::bayes_opt_bobase::bounded());
            auto r = f(init, false);
            return next_pt((int)r.first, (int)(*r.second)(0));
        }
    };
    struct Design {
        template <typename F, typename A, typename Opt>
        void operator()(const F& f, const A&, Opt& opt) const
        {
            for (int i = 0; i < n_design(); i++)
                opt.eval_and_add(f, design(i));
        }
    };
    struct Stat {
        template <typename BO, typename A>
        void operator()(const BO& bo, const A&)
        {
            bo.model().stats++;
            if ((int)bo.samples().size() < n_marks())
                bo.model().stat_marks((int)bo.samples().size()) += 1.;
        }
    };
    struct Stop1 {
        template <typename BO, typename A>
        bool operator()(const BO& bo, const A&) const { return stop_1(bo.samples().size(), bo.current_iteration()); }
    };
    struct Stop2 {
        template <typename BO, typename A>
        bool operator()(const BO& bo, const A&) const { return stop_2(bo.samples().size(), bo.current_iteration()); }
    };
    using Opt = limbo::bayes_opt::BOptimizer<P, limbo::modelfun<Model>, limbo::acquifun<Acqui>, limbo::acquiopt<AcquiOpt>,
        limbo::initfun<Design>, limbo::statsfun<boost::fusion::vector<Stat>>, limbo::stopcrit<boost::fusion::vector<Stop1, Stop2>>>;

    // everything the records and the model must satisfy after a run that began with n0 evaluations and did T iterations
    template <typename O>
    void records(const O& opt, const Vecs& log, int n0)
    {
        int n = log.size();
        ensures("one sample and one observation per evaluation", eq((int)opt.samples().size(), n) && eq((int)opt.observations().size(), n));
        ensures("samples in evaluation order, with their own observation", forall(n, [&](int i) { return eq(opt.samples()[i], log[i]) && eq(opt.observations()[i], obs(i, log[i])); }));
        ensures("the model has been given exactly these", eqvs(opt.model().S, opt.samples()) && eqvs(opt.model().O, opt.observations()));
        ensures("an acquisition function is built with all data of every iteration, and its number", forall(n_marks(), [&](int i) {
            return eq(opt.model().build_marks(i), i >= n0 && i < n ? 1. : 0.) && eq(opt.model().iter_marks(i), i >= n0 && i < n ? (double)(i - n0) : 0.);
        }));
        ensures("each iteration evaluates the point chosen for it", forall(n - n0, [&](int k) { return eq(log[n0 + k], next_pt(n0 + k, k)); }));
    }
    // iterations done from n0 evaluations
    template <typename O>
    void counting(const O& opt, int n, int n0, int total0)
    {
        int T = n - n0, hp = P::bayes_opt_boptimizer::hp_period();
        ensures("iterations are counted", eq(opt.current_iteration(), T) && eq(opt.total_iterations(), total0 + T));
        ensures("one statistics update per iteration, after its evaluation", eq(opt.model().stats, T) && forall(n_marks(), [&](int i) { return eq(opt.model().stat_marks(i), i > n0 && i <= n ? 1. : 0.); }));
        ensures("one model update per iteration", eq(opt.model().adds, T));
        ensures("hyper-parameters are optimised after every hp_period-th iteration and never otherwise", forall(n_marks(), [&](int i) {
            return eq(opt.model().hp_marks(i), i > n0 && i <= n && hp > 0 && (i - n0) % hp == 0 ? 1. : 0.);
        }));
    }
    template <typename O>
    void stopping(int n, int n0)
    {
        int T = n - n0;
        ensures("stops when a criterion holds", stop_1(n, T) || stop_2(n, T));
        ensures("does not stop before", forall(T, [&](int k) { return !stop_1(n0 + k, k) && !stop_2(n0 + k, k); }));
    }

    SCENARIO(B01_run)
    {
        requires_(n_design() >= 0 && dimin() >= 0);
        Vecs log;
        Opt opt;
        opt.optimize(Fun(&log), Agg(), any_bool("reset"));
        int n0 = n_design();
        ensures("the design is evaluated first", (int)log.size() >= n0 && forall(n0, [&](int i) { return eq(log[i], design(i)); }));
        records(opt, log, n0);
    }
    SCENARIO(B02_run)
    {
        requires_(n_design() >= 0 && dimin() >= 0);
        Vecs log;
        Opt opt;
        opt.optimize(Fun(&log), Agg(), any_bool("reset"));
        counting(opt, log.size(), n_design(), 0);
        ensures("the model is fitted on the design, or created empty", eq(opt.model().computes, n_design() > 0 ? 1 : 0) && eq(opt.model().resets, n_design() > 0 ? 0 : 1));
    }
    SCENARIO(B04_run)
    {
        requires_(n_design() >= 0 && dimin() >= 0);
        Vecs log;
        Opt opt;
        opt.optimize(Fun(&log), Agg(), any_bool("reset"));
        stopping<Opt>(log.size(), n_design());
    }

    // a second call on the same optimiser, with or without reset; the design is run again after a
    // reset or when the first call did no iteration
    template <bool reset, bool first_ran>
    void again(int what)
    {
        requires_(n_design() >= 0 && dimin() >= 0);
        Vecs first, log;
        Opt opt;
        opt.optimize(Fun(&first), Agg(), true);
        int n1 = first.size(), T1 = n1 - n_design();
        requires_(first_ran ? T1 > 0 : T1 == 0);
        if (what == 2)
            ensures("total iterations of the first call", eq(opt.total_iterations(), T1));
        if (!reset)
            log = first;
        opt.optimize(Fun(&log), Agg(), reset);
        int n = log.size(), before = reset ? 0 : n1, n0 = before + (reset || !first_ran ? n_design() : 0);
        if (what == 2) {
            ensures("the iteration counter restarts", eq(opt.current_iteration(), n - n0));
            ensures("the total accumulates without reset", eq(opt.total_iterations(), n - n0 + (reset ? 0 : T1)));
            return;
        }
        ensures("one sample and one observation per evaluation", eq((int)opt.samples().size(), n) && eq((int)opt.observations().size(), n));
        ensures("earlier data are kept without reset", forall(before, [&](int i) { return eq(opt.samples()[i], first[i]) && eq(opt.observations()[i], obs(i, first[i])); }));
        ensures("the design is run after a reset and not otherwise", n >= n0 && forall(n0 - before, [&](int i) { return eq(log[before + i], design(i)); }));
        ensures("samples in evaluation order, with their own observation", forall(n, [&](int i) { return eq(opt.samples()[i], log[i]) && eq(opt.observations()[i], obs(i, log[i])); }));
        ensures("the model has been given exactly these", eqvs(opt.model().S, opt.samples()) && eqvs(opt.model().O, opt.observations()));
        ensures("each iteration evaluates the point chosen for it", forall(n - n0, [&](int k) { return eq(log[n0 + k], next_pt(n0 + k, k)); }));
    }
    SCENARIO(B01_again_reset) { again<true, true>(1); }
    SCENARIO(B01_again) { again<false, true>(1); }
    SCENARIO(B01_again_none) { again<false, false>(1); }
    SCENARIO(B02_again_reset) { again<true, true>(2); }
    SCENARIO(B02_again) { again<false, true>(2); }
    SCENARIO(B02_again_none) { again<false, false>(2); }
    SCENARIO(B01_invalid)
    {
        int n = any_size("n"), d = any_size("d");
        Vecs X = any_vecs("X", n, d);
        Vec x = any_vec("x", d), v = any_fvec("v", any_size("dim_out"));
        Opt opt;
        for (int i = 0; i < n; i++)
            opt.add_new_sample(X[i], obs(i, X[i]));
        bool bad = exists(v.size(), [&](int i) { return std::isnan(v(i)) || std::isinf(v(i)); });
        bool thrown = false;
        try {
            opt.add_new_sample(x, v);
        }
        catch (const limbo::EvaluationError&) {
            thrown = true;
        }
        ensures("an error exactly for a non-finite observation", thrown == bad);
        int m = n + (bad ? 0 : 1);
        ensures("nothing recorded then, one pair otherwise", eq((int)opt.samples().size(), m) && eq((int)opt.observations().size(), m));
        ensures("earlier pairs are untouched", forall(n, [&](int i) { return eq(opt.samples()[i], X[i]) && eq(opt.observations()[i], obs(i, X[i])); }));
        ensures("the pair recorded is the one given", bad || (eq(opt.samples()[n], x) && eq(opt.observations()[n], v)));
    }
    SCENARIO(B03_best)
    {
        int n = any_size("n") + 1, d = any_size("d");
        Vecs X = any_vecs("X", n, d);
        Opt opt;
        for (int i = 0; i < n; i++)
            opt.add_new_sample(X[i], obs(i, X[i]));
        Vec o = opt.best_observation(Agg()), s = opt.best_sample(Agg());
        ensures("the aggregated value is the maximum", forall(n, [&](int i) { return agg(obs(i, X[i])) <= agg(o); }));
        ensures("the first such pair in evaluation order", exists(n, [&](int i) {
            return eq(o, obs(i, X[i])) && eq(s, X[i]) && forall(i, [&](int j) { return agg(obs(j, X[j])) < agg(o); });
        }));
    }
    // with the default aggregator, the first coordinate
    SCENARIO(B03_default)
    {
        int n = any_size("n") + 1, d = any_size("d");
        Vecs X = any_vecs("X", n, d), Y = any_vecs("Y", n, 2);
        Opt opt;
        for (int i = 0; i < n; i++)
            opt.add_new_sample(X[i], finite(Y[i]));
        Vec o = opt.best_observation(), s = opt.best_sample();
        ensures("the first pair with the largest first coordinate", exists(n, [&](int i) {
            return eq(o, finite(Y[i])) && eq(s, X[i]) && forall(n, [&](int j) { return j < i ? finite(Y[j])(0) < o(0) : finite(Y[j])(0) <= o(0); });
        }));
    }
    // ---- stopping criteria on any optimiser
    struct AnyBO {
        struct M {
            Vec mu(const Vec& x) const { return any_mu(x); }
            int dim_in() const { return dimin(); }
            static Vec any_mu(const Vec& x);
        };
        struct acqui_optimizer_t {
            template <typename F>
            Vec operator()(const F& f, const Vec& init, bool bounded) const;
        };
        M m;
        Vecs o;
        int it;
        const M& model() const { return m; }
        const Vecs& observations() const { return o; }
        int current_iteration() const { return it; }
        template <typename A>
        Vec best_observation(const A& a) const { return o[best(o, a)]; }
        template <typename A>
        static int best(const Vecs& o, const A& a)
        {
            int b = 0;
            for (int i = 1; i < (int)o.size(); i++)
                if (a(o[i]) > a(o[b]))
                    b = i;
            return b;
        }
    };
    Vec arg_max(double v0, double v1, bool bounded); // any point, depending on the function given
    Vec probe(int i);
#ifdef VERIF_RT
    Vec AnyBO::M::any_mu(const Vec& x)
    {
        Vec v(2);
        v << std::cos(3 * x.sum() + rt_param("mu", 0., 6.)), x.sum();
        return v;
    }
    Vec arg_max(double v0, double v1, bool bounded) { return Vec::Constant(dimin(), bounded ? std::abs(std::sin(3 * v0 + 2 * v1)) : 7.); }
    Vec probe(int i) { return Vec::Constant(dimin(), 0.25 + 0.5 * i); }
#endif
    struct MeanOpt {
        template <typename F>
        Vec operator()(const F& f, const Vec& init, bool bounded) const
        {
            ensures("the mean is maximised from a point of the input space", eq((int)init.size(), dimin()));
            return arg_max(limbo::opt::eval(f, probe(0)), limbo::opt::eval(f, probe(1)), bounded);
        }
    };
    template <typename F>
    Vec AnyBO::acqui_optimizer_t::operator()(const F& f, const Vec& init, bool bounded) const { return MeanOpt()(f, init, bounded); }

    SCENARIO(B04_iterations)
    {
        AnyBO bo;
        bo.it = any_int("iteration");
        ensures("exactly once that many iterations were done", limbo::stop::MaxIterations<P>()(bo, Agg()) == (bo.it >= P::stop_maxiterations::iterations()));
    }
    template <typename C>
    void predicted()
    {
        requires_(dimin() >= 0);
        int n = any_size("n");
        Vecs Y = any_vecs("Y", n, 2);
        AnyBO bo;
        bo.o = Y;
        bo.it = any_int("iteration");
        bool r = C()(bo, Agg());
        double p = agg(AnyBO::M::any_mu(arg_max(agg(AnyBO::M::any_mu(probe(0))), agg(AnyBO::M::any_mu(probe(1))), true)));
        ensures("exactly when the best observation exceeds the ratio of the best prediction", r == (n > 0 && agg(bo.best_observation(Agg())) > P::stop_maxpredictedvalue::ratio() * p));
    }
    SCENARIO(B04_predicted) { predicted<limbo::stop::MaxPredictedValue<P>>(); }
    SCENARIO(B04_predicted_own) { predicted<limbo::stop::MaxPredictedValue<P, MeanOpt>>(); }
    // any list of criteria stops when at least one of them does
    struct Crit {
        int i;
        template <typename BO, typename A>
        bool operator()(const BO& bo, const A&) const { return stop_1(i, bo.current_iteration()); }
    };
    SCENARIO(B04_chain)
    {
        AnyBO bo;
        bo.it = any_int("iteration");
        Agg a;
        bool s = any_bool("so far");
        Crit c;
        c.i = any_int("i");
        limbo::stop::ChainCriteria<AnyBO, Agg> chain(bo, a);
        ensures("or", chain(s, c) == (s || stop_1(c.i, bo.it)));
    }
} // namespace verif
