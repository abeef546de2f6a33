// X03: constrained Bayesian optimisation
#include "verif.hpp"
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>

namespace verif {
    int dimin();
    int n_obj();
    int n_con();
    double f_val(int i, const Vec& x, int j); // j-th value of the i-th evaluation: the objectives, then the constraints
    int n_design();
    Vec design(int i);
    Vec next_pt(int evals, int iteration);
    bool stop_1(int evals, int iteration);
    double agg(const Vec& v);
    struct P {
        struct bayes_opt_bobase {
            static bool stats_enabled() { return false; }
            static bool bounded();
        };
        struct bayes_opt_cboptimizer {
            static int hp_period();
            static bool bounded() { return bayes_opt_bobase::bounded(); }
        };
        struct stop_maxiterations {
            static int iterations() { return 3; }
        };
    };
#ifdef VERIF_RT
    int dimin() { return 1 + (int)rt_param("dim", 0., 3.); }
    int n_obj() { return 1 + (int)rt_param("objectives", 0., 3.); }
    int n_con() { return (int)rt_param("constraints", 0., 3.); }
    double f_val(int i, const Vec& x, int j)
    {
        double v = std::round(3. * std::sin(3 * i + 7 * j + 5. * x.sum() + rt_param("f", 0., 6.)));
        return j < n_obj() ? v : v > 0 ? 1. : 0.;
    }
    int n_design() { return (int)rt_param("design", 0., 4.); }
    Vec design(int i) { return Vec::Constant(dimin(), std::abs(std::sin(i + 1.))); }
    Vec next_pt(int e, int it) { return Vec::Constant(dimin(), std::abs(std::sin(e * 1.7 + it * 0.3))); }
    bool stop_1(int e, int it) { return it >= 12 || std::sin(e * 1.1 + it * 2.3 + rt_param("stop", 0., 6.)) > 0.8; }
    double agg(const Vec& v) { return std::round(2. * std::sin(v.sum() + v(v.size() - 1) + rt_param("agg", 0., 6.))); }
    bool P::bayes_opt_bobase::bounded() { return rt_param("bounded", 0., 1.) > 0.5; }
    int P::bayes_opt_cboptimizer::hp_period() { return (int)rt_param("hp", -1.99, 5.); }
#endif
    inline Vec obs(int i, const Vec& x)
    {
        return finite(build_vec(n_obj() + n_con(), [&](int j) { return f_val(i, x, j); }));
    }
    inline Vec objective(int i, const Vec& x)
    {
        return build_vec(n_obj(), [&](int j) { return obs(i, x)(j); });
    }
    inline Vec constraint(int i, const Vec& x)
    {
        return build_vec(n_con(), [&](int j) { return obs(i, x)(n_obj() + j); });
    }
    struct Agg {
        using result_type = double;
        double operator()(const Vec& v) const { return agg(v); }
    };
    struct Fun {
        static int dim_in() { return dimin(); }
        static int dim_out() { return n_obj(); }
        static int nb_constraints() { return n_con(); }
        Vecs* log;
        Fun(Vecs* l) : log(l) {}
        Vec operator()(const Vec& x) const
        {
            log->push_back(x);
            return obs(log->size() - 1, x);
        }
    };
    // a model records what it is told
    struct Model {
        Vecs S, O;
        int in, out, computes, adds, hps, resets;
        Model() : in(0), out(n_obj()), computes(0), adds(0), hps(0), resets(0) {}
        Model(int i, int o) : in(i), out(o), computes(0), adds(0), hps(0), resets(1) {}
        void compute(const Vecs& s, const Vecs& o)
        {
            S = s;
            O = o;
            computes++;
        }
        void add_sample(const Vec& s, const Vec& o)
        {
            S.push_back(s);
            O.push_back(o);
            adds++;
        }
        void optimize_hyperparams() { hps++; }
        int dim_in() const { return dimin(); }
        int dim_out() const { return n_obj(); }
    };
    struct Acqui {
        const Model& m;
        const Model& c;
        int it;
        Acqui(const Model& model, const Model& constraints, int iteration = 0) : m(model), c(constraints), it(iteration) {}
        template <typename A>
        limbo::opt::eval_t operator()(const Vec& x, const A& afun, bool gradient) const
        {
            return std::make_pair((double)m.S.size() + 0. * afun(x), boost::optional<Vec>(Vec::Constant(1, (double)it)));
        }
    };
    struct AcquiOpt {
        template <typename F>
        Vec operator()(const F& f, const Vec& init, bool bounded) const
        {
            ensures("the search starts from a point of the input space", eq((int)init.size(), dimin()));
            ensures("the search is bounded exactly as configured", bounded == P::bayes_opt_bobase::bounded());
            auto r = f(init, false);
            return next_pt((int)r.first, (int)(*r.second)(0));
        }
    };
    struct Design {
        template <typename F, typename A, typename Opt>
        void operator()(const F& f, const A&, Opt& opt) const
        {
            for (int i = 0; i < n_design(); i++)
                opt.eval_and_add(f, design(i));
        }
    };
    struct Stop1 {
        template <typename BO, typename A>
        bool operator()(const BO& bo, const A&) const { return stop_1(bo.samples().size(), bo.current_iteration()); }
    };
    struct Base : public limbo::experimental::bayes_opt::CBOptimizer<P, limbo::modelfun<Model>, limbo::acquifun<Acqui>, limbo::acquiopt<AcquiOpt>,
                      limbo::initfun<Design>, limbo::statsfun<boost::fusion::vector<>>, limbo::stopcrit<boost::fusion::vector<Stop1>>,
                      limbo::experimental::constraint_modelfun<Model>> {
        const Model& constraints() const { return _constraint_model; }
        void history(const Vecs& X)
        {
            _nb_constraints = n_con();
            _dim_out = n_obj();
            for (int i = 0; i < (int)X.size(); i++)
                add_new_sample(X[i], obs(i, X[i]));
        }
    };

    template <bool constrained>
    void shapes()
    {
        requires_(n_design() >= 0 && dimin() >= 0 && n_obj() > 0 && (constrained ? n_con() > 0 : n_con() == 0));
    }
    template <bool constrained>
    void run()
    {
        shapes<constrained>();
        Vecs log;
        Base opt;
        opt.optimize(Fun(&log), Agg(), any_bool("reset"));
        int n0 = n_design(), n = log.size(), T = n - n0, hp = P::bayes_opt_cboptimizer::hp_period();
        ensures("the design is evaluated first", n >= n0 && forall(n0, [&](int i) { return eq(log[i], design(i)); }));
        ensures("one sample and one observation per evaluation", eq((int)opt.samples().size(), n) && eq((int)opt.observations().size(), n));
        ensures("samples in evaluation order, with their own observation", forall(n, [&](int i) { return eq(opt.samples()[i], log[i]) && eq(opt.observations()[i], obs(i, log[i])); }));
        ensures("each iteration evaluates the point chosen for it", forall(T, [&](int k) { return eq(log[n0 + k], next_pt(n0 + k, k)); }));
        ensures("the model has been given the samples and the objectives", eqvs(opt.model().S, opt.samples()) && eq((int)opt.model().O.size(), n) && forall(n, [&](int i) { return eq(opt.model().O[i], objective(i, log[i])); }));
        ensures("iterations are counted", eq(opt.current_iteration(), T) && eq(opt.total_iterations(), T) && eq(opt.model().adds, T));
        if (constrained) {
            ensures("the constraint model has been given the samples and the constraints", eqvs(opt.constraints().S, opt.samples()) && eq((int)opt.constraints().O.size(), n) && forall(n, [&](int i) { return eq(opt.constraints().O[i], constraint(i, log[i])); }));
            ensures("one update of the constraint model per iteration", eq(opt.constraints().adds, T) && eq(opt.constraints().hps, opt.model().hps));
        }
    }
    SCENARIO(X03_run) { run<false>(); }
    SCENARIO(X03_run_constrained) { run<true>(); }

    inline bool feasible(int i, const Vec& x) { return n_con() == 0 || constraint(i, x).prod() > 0; }
    template <bool constrained>
    void best()
    {
        shapes<constrained>();
        int n = any_size("n") + 1, d = any_size("d");
        Vecs X = any_vecs("X", n, d);
        Base opt;
        opt.history(X);
        Vec s = opt.best_sample(Agg()), o = opt.best_observation(Agg());
        bool some = exists(n, [&](int i) { return feasible(i, X[i]); });
        ensures("the first evaluation with the best aggregated objective among the feasible ones, or among all when none is feasible", exists(n, [&](int i) {
            return eq(s, X[i]) && eq(o, objective(i, X[i])) && (!some || feasible(i, X[i]))
                && forall(n, [&](int j) { return (some && !feasible(j, X[j])) || (j < i ? agg(objective(j, X[j])) < agg(o) : agg(objective(j, X[j])) <= agg(o)); });
        }));
        Vec s2 = opt.best_sample(Agg()), o2 = opt.best_observation(Agg());
        ensures("asking again gives the same", eq(s, s2) && eq(o, o2));
    }
    SCENARIO(X03_best) { best<false>(); }
    SCENARIO(X03_best_constrained) { best<true>(); }
}
