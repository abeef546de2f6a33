// O04: the wrappers of NLopt
// FLAGS: -fno-access-control -DUSE_NLOPT
// NLopt itself is an external library: the class below states what the wrappers may rely on (optimize starts from the
// point it is given, calls the objective it was given at any points and any number of times, and leaves any point)
#define NLOPT_HPP
#include "verif.hpp"
#include <stdexcept>
namespace verif {
    // where NLopt evaluates the objective in the r-th evaluation, and the point it ends with
    double probe(int r, int j);
    double solution(int j);
    bool gradient_free();
    int evaluations();
}
namespace nlopt {
    enum algorithm {
        GN_DIRECT = 0, GN_DIRECT_L, GN_DIRECT_L_RAND, GN_DIRECT_NOSCAL, GN_DIRECT_L_NOSCAL, GN_DIRECT_L_RAND_NOSCAL,
        GN_ORIG_DIRECT, GN_ORIG_DIRECT_L, GD_STOGO, GD_STOGO_RAND, LD_LBFGS_NOCEDAL, LD_LBFGS, LN_PRAXIS, LD_VAR1, LD_VAR2,
        LD_TNEWTON, LD_TNEWTON_RESTART, LD_TNEWTON_PRECOND, LD_TNEWTON_PRECOND_RESTART, GN_CRS2_LM, GN_MLSL, GD_MLSL,
        GN_MLSL_LDS, GD_MLSL_LDS, LD_MMA, LN_COBYLA, LN_NEWUOA, LN_NEWUOA_BOUND, LN_NELDERMEAD, LN_SBPLX, LN_AUGLAG,
        LD_AUGLAG, LN_AUGLAG_EQ, LD_AUGLAG_EQ, LN_BOBYQA, GN_ISRES, AUGLAG, AUGLAG_EQ, G_MLSL, G_MLSL_LDS, LD_SLSQP,
        LD_CCSAQ, GN_ESCH, GN_AGS, NUM_ALGORITHMS
    };
    using vfunc = double (*)(const std::vector<double>&, std::vector<double>&, void*);
    struct roundoff_limited : public std::runtime_error {
        roundoff_limited() : std::runtime_error("nlopt roundoff-limited") {}
    };
    struct opt {
        algorithm alg = NUM_ALGORITHMS;
        int n = 0;
        vfunc fn = nullptr;
        void* data = nullptr;
        bool maximise = false;
        int maxeval = 0;
        double ftol = 0., xtol = 0.;
        bool bounded_below = false, bounded_above = false;
        std::vector<double> lb, ub;
        // the run
        int runs = 0;
        std::vector<double> start;
        std::vector<double> values;
        std::vector<std::vector<double>> points;
        std::vector<std::vector<double>> grads;

        opt() {}
        opt(algorithm a, unsigned d) : alg(a), n((int)d) {}
        unsigned get_dimension() const { return (unsigned)n; }
        void set_max_objective(vfunc f, void* d) { fn = f; data = d; maximise = true; }
        void set_min_objective(vfunc f, void* d) { fn = f; data = d; maximise = false; }
        void set_lower_bounds(const std::vector<double>& b) { lb = b; bounded_below = true; }
        void set_upper_bounds(const std::vector<double>& b) { ub = b; bounded_above = true; }
        void set_maxeval(int m) { maxeval = m; }
        void set_ftol_rel(double t) { ftol = t; }
        void set_xtol_rel(double t) { xtol = t; }
        void set_ftol_abs(double) {}
        void set_xtol_abs(double) {}
        void add_inequality_constraint(vfunc, void*, double) {}
        void add_equality_constraint(vfunc, void*, double) {}
        int optimize(std::vector<double>& x, double& v)
        {
            runs++;
            start = x;
            for (int r = 0; r < verif::evaluations(); r++) {
                std::vector<double> p(n), g(verif::gradient_free() ? 0 : n);
                for (int j = 0; j < n; j++)
                    p[j] = verif::probe(r, j);
                v = fn(p, g, data);
                values.push_back(v);
                points.push_back(p);
                grads.push_back(g);
            }
            for (int j = 0; j < n; j++)
                x[j] = verif::solution(j);
            return 1;
        }
    };
}
#include <limbo/opt/nlopt_grad.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>

namespace verif {
    double fval(const Vec& x);
    double dval(const Vec& x, int j);
    struct Par {
        struct opt_nloptgrad {
            static int iterations();
            static double fun_tolerance();
            static double xrel_tolerance();
        };
        struct opt_nloptnograd {
            static int iterations();
            static double fun_tolerance();
            static double xrel_tolerance();
        };
    };
#ifdef VERIF_RT
    double probe(int r, int j) { return rt_param(("p" + std::to_string(r % 3) + "_" + std::to_string(j)).c_str(), -1., 2.); }
    int evaluations() { return (int)rt_param("evaluations", 0., 6.); }
    double solution(int j) { return rt_param(("s" + std::to_string(j)).c_str(), -1., 2.); }
    bool gradient_free() { return rt_param("gradient_free", 0., 2.) < 1.; }
    double fval(const Vec& x)
    {
        double s = 0.3;
        for (int j = 0; j < x.size(); j++)
            s += std::sin(3. * x(j) + j);
        return s;
    }
    double dval(const Vec& x, int j) { return 3. * std::cos(3. * x(j) + j); }
    int Par::opt_nloptgrad::iterations() { return 1 + (int)rt_param("git", 0., 300.); }
    double Par::opt_nloptgrad::fun_tolerance() { return rt_param("gft", -1., 1.); }
    double Par::opt_nloptgrad::xrel_tolerance() { return rt_param("gxt", -1., 1.); }
    int Par::opt_nloptnograd::iterations() { return 1 + (int)rt_param("nit", 0., 300.); }
    double Par::opt_nloptnograd::fun_tolerance() { return rt_param("nft", -1., 1.); }
    double Par::opt_nloptnograd::xrel_tolerance() { return rt_param("nxt", -1., 1.); }
#endif
    struct Obj {
        Vecs* log;
        std::vector<int>* flags;
        limbo::opt::eval_t operator()(const Vec& x, bool g) const
        {
            log->push_back(x);
            flags->push_back(g ? 1 : 0);
            if (!g)
                return limbo::opt::no_grad(fval(x));
            Vec d = build_vec(x.size(), [&](int j) { return dval(x, j); });
            return limbo::opt::eval_t{fval(x), d};
        }
    };
    template <typename O>
    void check(O& o, int d, const Vec& x0, bool bounded, const Vec& r, const Vecs& log, const std::vector<int>& fl, int used)
    {
        nlopt::opt& s = o._opt;
        int n = evaluations();
        ensures("a problem of the right dimension", s.n == d && s.runs >= 1);
        ensures("the objective is maximised", s.maximise);
        ensures("started from the given point", (int)s.start.size() == d && forall(d, [&](int j) { return s.start[j] == x0(j); }));
        if (bounded)
            ensures("restricted to the box", s.bounded_below && s.bounded_above && (int)s.lb.size() == d && (int)s.ub.size() == d && forall(d, [&](int j) { return s.lb[j] == 0. && s.ub[j] == 1.; }));
        else {
            ensures("not restricted below", !s.bounded_below || forall(d, [&](int j) { return s.lb[j] == -HUGE_VAL; }));
            ensures("not restricted above", !s.bounded_above || forall(d, [&](int j) { return s.ub[j] == HUGE_VAL; }));
        }
        ensures("the objective is evaluated at NLopt's points only", (int)log.size() == n && forall(n, [&](int k) { return log[k].size() == d && forall(d, [&](int j) { return log[k](j) == probe(k, j); }); }));
        ensures("a gradient is asked for when NLopt wants one", forall(n, [&](int k) { return fl[k] == (gradient_free() ? 0 : 1); }));
        ensures("NLopt gets the value", forall(n, [&](int k) { return s.values[used + k] == fval(log[k]); }));
        if (!gradient_free())
            ensures("NLopt gets the gradient", forall(n, [&](int k) { return (int)s.grads[used + k].size() == d && forall(d, [&](int j) { return s.grads[used + k][j] == dval(log[k], j); }); }));
        ensures("NLopt's solution is returned", r.size() == d && forall(d, [&](int j) { return r(j) == solution(j); }));
    }
    template <typename O>
    void once(O& o)
    {
        int d = any_size("d");
        requires_(d > 0 && evaluations() >= 0);
        Vec x0 = any_vec("x0", d);
        bool bounded = any_bool("bounded");
        Vecs log;
        std::vector<int> fl;
        Vec r = o(Obj{&log, &fl}, x0, bounded);
        check(o, d, x0, bounded, r, log, fl, 0);
    }
    SCENARIO(O04_grad)
    {
        limbo::opt::NLOptGrad<Par, nlopt::LD_MMA> o;
        once(o);
        ensures("the algorithm asked for", o._opt.alg == nlopt::LD_MMA);
        ensures("the configured budget and tolerances", o._opt.maxeval == Par::opt_nloptgrad::iterations() && o._opt.ftol == Par::opt_nloptgrad::fun_tolerance() && o._opt.xtol == Par::opt_nloptgrad::xrel_tolerance());
    }
    SCENARIO(O04_nograd)
    {
        limbo::opt::NLOptNoGrad<Par, nlopt::LN_SBPLX> o;
        once(o);
        ensures("the algorithm asked for", o._opt.alg == nlopt::LN_SBPLX);
        ensures("the configured budget and tolerances", o._opt.maxeval == Par::opt_nloptnograd::iterations() && o._opt.ftol == Par::opt_nloptnograd::fun_tolerance() && o._opt.xtol == Par::opt_nloptnograd::xrel_tolerance());
    }
    // the same object used again, in another dimension and with another bounds flag
    SCENARIO(O04_again)
    {
        int d = any_size("d"), d2 = any_size("d2");
        requires_(d > 0 && d2 > 0 && evaluations() >= 0);
        Vec x0 = any_vec("x0", d), x1 = any_vec("x1", d2);
        bool b0 = any_bool("b0"), b1 = any_bool("b1");
        Vecs log0, log;
        std::vector<int> fl0, fl;
        limbo::opt::NLOptGrad<Par, nlopt::LD_LBFGS> o;
        o(Obj{&log0, &fl0}, x0, b0);
        int used = d == d2 ? evaluations() : 0;
        Vec r = o(Obj{&log, &fl}, x1, b1);
        check(o, d2, x1, b1, r, log, fl, used);
        ensures("the configured budget and tolerances", o._opt.maxeval == Par::opt_nloptgrad::iterations() && o._opt.ftol == Par::opt_nloptgrad::fun_tolerance() && o._opt.xtol == Par::opt_nloptgrad::xrel_tolerance());
    }
}
