// A01: acquisition functions
#include "verif.hpp"
#include <limbo/acqui/ei.hpp>
#include <limbo/acqui/gp_ucb.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/experimental/acqui/eci.hpp>

namespace verif {
    // any model: prediction and variance are functions of the model's state (which) and the point
    double mod_mu(int which, const Vec& v, int o);
    double mod_var(int which, const Vec& v); // >= 0
    double agg(const Vec& mu); // any aggregator
    double p_alpha();
    double p_jitter();
    double p_jitter2();
#ifdef VERIF_RT
    double mod_mu(int which, const Vec& v, int o) { return std::sin(3. * v.sum() + o + 1.7 * which) + 0.3 * o; }
    double mod_var(int which, const Vec& v)
    {
        double s = std::cos(2. * v.sum() + which);
        return s < -0.3 ? 0. : (s < -0.1 ? 1e-24 : 0.2 + 0.5 * (1 + s));
    }
    double agg(const Vec& mu)
    {
        double s = 0;
        for (int i = 0; i < mu.size(); i++)
            s += (i + 1) * mu(i);
        return s + 0.1;
    }
    double p_alpha() { return rt_param("alpha", -1., 3.); }
    double p_jitter() { return rt_param("jitter", -0.5, 0.5); }
    double p_jitter2() { return rt_param("jitter2", -0.5, 0.5); }
#endif
    struct Par {
        struct acqui_ucb {
            static double alpha() { return p_alpha(); }
        };
        struct acqui_gpucb {
            static constexpr double delta() { return 0.07; }
        };
        struct acqui_ei {
            static double jitter() { return p_jitter(); }
        };
        struct acqui_eci {
            static double jitter() { return p_jitter2(); }
        };
    };
    struct Model {
        int di, d, which;
        Vecs xs;
        int dim_in() const { return di; }
        int dim_out() const { return d; }
        Vec mu(const Vec& v) const
        {
            return build_vec(d, [&](int o) { return mod_mu(which, v, o); });
        }
        double sigma(const Vec& v) const { return mod_var(which, v); }
        std::tuple<Vec, double> query(const Vec& v) const { return std::make_tuple(mu(v), sigma(v)); }
        const Vecs& samples() const { return xs; }
        int nb_samples() const { return (int)xs.size(); }
    };
    Model any_model(int which, int n, int di, int d, const char* name)
    {
        Model m;
        m.di = di;
        m.d = d;
        m.which = which;
        m.xs = any_vecs(name, n, di);
        return m;
    }
    struct Agg {
        double operator()(const Vec& v) const { return agg(v); }
    };
    static Agg afun;

    void check_value(const limbo::opt::eval_t& r, double spec)
    {
        ensures("the documented value", eqn(limbo::opt::fun(r), spec));
        ensures("no gradient is reported", !std::get<1>(r));
    }
    double Phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.)); }
    double phi(double z) { return std::exp(-0.5 * z * z) / std::sqrt(2. * M_PI); }
    // the best aggregated prediction at the model's samples
    double best(const Model& m)
    {
        return max_of(m.xs.size(), [&](int i) { return agg(m.mu(m.xs[i])); });
    }

    SCENARIO(A01_ucb)
    {
        int di = any_size("dim_in"), d = any_size("dim_out"), n = any_size("n"), it = any_size("iteration");
        requires_(di >= 1 && d >= 1);
        Model m = any_model(1, n, di, d, "xs");
        Vec v = any_vec("v", di);
        requires_(mod_var(1, v) >= 0);
        limbo::acqui::UCB<Par, Model> a(m, it);
        ensures("dimensions of the model", eq((int)a.dim_in(), di) && eq((int)a.dim_out(), d));
        check_value(a(v, afun, false), agg(m.mu(v)) + p_alpha() * std::sqrt(mod_var(1, v)));
    }
    SCENARIO(A01_gp_ucb)
    {
        int di = any_size("dim_in"), d = any_size("dim_out"), n = any_size("n"), it = any_size("iteration");
        requires_(di >= 1 && d >= 1 && it >= 1);
        Model m = any_model(1, n, di, d, "xs");
        Vec v = any_vec("v", di);
        requires_(mod_var(1, v) >= 0);
        limbo::acqui::GP_UCB<Par, Model> a(m, it);
        ensures("dimensions of the model", eq((int)a.dim_in(), di) && eq((int)a.dim_out(), d));
        double kappa = std::sqrt(2. * std::log(std::pow((double)it, di / 2. + 2.) * (M_PI * M_PI) / (3. * Par::acqui_gpucb::delta())));
        check_value(a(v, afun, false), agg(m.mu(v)) + kappa * std::sqrt(mod_var(1, v)));
    }
    SCENARIO(A01_ei)
    {
        int di = any_size("dim_in"), d = any_size("dim_out"), n = any_size("n"), it = any_size("iteration");
        requires_(di >= 1 && d >= 1 && n >= 1);
        Model m = any_model(1, n, di, d, "xs");
        Vec v = any_vec("v", di);
        double var = mod_var(1, v), f = best(m);
        requires_(var >= 0);
        limbo::acqui::EI<Par, Model> a(m, it);
        ensures("dimensions of the model", eq((int)a.dim_in(), di) && eq((int)a.dim_out(), d));
        double s = std::sqrt(var), X = agg(m.mu(v)) - f - p_jitter();
        double spec = s < 1e-10 ? 0. : X * Phi(X / s) + s * phi(X / s);
        check_value(a(v, afun, false), spec);
        // the cached reference does not change the value
        check_value(a(v, afun, false), spec);
    }
    SCENARIO(A01_ei_empty)
    {
        int di = any_size("dim_in"), d = any_size("dim_out");
        requires_(di >= 1 && d >= 1);
        Model m = any_model(1, 0, di, d, "xs");
        Vec v = any_vec("v", di);
        requires_(mod_var(1, v) >= 0);
        limbo::acqui::EI<Par, Model> a(m);
        check_value(a(v, afun, false), 0.);
    }
    // the model grows (and changes its predictions) between two calls
    SCENARIO(A01_ei_follows)
    {
        int di = any_size("dim_in"), d = any_size("dim_out"), n = any_size("n"), n2 = any_size("more");
        requires_(di >= 1 && d >= 1 && n >= 0 && n2 > n);
        Model m = any_model(1, n, di, d, "xs"), m2 = any_model(2, n2, di, d, "xs2");
        Vec v = any_vec("v", di), w = any_vec("w", di);
        double f = best(m2);
        requires_(mod_var(1, v) >= 0 && mod_var(2, w) >= 0);
        limbo::acqui::EI<Par, Model> a(m);
        a(v, afun, false);
        m = m2;
        double s = std::sqrt(mod_var(2, w)), X = agg(m.mu(w)) - f - p_jitter();
        check_value(a(w, afun, false), s < 1e-10 ? 0. : X * Phi(X / s) + s * phi(X / s));
    }
    // constrained expected improvement: multiplied by the probability that the constraint is satisfied
    SCENARIO(A01_eci)
    {
        int di = any_size("dim_in"), d = any_size("dim_out"), n = any_size("n"), nc = any_size("nc");
        requires_(di >= 1 && d >= 1 && n >= 1);
        Model m = any_model(1, n, di, d, "xs"), c = any_model(3, nc, di, 1, "cs");
        Vec v = any_vec("v", di);
        double f = best(m), var = mod_var(1, v), cvar = mod_var(3, v);
        requires_(var >= 0 && cvar >= 0);
        limbo::experimental::acqui::ECI<Par, Model, Model> a(m, c);
        double s = std::sqrt(var), cs = std::sqrt(cvar), X = agg(m.mu(v)) - f - p_jitter2();
        double pf = cs < 1e-10 || nc == 0 ? 1. : Phi((agg(c.mu(v)) - 1.) / cs);
        check_value(a(v, afun, false), s < 1e-10 ? 0. : pf * (X * Phi(X / s) + s * phi(X / s)));
    }
} // namespace verif
