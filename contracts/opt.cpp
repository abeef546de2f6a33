// O01-O03: inner optimisers
#include "verif.hpp"
#include <limbo/opt/adam.hpp>
#include <limbo/opt/gradient_ascent.hpp>
#include <limbo/opt/rprop.hpp>

namespace verif {
    // any objective
    double fval(const Vec& x);
    double fgrad(const Vec& x, int j);
    struct P {
        struct opt_rprop {
            static int iterations();
            static double eps_stop();
        };
        struct opt_gradient_ascent {
            static int iterations();
            static double alpha();
            static double gamma();
            static bool nesterov();
            static double eps_stop();
        };
        struct opt_adam {
            static int iterations();
            static double alpha();
            static double b1();
            static double b2();
            static double eps_stop();
        };
    };
#ifdef VERIF_RT
    double fval(const Vec& x)
    {
        double s = 0, a = rt_param("f", 0., 6.);
        for (int j = 0; j < x.size(); j++)
            s += std::sin(a + 5. * x(j) + j) - a * x(j) * x(j);
        return s;
    }
    double fgrad(const Vec& x, int j)
    {
        double a = rt_param("f", 0., 6.);
        return 5. * std::cos(a + 5. * x(j) + j) - 2 * a * x(j);
    }
    int P::opt_rprop::iterations() { return (int)rt_param("iterations", -1., 40.); }
    double P::opt_rprop::eps_stop() { return std::max(0., rt_param("eps", -1., 1.)); }
    int P::opt_gradient_ascent::iterations() { return (int)rt_param("iterations", -1., 40.); }
    double P::opt_gradient_ascent::alpha() { return rt_param("alpha", 0., 0.3); }
    double P::opt_gradient_ascent::gamma() { return std::max(0., rt_param("gamma", -0.3, 0.99)); }
    bool P::opt_gradient_ascent::nesterov() { return rt_param("nesterov", 0., 1.) > 0.5; }
    double P::opt_gradient_ascent::eps_stop() { return std::max(0., rt_param("eps", -0.1, 0.1)); }
    int P::opt_adam::iterations() { return (int)rt_param("iterations", -1., 40.); }
    double P::opt_adam::alpha() { return rt_param("alpha", 0., 0.3); }
    double P::opt_adam::b1() { return rt_param("b1", 0., 0.99); }
    double P::opt_adam::b2() { return rt_param("b2", 0., 0.999); }
    double P::opt_adam::eps_stop() { return std::max(0., rt_param("eps", -0.1, 0.1)); }
#endif
    inline Vec grad_at(const Vec& x)
    {
        return build_vec(x.size(), [&](int j) { return fgrad(x, j); });
    }
    struct Obj {
        Vecs* log; // points evaluated
        bool bounded;
        limbo::opt::eval_t operator()(const Vec& x, bool g) const
        {
            ensures("the gradient is asked for", g);
            ensures("evaluated within the bounds", !bounded || forall(x.size(), [&](int j) { return 0. <= x(j) && x(j) <= 1.; }));
            log->push_back(x);
            return {fval(x), grad_at(x)};
        }
    };
    inline double clamp(double x, bool bounded)
    {
        double y = bounded && x < 0. ? 0. : x;
        return bounded && y > 1. ? 1. : y;
    }
    inline int sign(double x) { return x > 0. ? 1 : (x < 0. ? -1 : 0); }

    // ---- O01
    // reference: the update rule, one coordinate at a time
    template <bool bounded>
    void rprop()
    {
        int d = any_size("d");
        Vec x0 = any_vec("x0", d);
        requires_(P::opt_rprop::eps_stop() >= 0.);
        int N = P::opt_rprop::iterations();
        Vecs log;
        Vec r = limbo::opt::Rprop<P>()(Obj{&log, bounded}, x0, bounded);
        int n = log.size();
        ensures("at most the configured number of evaluations", n <= std::max(N, 0) && (N <= 0 || n > 0));
        ensures("returned within the bounds", !bounded || forall(d, [&](int j) { return 0. <= r(j) && r(j) <= 1.; }));
        ensures("the clamped start without evaluations", n > 0 || eq(r, build_vec(d, [&](int j) { return clamp(x0(j), bounded); })));
        ensures("no evaluated point is better", forall(n, [&](int i) { return fval(log[i]) <= fval(r); }));
        ensures("an evaluated point, the first of the best", n == 0 || exists(n, [&](int i) {
            return eq(r, log[i]) && forall(i, [&](int j) { return fval(log[j]) < fval(r); });
        }));
    }
    // ---- O02
    inline void clamp_all(Vec& x, bool bounded)
    {
        for (int j = 0; j < x.size(); j++)
            x(j) = clamp(x(j), bounded);
    }
    template <typename F>
    void log_matches(const Vecs& log, const Vecs& ref, F f)
    {
        ensures("as many evaluations as the update rule makes", log.size() == ref.size());
        ensures("evaluates the points of the update rule", log.size() != ref.size() || forall(log.size(), [&](int i) { return eq(log[i], ref[i]); }));
    }
    inline double dist(const Vec& a, const Vec& b)
    {
        return std::sqrt(sum(a.size(), [&](int j) { return (a(j) - b(j)) * (a(j) - b(j)); }));
    }
    template <bool bounded>
    void adam()
    {
        int d = any_size("d");
        Vec x0 = any_vec("x0", d);
        double a = P::opt_adam::alpha(), b1 = P::opt_adam::b1(), b2 = P::opt_adam::b2(), eps = P::opt_adam::eps_stop();
        requires_(a >= 0. && b1 >= 0. && b1 < 1. && b2 >= 0. && b2 < 1.);
        int N = P::opt_adam::iterations();
        Vecs log;
        Vec r = limbo::opt::Adam<P>()(Obj{&log, bounded}, x0, bounded);
        ensures("at most the configured number of evaluations", (int)log.size() <= std::max(N, 0));
        ensures("returned within the bounds", !bounded || forall(d, [&](int j) { return 0. <= r(j) && r(j) <= 1.; }));
        // reference
        Vecs ref;
        Vec x = x0, m = build_vec(d, [&](int) { return 0.; }), v = m;
        double p1 = b1, p2 = b2;
        clamp_all(x, bounded);
        for (int i = 0; i < N; i++) {
            ref.push_back(x);
            Vec g = grad_at(x), y = x;
            for (int j = 0; j < d; j++) {
                m(j) = b1 * m(j) + (1. - b1) * g(j);
                v(j) = b2 * v(j) + (1. - b2) * (g(j) * g(j));
                x(j) = x(j) + a * (m(j) / (1. - p1)) / (std::sqrt(v(j) / (1. - p2)) + 1e-8);
            }
            p1 *= b1;
            p2 *= b2;
            clamp_all(x, bounded);
            if (dist(y, x) < eps)
                break;
        }
        ensures("the point of the update rule", eq(r, x));
        log_matches(log, ref, 0);
    }
    SCENARIO(O02_adam_bounded) { adam<true>(); }
    SCENARIO(O02_adam_unbounded) { adam<false>(); }
    template <bool bounded, bool nesterov>
    void ascent()
    {
        int d = any_size("d");
        Vec x0 = any_vec("x0", d);
        double a = P::opt_gradient_ascent::alpha(), ga = P::opt_gradient_ascent::gamma(), eps = P::opt_gradient_ascent::eps_stop();
        requires_(a >= 0. && ga >= 0. && ga < 1. && P::opt_gradient_ascent::nesterov() == nesterov);
        int N = P::opt_gradient_ascent::iterations();
        Vecs log;
        Vec r = limbo::opt::GradientAscent<P>()(Obj{&log, bounded}, x0, bounded);
        ensures("at most the configured number of evaluations", (int)log.size() <= std::max(N, 0));
        ensures("returned within the bounds", !bounded || forall(d, [&](int j) { return 0. <= r(j) && r(j) <= 1.; }));
        // reference
        Vecs ref;
        Vec x = x0, v = build_vec(d, [&](int) { return 0.; });
        clamp_all(x, bounded);
        for (int i = 0; i < N; i++) {
            Vec q = x, y = x;
            if (nesterov) {
                for (int j = 0; j < d; j++)
                    q(j) = x(j) + ga * v(j);
                clamp_all(q, bounded);
            }
            ref.push_back(q);
            Vec g = grad_at(q);
            for (int j = 0; j < d; j++) {
                v(j) = ga * v(j) + a * g(j);
                x(j) = x(j) + v(j);
            }
            clamp_all(x, bounded);
            if (dist(y, x) < eps)
                break;
        }
        ensures("the point of the update rule", eq(r, x));
        log_matches(log, ref, 0);
    }
    SCENARIO(O02_plain_bounded) { ascent<true, false>(); }
    SCENARIO(O02_plain_unbounded) { ascent<false, false>(); }
    SCENARIO(O02_nesterov_bounded) { ascent<true, true>(); }
    SCENARIO(O02_nesterov_unbounded) { ascent<false, true>(); }
    SCENARIO(O01_bounded) { rprop<true>(); }
    SCENARIO(O01_unbounded) { rprop<false>(); }
} // namespace verif
