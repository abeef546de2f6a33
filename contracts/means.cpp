// M01, K03: mean functions
#include "verif.hpp"
#include <limbo/kernel/exp.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/mean/function_ard.hpp>
#include <limbo/mean/null_function.hpp>
#include <limbo/model/gp.hpp>

namespace verif {
    struct P {
        struct kernel {
            static double noise();
            static bool optimize_noise();
        };
        struct kernel_exp {
            static double sigma_sq();
            static double l();
        };
        struct mean_constant {
            static double constant();
        };
        struct abs_mean {
            static int n(); // number of hyper-parameters of the abstract inner mean
        };
    };
    // an arbitrary mean with hyper-parameters: any base and coefficient functions
    double abs_base(const Vec& x, int o);
    double abs_coef(const Vec& x, int o, int q);
    double abs_init(int q);
#ifdef VERIF_RT
    double P::kernel::noise() { return 0.01; }
    bool P::kernel::optimize_noise() { return false; }
    double P::kernel_exp::sigma_sq() { return 1.; }
    double P::kernel_exp::l() { return 1.; }
    double P::mean_constant::constant() { return rt_param("constant", -3., 3.); }
    int P::abs_mean::n() { return (int)rt_param("abs_n", 0., 3.99); }
    double abs_base(const Vec& x, int o) { return std::sin(x.sum() * 3. + o); }
    double abs_coef(const Vec& x, int o, int q) { return std::cos(x.sum() * (q + 1.) + 2. * o); }
    double abs_init(int q) { return 0.3 * q - 0.2; }
#endif
    struct Abs : public limbo::mean::BaseMean<P> {
        int d;
        Vec p;
        Abs(size_t dim_out = 1) : d(dim_out), p(build_vec(P::abs_mean::n(), [&](int q) { return abs_init(q); })) {}
        size_t h_params_size() const { return P::abs_mean::n(); }
        Vec h_params() const { return p; }
        void set_h_params(const Vec& q) { p = q; }
        template <typename GP>
        Vec operator()(const Vec& x, const GP&) const
        {
            return build_vec(d, [&](int o) { return abs_base(x, o) + sum(P::abs_mean::n(), [&](int q) { return abs_coef(x, o, q) * p(q); }); });
        }
        template <typename GP>
        Mat grad(const Vec& x, const GP&) const
        {
            return build_mat(d, P::abs_mean::n(), [&](int o, int q) { return abs_coef(x, o, q); });
        }
    };
    struct NoModel { // a model whose observation mean is arbitrary
        Vec m;
        Vec mean_observation() const { return m; }
    };
    using Const = limbo::mean::Constant<P>;
    using Null = limbo::mean::NullFunction<P>;
    using Data = limbo::mean::Data<P>;
    using ArdAbs = limbo::mean::FunctionARD<P, Abs>;
    using ArdConst = limbo::mean::FunctionARD<P, Const>;
    using ArdNull = limbo::mean::FunctionARD<P, Null>;
    using ArdData = limbo::mean::FunctionARD<P, Data>;
    using Ard2 = limbo::mean::FunctionARD<P, ArdConst>;

    int any_dim(const char* name)
    {
        int d = any_size(name);
        requires_(d >= 1);
        return d;
    }
    void abs_ok() { requires_(P::abs_mean::n() >= 0); }

    // ---- values
    SCENARIO(M01_null)
    {
        int d = any_dim("dim_out"), n = any_dim("dim_in");
        Null m(d);
        NoModel gp{any_vec("y", d)};
        Vec v = m(any_vec("x", n), gp);
        ensures("one value per output", eq((int)v.size(), d));
        ensures("zero everywhere", forall(d, [&](int o) { return eq(v(o), 0.); }));
        ensures("no hyper-parameter", eq((int)m.h_params_size(), 0));
    }
    SCENARIO(M01_constant)
    {
        int d = any_dim("dim_out"), n = any_dim("dim_in");
        Const m(d);
        NoModel gp{any_vec("y", d)};
        Vec x = any_vec("x", n);
        Vec v = m(x, gp);
        ensures("one value per output", eq((int)v.size(), d));
        ensures("a new constant mean is the configured constant", forall(d, [&](int o) { return eq(v(o), P::mean_constant::constant()); }));
        Vec p = any_vec("p", 1);
        m.set_h_params(p);
        Vec w = m(x, gp);
        ensures("one value per output after setting", eq((int)w.size(), d));
        ensures("the constant that was set", forall(d, [&](int o) { return eq(w(o), p(0)); }));
        Mat g = m.grad(x, gp);
        ensures("gradient shape", eq((int)g.rows(), d) && eq((int)g.cols(), 1));
        ensures("gradient is the derivative of the value", forall(d, [&](int o) {
            return eqn(g(o, 0), deriv([&](const Vec& q) { Const c(d); c.set_h_params(q); Vec u = c(x, gp); return u(o); }, p, 0));
        }));
    }
    SCENARIO(M01_data)
    {
        int d = any_dim("dim_out"), n = any_dim("dim_in");
        using GP = limbo::model::GP<P, limbo::kernel::Exp<P>, Data>;
        Vec x = any_vec("x", n);
        int k = any_dim("k");
        GP gp(n, d);
        Vec z = gp.mean_function()(x, gp);
        ensures("zero without observations", eq((int)z.size(), d) && forall(d, [&](int o) { return eq(z(o), 0.); }));
        Vecs xs = any_vecs("xs", k, n), ys = any_vecs("ys", k, d);
        gp.compute(xs, ys, false);
        Vec v = gp.mean_function()(x, gp);
        ensures("one value per output", eq((int)v.size(), d));
        ensures("the mean of the observations", forall(d, [&](int o) { return eq(v(o), sum(k, [&](int i) { return ys[i](o); }) / k); }));
    }
    template <typename M, typename I>
    void ard_value(M& m, I& inner, int d, int ni)
    {
        int n = any_dim("dim_in");
        int h = d * (d + 1) + ni;
        NoModel gp{any_vec("y", d)};
        Vec x = any_vec("x", n);
        Vec u0 = inner(x, gp);
        Vec v0 = m(x, gp);
        ensures("a new affine mean is its inner mean", eq((int)v0.size(), d) && forall(d, [&](int o) { return eq(v0(o), u0(o)); }));
        Vec p0 = any_vec("p0", h), p = any_vec("p", h);
        m.set_h_params(p0);
        m.set_h_params(p);
        Vec pi = build_vec(ni, [&](int q) { return p(d * (d + 1) + q); });
        inner.set_h_params(pi);
        Vec u = inner(x, gp);
        Vec v = m(x, gp);
        ensures("one value per output", eq((int)v.size(), d));
        ensures("the transformation matrix applied to the extended inner mean", forall(d, [&](int o) {
            return eq(v(o), sum(d, [&](int c) { return p(o * (d + 1) + c) * u(c); }) + p(o * (d + 1) + d));
        }));
    }
    SCENARIO(M01_ard_abs)
    {
        abs_ok();
        int d = any_dim("dim_out");
        ArdAbs m(d);
        Abs i(d);
        ard_value(m, i, d, P::abs_mean::n());
    }
    SCENARIO(M01_ard_constant)
    {
        int d = any_dim("dim_out");
        ArdConst m(d);
        Const i(d);
        ard_value(m, i, d, 1);
    }
    SCENARIO(M01_ard_null)
    {
        int d = any_dim("dim_out");
        ArdNull m(d);
        Null i(d);
        ard_value(m, i, d, 0);
    }
    SCENARIO(M01_ard_data)
    {
        int d = any_dim("dim_out");
        ArdData m(d);
        Data i(d);
        ard_value(m, i, d, 0);
    }
    SCENARIO(M01_ard_nested)
    {
        int d = any_dim("dim_out");
        Ard2 m(d);
        ArdConst i(d);
        ard_value(m, i, d, d * (d + 1) + 1);
    }
    // ---- gradients
    template <typename M>
    void ard_grad(M& m, int d, int ni)
    {
        int n = any_dim("dim_in");
        int h = d * (d + 1) + ni;
        NoModel gp{any_vec("y", d)};
        Vec x = any_vec("x", n);
        Vec p = any_vec("p", h);
        m.set_h_params(p);
        Mat g = m.grad(x, gp);
        ensures("one gradient row per output, one column per hyper-parameter", eq((int)g.rows(), d) && eq((int)g.cols(), h));
        ensures("each entry is the derivative of the value", forall(d, [&](int o) {
            return forall(h, [&](int q) {
                return eqn(g(o, q), deriv([&](const Vec& t) { M c(d); c.set_h_params(t); Vec u = c(x, gp); return u(o); }, p, q));
            });
        }));
    }
    SCENARIO(M01_ard_abs_grad)
    {
        abs_ok();
        int d = any_dim("dim_out");
        ArdAbs m(d);
        ard_grad(m, d, P::abs_mean::n());
    }
    SCENARIO(M01_ard_constant_grad)
    {
        int d = any_dim("dim_out");
        ArdConst m(d);
        ard_grad(m, d, 1);
    }
    SCENARIO(M01_ard_null_grad)
    {
        int d = any_dim("dim_out");
        ArdNull m(d);
        ard_grad(m, d, 0);
    }
    // ---- hyper-parameters
    template <typename M>
    void mean_params(int d, int h)
    {
        M m(d);
        ensures("advertised size", eq((int)m.h_params_size(), h));
        ensures("a new mean reports as many parameters as advertised", eq((int)m.h_params().size(), h));
        Vec p0 = any_vec("p0", h), p = any_vec("p", h);
        m.set_h_params(p0);
        m.set_h_params(p);
        ensures("getter returns exactly the vector that was set", same(m.h_params(), p));
        ensures("advertised size unchanged", eq((int)m.h_params_size(), h));
        Vec x = any_vec("x", any_dim("dim_in"));
        NoModel gp{any_vec("y", d)};
        M fresh(d);
        fresh.set_h_params(p);
        ensures("the value depends only on the parameters set last", eq(Vec(m(x, gp)), Vec(fresh(x, gp))));
    }
    SCENARIO(K03_mean_constant)
    {
        int d = any_dim("dim_out");
        mean_params<Const>(d, 1);
        Const m(d);
        ensures("configured constant", eq(m.h_params()(0), P::mean_constant::constant()));
    }
    SCENARIO(K03_mean_null) { mean_params<Null>(any_dim("dim_out"), 0); }
    SCENARIO(K03_mean_data) { mean_params<Data>(any_dim("dim_out"), 0); }
    SCENARIO(K03_mean_ard)
    {
        abs_ok();
        int d = any_dim("dim_out");
        mean_params<ArdAbs>(d, d * (d + 1) + P::abs_mean::n());
        ArdAbs m(d);
        Vec h = m.h_params();
        ensures("a new affine mean reports the identity transformation", forall(d, [&](int r) { return forall(d + 1, [&](int c) { return eq(h(r * (d + 1) + c), r == c ? 1. : 0.); }); }));
        ensures("and the inner parameters", forall(P::abs_mean::n(), [&](int q) { return eq(h(d * (d + 1) + q), abs_init(q)); }));
    }
    SCENARIO(K03_mean_nested)
    {
        int d = any_dim("dim_out");
        mean_params<Ard2>(d, 2 * d * (d + 1) + 1);
    }
} // namespace verif
