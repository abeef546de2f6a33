// K01, K02, K03: kernels
#include "verif.hpp"
#include <limbo/kernel/exp.hpp>
#include <limbo/kernel/matern_five_halves.hpp>
#include <limbo/kernel/matern_three_halves.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>

namespace verif {
    // parameters are arbitrary functions of nothing: the proofs hold for every configuration
    struct P {
        struct kernel {
            static double noise();
            static bool optimize_noise();
        };
        struct kernel_exp {
            static double sigma_sq();
            static double l();
        };
        struct kernel_maternthreehalves {
            static double sigma_sq();
            static double l();
        };
        struct kernel_maternfivehalves {
            static double sigma_sq();
            static double l();
        };
        struct kernel_squared_exp_ard {
            static double sigma_sq();
            static int k();
        };
    };
#ifdef VERIF_RT
    double P::kernel::noise() { return rt_param("noise", 1e-3, 2.); }
    bool P::kernel::optimize_noise() { return rt_param("optimize_noise", 0., 1.) > 0.5; }
    double P::kernel_exp::sigma_sq() { return rt_param("sigma_sq", 0.05, 5.); }
    double P::kernel_exp::l() { return rt_param("l", 0.1, 3.); }
    double P::kernel_maternthreehalves::sigma_sq() { return rt_param("sigma_sq", 0.05, 5.); }
    double P::kernel_maternthreehalves::l() { return rt_param("l", 0.1, 3.); }
    double P::kernel_maternfivehalves::sigma_sq() { return rt_param("sigma_sq", 0.05, 5.); }
    double P::kernel_maternfivehalves::l() { return rt_param("l", 0.1, 3.); }
    double P::kernel_squared_exp_ard::sigma_sq() { return rt_param("sigma_sq", 0.05, 5.); }
    int P::kernel_squared_exp_ard::k() { return (int)rt_param("k", 0., 3.99); }
#endif
    using Exp = limbo::kernel::Exp<P>;
    using M32 = limbo::kernel::MaternThreeHalves<P>;
    using M52 = limbo::kernel::MaternFiveHalves<P>;
    using ARD = limbo::kernel::SquaredExpARD<P>;

    // ---- documented covariance functions, of the log-space hyper-parameters p
    inline double dist2(const Vec& a, const Vec& b)
    {
        return sum(a.size(), [&](int i) { return sq(a(i) - b(i)); });
    }
    inline double spec_exp(const Vec& p, const Vec& a, const Vec& b)
    {
        return std::exp(2. * p(1)) * std::exp(-dist2(a, b) / (2. * sq(std::exp(p(0)))));
    }
    inline double spec_m32(const Vec& p, const Vec& a, const Vec& b)
    {
        double t = std::sqrt(3.) * std::sqrt(dist2(a, b)) / std::exp(p(0));
        return std::exp(2. * p(1)) * (1. + t) * std::exp(-t);
    }
    inline double spec_m52(const Vec& p, const Vec& a, const Vec& b)
    {
        double t = std::sqrt(5.) * std::sqrt(dist2(a, b)) / std::exp(p(0));
        return std::exp(2. * p(1)) * (1. + t + sq(t) / 3.) * std::exp(-t);
    }
    // (a-b)^T (A A^T + diag(ell^-2)) (a-b), with A(i,j) = p(D + j D + i) and ell(i) = exp(p(i))
    inline double spec_ard(int k, const Vec& p, const Vec& a, const Vec& b)
    {
        int D = a.size();
        double z = sum(D, [&](int i) { return sq((a(i) - b(i)) / std::exp(p(i))); });
        double y = sum(k, [&](int j) { return sq(sum(D, [&](int i) { return (a(i) - b(i)) * p((j + 1) * D + i); })); });
        return std::exp(2. * p(D + D * k)) * std::exp(-0.5 * (z + y));
    }
    inline double noise_term(double noise, int i, int j) { return i == j ? noise + 1e-8 : 0.; }

    template <typename K, typename S>
    void kernel_value(int dim, int nparams, S spec)
    {
        bool on = P::kernel::optimize_noise();
        K k(dim);
        int n = nparams + (on ? 1 : 0);
        Vec p0 = any_vec("p0", n);
        Vec p = any_vec("p", n);
        Vec a = any_vec("a", dim), b = any_vec("b", dim);
        int i = any_int("i"), j = any_int("j");
        ensures("the advertised size is the number of hyper-parameters", eq((int)k.h_params_size(), n));
        Vec init = k.h_params();
        ensures("a new kernel's value is the formula at the parameters it reports", eq(k(a, b, i, j), spec(init, a, b) + noise_term(P::kernel::noise(), i, j)));
        ensures("default indices add no noise", eq(k(a, b), spec(init, a, b)));
        k.set_h_params(p0); // any earlier history
        k.set_h_params(p);
        double noise = on ? std::exp(2. * p(n - 1)) : P::kernel::noise();
        ensures("the value is the documented formula, plus noise exactly for equal indices", eq(k(a, b, i, j), spec(p, a, b) + noise_term(noise, i, j)));
        ensures("default indices add no noise after setting parameters", eq(k(a, b), spec(p, a, b)));
        ensures("symmetry", eq(k(a, b, i, j), k(b, a, j, i)));
        ensures("noise() is the noise", eq(k.noise(), noise));
    }
    template <typename K, typename S>
    void kernel_bounds(int dim, int nparams, int ivar, S spec)
    {
        bool on = P::kernel::optimize_noise();
        K k(dim);
        Vec p = any_vec("p", nparams + (on ? 1 : 0));
        Vec a = any_vec("a", dim), b = any_vec("b", dim);
        k.set_h_params(p);
        ensures("the value is the documented formula", eq(k(a, b), spec(p, a, b)));
        ensures("equal points give the signal variance", eq(k(a, a), std::exp(2. * p(ivar))));
        ensures("never above the signal variance", k(a, b) <= std::exp(2. * p(ivar)) * (1. + 1e-12));
        ensures("positive", k(a, b) >= 0.);
    }

    void valid_params()
    {
        requires_(P::kernel::noise() > 0.);
        requires_(P::kernel_exp::sigma_sq() > 0. && P::kernel_exp::l() > 0.);
        requires_(P::kernel_maternthreehalves::sigma_sq() > 0. && P::kernel_maternthreehalves::l() > 0.);
        requires_(P::kernel_maternfivehalves::sigma_sq() > 0. && P::kernel_maternfivehalves::l() > 0.);
        requires_(P::kernel_squared_exp_ard::sigma_sq() > 0. && P::kernel_squared_exp_ard::k() >= 0);
    }
    int any_dim()
    {
        int dim = any_size("dim");
        requires_(dim >= 1);
        return dim;
    }

    SCENARIO(K01_exp) { valid_params(); kernel_value<Exp>(any_dim(), 2, spec_exp); }
    SCENARIO(K01_m32) { valid_params(); kernel_value<M32>(any_dim(), 2, spec_m32); }
    SCENARIO(K01_m52) { valid_params(); kernel_value<M52>(any_dim(), 2, spec_m52); }
    SCENARIO(K01_ard)
    {
        valid_params();
        int dim = any_dim(), k = P::kernel_squared_exp_ard::k();
        kernel_value<ARD>(dim, dim + dim * k + 1, [&](const Vec& p, const Vec& a, const Vec& b) { return spec_ard(k, p, a, b); });
    }
    SCENARIO(K01_exp_bounds) { valid_params(); kernel_bounds<Exp>(any_dim(), 2, 1, spec_exp); }
    SCENARIO(K01_m32_bounds) { valid_params(); kernel_bounds<M32>(any_dim(), 2, 1, spec_m32); }
    SCENARIO(K01_m52_bounds) { valid_params(); kernel_bounds<M52>(any_dim(), 2, 1, spec_m52); }
    SCENARIO(K01_ard_bounds)
    {
        valid_params();
        int dim = any_dim(), k = P::kernel_squared_exp_ard::k();
        kernel_bounds<ARD>(dim, dim + dim * k + 1, dim + dim * k, [&](const Vec& p, const Vec& a, const Vec& b) { return spec_ard(k, p, a, b); });
    }

    template <typename K>
    void kernel_gradient(int dim, int nparams)
    {
        bool on = P::kernel::optimize_noise();
        int n = nparams + (on ? 1 : 0);
        Vec p0 = any_vec("p0", n), p = any_vec("p", n);
        Vec a = any_vec("a", dim), b = any_vec("b", dim);
        int i = any_int("i"), j = any_int("j");
        K k(dim);
        k.set_h_params(p0);
        k.set_h_params(p);
        Vec g = k.grad(a, b, i, j);
        ensures("one gradient entry per hyper-parameter", eq((int)g.size(), n));
        auto value = [&](const Vec& q) {
            K kk(dim);
            kk.set_h_params(q);
            return kk(a, b, i, j);
        };
        ensures("each entry is the partial derivative of the kernel value", forall(n, [&](int q) { return eqn(g(q), deriv(value, p, q)); }));
        Vec g0 = k.grad(a, b);
        ensures("default indices: no noise derivative", forall(n, [&](int q) { return eq(g0(q), (q < nparams) ? g(q) : 0.); }));
        if (on)
            ensures("noise entry is twice the noise for equal indices, 0 otherwise", eq(g(n - 1), i == j ? 2. * k.noise() : 0.));
    }
    SCENARIO(K02_exp) { valid_params(); kernel_gradient<Exp>(any_dim(), 2); }
    SCENARIO(K02_m32) { valid_params(); kernel_gradient<M32>(any_dim(), 2); }
    SCENARIO(K02_m52) { valid_params(); kernel_gradient<M52>(any_dim(), 2); }
    SCENARIO(K02_ard)
    {
        valid_params();
        int dim = any_dim();
        kernel_gradient<ARD>(dim, dim + dim * P::kernel_squared_exp_ard::k() + 1);
    }

    template <typename K>
    void kernel_params(int dim, int nparams)
    {
        bool on = P::kernel::optimize_noise();
        int n = nparams + (on ? 1 : 0);
        K k(dim);
        Vec p0 = any_vec("p0", n), p = any_vec("p", n);
        Vec a = any_vec("a", dim), b = any_vec("b", dim);
        int i = any_int("i"), j = any_int("j");
        ensures("a new kernel reports as many parameters as advertised", eq((int)k.h_params().size(), (int)k.h_params_size()) && eq((int)k.h_params_size(), n));
        if (on)
            ensures("a new kernel reports the configured noise", eq(k.h_params()(n - 1), std::log(std::sqrt(P::kernel::noise()))));
        k.set_h_params(p0);
        k.set_h_params(p);
        ensures("getter returns exactly the vector that was set", same(k.h_params(), p));
        ensures("advertised size unchanged", eq((int)k.h_params_size(), n));
        K fresh(dim);
        fresh.set_h_params(p);
        ensures("behaviour depends only on the parameters set last", eq(k(a, b, i, j), fresh(a, b, i, j)));
    }
    SCENARIO(K03_exp)
    {
        valid_params();
        kernel_params<Exp>(any_dim(), 2);
        Exp k(1);
        ensures("configured length scale", eq(k.h_params()(0), std::log(P::kernel_exp::l())));
        ensures("configured signal variance", eq(k.h_params()(1), 0.5 * std::log(P::kernel_exp::sigma_sq())));
    }
    SCENARIO(K03_m32)
    {
        valid_params();
        kernel_params<M32>(any_dim(), 2);
        M32 k(1);
        ensures("configured length scale", eq(k.h_params()(0), std::log(P::kernel_maternthreehalves::l())));
        ensures("configured signal variance", eq(k.h_params()(1), 0.5 * std::log(P::kernel_maternthreehalves::sigma_sq())));
    }
    SCENARIO(K03_m52)
    {
        valid_params();
        kernel_params<M52>(any_dim(), 2);
        M52 k(1);
        ensures("configured length scale", eq(k.h_params()(0), std::log(P::kernel_maternfivehalves::l())));
        ensures("configured signal variance", eq(k.h_params()(1), 0.5 * std::log(P::kernel_maternfivehalves::sigma_sq())));
    }
    SCENARIO(K03_ard)
    {
        valid_params();
        int dim = any_dim(), n = dim + dim * P::kernel_squared_exp_ard::k() + 1;
        kernel_params<ARD>(dim, n);
        ARD k(dim);
        Vec h = k.h_params();
        ensures("configured signal variance, unit length scales and no low-rank part", forall(n, [&](int q) { return eq(h(q), q == n - 1 ? 0.5 * std::log(P::kernel_squared_exp_ard::sigma_sq()) : 0.); }));
    }
} // namespace verif
