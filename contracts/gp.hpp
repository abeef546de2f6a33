// abstract kernel, mean and data for contracts on Gaussian processes
#ifndef VERIF_GP_HPP
#define VERIF_GP_HPP
#include "verif.hpp"
#include <limbo/model/gp.hpp>

namespace verif {
    // any symmetric kernel is half(p,a,b) + half(p,b,a) for some function; any noise; any number of parameters
    double k_half(const Vec& p, const Vec& a, const Vec& b);
    double k_half_d(const Vec& p, const Vec& a, const Vec& b, int q); // its derivative with respect to p(q)
    double k_noise(const Vec& p);
    double k_noise_d(const Vec& p, int q);
    int k_size(int dim);
    double k_init(int dim, int q);
    // any mean: a function of its parameters, the point and the model's data
    double m_val(const Vec& p, const Vec& v, const Vec& mean_obs, const Mat& obs, int o);
    double m_grad(const Vec& p, const Vec& v, const Vec& mean_obs, const Mat& obs, int o, int q);
    int m_size(int dim);
    double m_init(int dim, int q);
    struct P {
    };
#ifdef VERIF_RT
    double k_half(const Vec& p, const Vec& a, const Vec& b)
    {
        double s = (p.size() > 0 ? std::exp(0.3 * std::sin(p(0))) : 1.), l = (p.size() > 1 ? std::exp(0.4 * std::sin(p(1))) : 0.8);
        return 0.5 * s * std::exp(-(a - b).squaredNorm() / (2 * l * l));
    }
    double k_noise(const Vec& p) { return p.size() > 2 ? std::exp(-3. + std::sin(p(2))) : 0.05; }
    template <typename F>
    double rt_diff(const F& f, const Vec& p, int q)
    {
        double h = 1e-4;
        auto at = [&](double d) { Vec r = p; r(q) += d; return f(r); };
        return (8. * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12. * h);
    }
    double k_half_d(const Vec& p, const Vec& a, const Vec& b, int q) { return rt_diff([&](const Vec& r) { return k_half(r, a, b); }, p, q); }
    double k_noise_d(const Vec& p, int q) { return rt_diff([&](const Vec& r) { return k_noise(r); }, p, q); }
    int k_size(int dim) { return (int)rt_param("k_size", 0., 3.99); }
    double k_init(int dim, int q) { return 0.1 * dim - 0.3 * q; }
    double m_val(const Vec& p, const Vec& v, const Vec& mo, const Mat& obs, int o)
    {
        return (p.size() > 0 ? p(0) * std::cos(v.sum() + o) : 0.) + (p.size() > 1 ? std::sin(p(1) * v(0)) : 0.2) + mo(o) * 0.5 + 0.1 * obs.rows();
    }
    double m_grad(const Vec& p, const Vec& v, const Vec& mo, const Mat& obs, int o, int q) { return rt_diff([&](const Vec& r) { return m_val(r, v, mo, obs, o); }, p, q); }
    int m_size(int dim) { return (int)rt_param("m_size", 0., 2.99); }
    double m_init(int dim, int q) { return 0.2 * dim + 0.1 * q; }
#else
    using limbo::tools::make_vector;
#endif
    struct Kern {
        Vec p;
        Kern(int dim = 1) : p(build_vec(k_size(dim), [&](int q) { return k_init(dim, q); })) {}
        double operator()(const Vec& a, const Vec& b, int i = -1, int j = -2) const { return k_half(p, a, b) + k_half(p, b, a) + (i == j ? k_noise(p) : 0.); }
        Vec grad(const Vec& a, const Vec& b, int i = -1, int j = -2) const
        {
            return build_vec(p.size(), [&](int q) { return k_half_d(p, a, b, q) + k_half_d(p, b, a, q) + (i == j ? k_noise_d(p, q) : 0.); });
        }
        size_t h_params_size() const { return p.size(); }
        Vec h_params() const { return p; }
        void set_h_params(const Vec& q) { p = q; }
        double noise() const { return k_noise(p); }
    };
    struct Mean {
        int d;
        Vec p;
        Mean(int dim = 1) : d(dim), p(build_vec(m_size(dim), [&](int q) { return m_init(dim, q); })) {}
        template <typename GP>
        Vec operator()(const Vec& v, const GP& gp) const
        {
            return build_vec(d, [&](int o) { return m_val(p, v, gp.mean_observation(), gp.observations_matrix(), o); });
        }
        template <typename GP>
        Mat grad(const Vec& v, const GP& gp) const
        {
            return build_mat(d, p.size(), [&](int o, int q) { return m_grad(p, v, gp.mean_observation(), gp.observations_matrix(), o, q); });
        }
        size_t h_params_size() const { return p.size(); }
        Vec h_params() const { return p; }
        void set_h_params(const Vec& q) { p = q; }
    };
    using GP = limbo::model::GP<P, Kern, Mean>;

    inline int any_dim(const char* name)
    {
        int d = any_size(name);
        requires_(d >= 1);
        return d;
    }
    inline void abs_ok(int di, int d)
    {
        requires_(k_size(di) >= 0 && m_size(d) >= 0);
    }
    // ---- specification
    inline Mat spec_Y(const Vecs& ys, int d)
    {
        return build_mat(ys.size(), d, [&](int i, int o) { return ys[i](o); });
    }
    inline Vec spec_mean_obs(const Vecs& ys, int d)
    {
        return build_vec(d, [&](int o) { return sum(ys.size(), [&](int i) { return ys[i](o); }) / (double)ys.size(); });
    }
    inline double spec_k(const Vec& p, const Vec& a, const Vec& b) { return k_half(p, a, b) + k_half(p, b, a); }
    inline Mat spec_K(const Vec& p, const Vecs& xs)
    {
        return build_mat(xs.size(), xs.size(), [&](int i, int j) { return spec_k(p, xs[i], xs[j]) + (i == j ? k_noise(p) : 0.); });
    }
    inline Mat spec_R(const Vec& pm, const Vecs& xs, const Vecs& ys, int d) // Y - m(X)
    {
        Mat Y = spec_Y(ys, d);
        Vec mo = spec_mean_obs(ys, d);
        return build_mat(xs.size(), d, [&](int i, int o) { return ys[i](o) - m_val(pm, xs[i], mo, Y, o); });
    }
    inline double spec_mu(const Vec& pk, const Vec& pm, const Vecs& xs, const Vecs& ys, int d, const Vec& v, int o)
    {
        int n = xs.size();
        Mat Ki = inverse(spec_K(pk, xs));
        Mat R = spec_R(pm, xs, ys, d);
        return m_val(pm, v, spec_mean_obs(ys, d), spec_Y(ys, d), o) + sum(n, [&](int i) { return spec_k(pk, xs[i], v) * sum(n, [&](int j) { return Ki(i, j) * R(j, o); }); });
    }
    inline double spec_var(const Vec& pk, const Vecs& xs, const Vec& v)
    {
        int n = xs.size();
        Mat Ki = inverse(spec_K(pk, xs));
        return spec_k(pk, v, v) - sum(n, [&](int i) { return sum(n, [&](int j) { return spec_k(pk, xs[i], v) * Ki(i, j) * spec_k(pk, xs[j], v); }); });
    }
    inline double clip_var(double s) { return s <= std::numeric_limits<double>::epsilon() ? 0. : s; }
} // namespace verif
#endif
