// X02: ParEGO
// FLAGS: -fno-access-control
#include "verif.hpp"
#include <limbo/tools/macros.hpp>
#include <limbo/tools/math.hpp>
#include <limbo/tools/random_generator.hpp>
#include <limbo/experimental/model/gp_parego.hpp>

namespace verif {
    struct P {
        struct model_gp_parego {
            static double rho();
        };
    };
    // predictions of any single-output model
    double out_mu(const Vecs& xs, const Vecs& ys, const Vec& v);
    double out_sigma(const Vecs& xs, const Vecs& ys, const Vec& v);
    double draw(int round, int i); // the random generator (its contract: T02)
#ifdef VERIF_RT
    double P::model_gp_parego::rho() { return rt_param("rho", -0.5, 1.); }
    double out_mu(const Vecs& xs, const Vecs& ys, const Vec& v) { return ys.back()(0) + v.sum() + xs.size(); }
    double out_sigma(const Vecs& xs, const Vecs& ys, const Vec& v) { return ys[0](0) * v.sum() - xs.size(); }
#endif
    struct Base {
        int di, d;
        int computes = 0;
        Vecs _samples, _obs;
        Base() : di(-1), d(-1) {}
        Base(int dim_in, int dim_out) : di(dim_in), d(dim_out) {}
        void compute(const Vecs& x, const Vecs& y, bool = true)
        {
            computes++;
            _samples = x;
            _obs = y;
        }
        void add_sample(const Vec& x, const Vec& y)
        {
            _samples.push_back(x);
            _obs.push_back(y);
        }
        Vec mu(const Vec& v) const { return build_vec(1, [&](int) { return out_mu(_samples, _obs, v); }); }
        double sigma(const Vec& v) const { return out_sigma(_samples, _obs, v); }
        std::tuple<Vec, double> query(const Vec& v) const { return std::make_tuple(mu(v), sigma(v)); }
    };
    using Model = limbo::experimental::model::GPParego<P, Base>;
    inline int any_dim(const char* name)
    {
        int d = any_size(name);
        requires_(d >= 1);
        return d;
    }
    inline Vecs with(const Vecs& a, const Vec& x)
    {
        Vecs r = a;
        r.push_back(x);
        return r;
    }
    inline double cheb(const Vec& w, const Vec& y)
    {
        int d = y.size();
        return max_of(d, [&](int i) { return w(i) * y(i); }) + P::model_gp_parego::rho() * sum(d, [&](int i) { return w(i) * y(i); });
    }
    // the weights of one fit: what the random generator gives, divided by its sum
    inline void check_fit(const Model& m, const Vecs& xs, const Vecs& ys, const Vec& w)
    {
        ensures("fitted on the samples", same(m._samples, xs));
        ensures("one scalar observation per sample", m._obs.size() == ys.size() && forall(ys.size(), [&](int i) { return m._obs[i].size() == 1; }));
        ensures("the augmented Chebyshev value of each observation", forall(ys.size(), [&](int i) { return eqn(m._obs[i](0), cheb(w, ys[i])); }));
    }

    // the weights of the given fit: by the contract of random_vector in the verifier; recovered from observations that are
    // unit vectors, which have the value (1 + rho) w_i, at run time
    inline Vec weights(int round, int d, const Model& m, int first_unit)
    {
#ifdef VERIF_RT
        return build_vec(d, [&](int i) { return m._obs[first_unit + i](0) / (1. + P::model_gp_parego::rho()); });
#else
        double s = sum(d, [&](int i) { return draw(round, i); });
        requires_(s > 0.);
        return build_vec(d, [&](int i) { return draw(round, i) / s; });
#endif
    }
    inline void simplex(const Vec& w, int d)
    {
        ensures("non-negative weights", forall(d, [&](int i) { return w(i) >= 0.; }));
        ensures("weights that sum to one", eqn(sum(d, [&](int i) { return w(i); }), 1.));
    }
    SCENARIO(X02_fit)
    {
        int di = any_dim("dim_in"), d = any_dim("dim_out"), n = any_dim("n");
        Vecs xs = any_vecs("xs", n + d, di);
        Vecs free = any_vecs("ys", n, d);
        Vecs ys = build_vecs(n + d, [&](int k) { return build_vec(d, [&](int i) { return k < n ? free[k](i) : k - n == i ? 1. : 0.; }); });
        int round = 0;
        calls("random_vector", [&](int size, bool bounded) {
            int r = round++;
            ensures("weights are drawn from [0,1]", bounded);
            ensures("one weight per objective", size == d);
            requires_(forall(size, [&](int i) { return 0. <= draw(r, i) && draw(r, i) <= 1.; }));
            return build_vec(size, [&](int i) { return draw(r, i); });
        });
        Model m(di, d);
        ensures("a single-output model", m.di == di && m.d == 1);
        m.compute(xs, ys);
        Vec w = weights(0, d, m, n);
        simplex(w, d);
        check_fit(m, xs, ys, w);
        ensures("one fit", m.computes == 1);
        Vec x = any_vec("x", di), y = any_vec("y", d);
        m.add_sample(x, y);
        Vec w2 = weights(1, d, m, n);
        simplex(w2, d);
        check_fit(m, with(xs, x), with(ys, y), w2);
        ensures("refitted", m.computes == 2);
#ifdef VERIF_RT
        ensures("new weights for each fit", d == 1 || !eq(w, w2));
#endif
        Vec v = any_vec("v", di);
        ensures("the model's predictions", eq(m.mu(v)(0), out_mu(m._samples, m._obs, v)) && eq(m.sigma(v), out_sigma(m._samples, m._obs, v)));
    }
    // built without dimensions, and fitted first with another number of objectives
    SCENARIO(X02_refit)
    {
        int di = any_dim("dim_in"), d = any_dim("dim_out"), d0 = any_dim("d0"), n = any_dim("n");
        Vecs xs = any_vecs("xs", n + d, di), xs0 = any_vecs("xs0", n, di);
        Vecs free = any_vecs("ys", n, d), ys0 = any_vecs("ys0", n, d0);
        Vecs ys = build_vecs(n + d, [&](int k) { return build_vec(d, [&](int i) { return k < n ? free[k](i) : k - n == i ? 1. : 0.; }); });
        int round = 0;
        calls("random_vector", [&](int size, bool) {
            int r = round++;
            requires_(forall(size, [&](int i) { return 0. <= draw(r, i) && draw(r, i) <= 1.; }));
            return build_vec(size, [&](int i) { return draw(r, i); });
        });
        Model m;
        m.compute(xs0, ys0);
        m.compute(xs, ys);
        Vec w = weights(1, d, m, n);
        simplex(w, d);
        check_fit(m, xs, ys, w);
    }
}
