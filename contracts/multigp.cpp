// G05: multi-output Gaussian processes
// FLAGS: -fno-access-control
#include "verif.hpp"
#include <limbo/model/gp.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>

namespace verif {
    struct P {
    };
    // any mean function; predictions of any single-output model (any function of what it was fitted on)
    double m_val(const Vec& v, const Vec& mean_obs, int o);
    double out_mu(const Vecs& xs, const Vecs& ys, const Vec& v);
    double out_sigma(const Vecs& xs, const Vecs& ys, const Vec& v);
#ifdef VERIF_RT
    double m_val(const Vec& v, const Vec& mo, int o) { return std::sin(2. * v.sum() + o) + 0.3 * mo(o); }
    double out_mu(const Vecs& xs, const Vecs& ys, const Vec& v)
    {
        double s = 0.1 * xs.size();
        for (size_t i = 0; i < xs.size(); i++)
            s += ys[i](0) * std::cos((v - xs[i]).sum() + i);
        return s;
    }
    double out_sigma(const Vecs& xs, const Vecs& ys, const Vec& v)
    {
        double s = 1.;
        for (size_t i = 0; i < xs.size(); i++)
            s += std::exp(-(v - xs[i]).squaredNorm()) * (i + 1) + 0.01 * ys[i].size() * ys[i](0) * ys[i](0);
        return s;
    }
#endif
    struct Kern {
        Kern(int dim = 1) {}
        size_t h_params_size() const { return 0; }
    };
    struct Mean {
        int d;
        Mean(int dim = 1) : d(dim) {}
        template <typename G>
        Vec operator()(const Vec& v, const G& gp) const
        {
            return build_vec(d, [&](int o) { return m_val(v, gp.mean_observation(), o); });
        }
    };
    // the single-output model: what MultiGP may rely on (the contract of model::GP, see G01-G04)
    template <typename Params, typename KernelFunction, typename MeanFunction, typename Opt>
    struct Single {
        int di, d;
        bool kernel = true;
        int computes = 0, adds = 0, recomputes = 0, fits = 0;
        bool re_mean = true, re_kernel = false;
        Vecs xs, ys;
        Single() : di(-1), d(-1) {}
        Single(int dim_in, int dim_out) : di(dim_in), d(dim_out) {}
        void compute(const Vecs& x, const Vecs& y, bool compute_kernel = true)
        {
            computes++;
            kernel = compute_kernel;
            xs = x;
            ys = y;
        }
        void add_sample(const Vec& x, const Vec& y)
        {
            adds++;
            xs.push_back(x);
            ys.push_back(y);
        }
        void recompute(bool update_obs_mean = true, bool update_full_kernel = true)
        {
            recomputes++;
            re_mean = update_obs_mean;
            re_kernel = update_full_kernel;
        }
        const Vecs& samples() const { return xs; }
        bool zero_mean(const Vec& v) const
        {
            Vec m = MeanFunction(1)(v, *this);
            return m.size() == 1 && m(0) == 0.;
        }
        std::tuple<Vec, double> query(const Vec& v) const { return std::make_tuple(build_vec(1, [&](int) { return out_mu(xs, ys, v); }), out_sigma(xs, ys, v)); }
        Vec mu(const Vec& v) const { return build_vec(1, [&](int) { return out_mu(xs, ys, v); }); }
        double sigma(const Vec& v) const { return out_sigma(xs, ys, v); }
    };
    // hyper-parameter optimiser of one output
    struct Hp {
        template <typename G>
        void operator()(G& g) const { g.fits++; }
    };
    using Multi = limbo::model::MultiGP<P, Single, Kern, Mean>;

    inline int any_dim(const char* name)
    {
        int d = any_size(name);
        requires_(d >= 1);
        return d;
    }
    inline Vec mean_of(const Vecs& ys, int d)
    {
        return build_vec(d, [&](int o) { return sum(ys.size(), [&](int i) { return ys[i](o); }) / (double)ys.size(); });
    }
    inline Vecs with(const Vecs& a, const Vec& x)
    {
        Vecs r = a;
        r.push_back(x);
        return r;
    }
    template <typename G>
    void check_data(const G& gp, const Vecs& xs, const Vecs& ys, int di, int d)
    {
        ensures("the observations given, in order", same(gp.observations(), ys));
        ensures("number of samples", gp.nb_samples() == (int)xs.size());
        ensures("dimensions", gp.dim_in() == di && gp.dim_out() == d);
        ensures("mean observation", eq(gp.mean_observation(), mean_of(ys, d)));
        ensures("observations in matrix form", eq(gp.observations_matrix(), build_mat(ys.size(), d, [&](int i, int o) { return ys[i](o); })));
        ensures("the samples given, in order", same(gp.samples(), xs));
        ensures("one model per output", (int)gp._gp_models.size() == d);
    }
    // what output o is modelled on
    inline Vecs residuals(const Vecs& xs, const Vecs& ys, int d, int o)
    {
        Vec mo = mean_of(ys, d);
        return build_vecs(xs.size(), [&](int j) { return build_vec(1, [&](int) { return ys[j](o) - m_val(xs[j], mo, o); }); });
    }
    template <typename G>
    void check_outputs(const G& gp, const Vecs& xs, const Vecs& ys, int d)
    {
        Vec mo = mean_of(ys, d);
        ensures("every output is modelled on the samples", forall(d, [&](int o) { return gp._gp_models[o].xs.size() == xs.size() && forall(xs.size(), [&](int j) { return same(gp._gp_models[o].xs[j], xs[j]); }); }));
        ensures("with its coordinate of the observations minus the mean", forall(d, [&](int o) {
            return gp._gp_models[o].ys.size() == ys.size() && forall(ys.size(), [&](int j) { return gp._gp_models[o].ys[j].size() == 1 && eq(gp._gp_models[o].ys[j](0), ys[j](o) - m_val(xs[j], mo, o)); });
        }));
    }
    template <typename G>
    void check_zero(const G& gp, int di, int d)
    {
        Vec w = any_vec("w", di);
        ensures("the outputs' models have mean zero", forall(d, [&](int o) { return gp._gp_models[o].zero_mean(w); }));
    }
    template <typename G>
    void check_predict(const G& gp, const Vecs& ys, int di, int d)
    {
        Vec v = any_vec("v", di);
        Vec mo = mean_of(ys, d);
        Vec mu = gp.mu(v), s = gp.sigma(v);
        ensures("one prediction per output", mu.size() == d && s.size() == d);
        ensures("the output's mean with the mean function added back", forall(d, [&](int o) { return eq(mu(o), out_mu(gp._gp_models[o].xs, gp._gp_models[o].ys, v) + m_val(v, mo, o)); }));
        ensures("the output's variance", forall(d, [&](int o) { return eq(s(o), out_sigma(gp._gp_models[o].xs, gp._gp_models[o].ys, v)); }));
        auto q = gp.query(v);
        ensures("query returns both", eq(Vec(std::get<0>(q)), mu) && eq(Vec(std::get<1>(q)), s));
    }
#define DATA                                                                                            \
    int di = any_dim("dim_in"), d = any_dim("dim_out"), n = any_dim("n");                               \
    Vecs xs = any_vecs("xs", n, di), ys = any_vecs("ys", n, d);

    SCENARIO(G05_compute)
    {
        DATA
        Multi gp(di, d);
        gp.compute(xs, ys);
        check_data(gp, xs, ys, di, d);
        check_outputs(gp, xs, ys, d);
        ensures("each output is fitted once", forall(d, [&](int o) { return gp._gp_models[o].computes == 1 && gp._gp_models[o].kernel; }));
        check_zero(gp, di, d);
        check_predict(gp, ys, di, d);
    }
    SCENARIO(G05_default)
    {
        DATA
        Multi gp;
        gp.compute(xs, ys, false);
        check_data(gp, xs, ys, di, d);
        check_outputs(gp, xs, ys, d);
        ensures("each output is fitted once", forall(d, [&](int o) { return gp._gp_models[o].computes == 1 && !gp._gp_models[o].kernel; }));
        check_predict(gp, ys, di, d);
    }
    SCENARIO(G05_refit)
    {
        DATA
        int d0 = any_dim("d0"), n0 = any_dim("n0");
        Vecs xs0 = any_vecs("xs0", n0, di), ys0 = any_vecs("ys0", n0, d0);
        Multi gp(di, d0);
        gp.compute(xs0, ys0);
        gp.compute(xs, ys);
        check_data(gp, xs, ys, di, d);
        check_outputs(gp, xs, ys, d);
        check_predict(gp, ys, di, d);
    }
    SCENARIO(G05_add)
    {
        DATA
        Multi gp(di, d);
        gp.compute(xs, ys);
        Vec x = any_vec("x", di), y = any_vec("y", d);
        gp.add_sample(x, y);
        Vecs xs2 = with(xs, x), ys2 = with(ys, y);
        check_data(gp, xs2, ys2, di, d);
        Vec mo = mean_of(ys2, d);
        ensures("every output gets the sample", forall(d, [&](int o) { return gp._gp_models[o].adds == 1 && (int)gp._gp_models[o].xs.size() == n + 1 && same(gp._gp_models[o].xs[n], x); }));
        ensures("with its residual", forall(d, [&](int o) { return (int)gp._gp_models[o].ys.size() == n + 1 && gp._gp_models[o].ys[n].size() == 1 && eq(gp._gp_models[o].ys[n](0), y(o) - m_val(x, mo, o)); }));
        check_predict(gp, ys2, di, d);
    }
    SCENARIO(G05_add_first)
    {
        int di = any_dim("dim_in"), d = any_dim("dim_out");
        Vec x = any_vec("x", di), y = any_vec("y", d);
        Vecs none, xs = with(none, x), ys = with(none, y);
        Multi gp, gp2(di, d);
        gp.add_sample(x, y);
        check_data(gp, xs, ys, di, d);
        check_outputs(gp, xs, ys, d);
        gp2.add_sample(x, y);
        check_data(gp2, xs, ys, di, d);
        check_outputs(gp2, xs, ys, d);
    }
    SCENARIO(G05_recompute)
    {
        DATA
        Multi gp(di, d);
        gp.compute(xs, ys);
        bool full = any_bool("full");
        gp.recompute(false, full);
        ensures("every output is recomputed", forall(d, [&](int o) { return gp._gp_models[o].recomputes == 1 && !gp._gp_models[o].re_mean && gp._gp_models[o].re_kernel == full; }));
        check_data(gp, xs, ys, di, d);
        check_outputs(gp, xs, ys, d);
        gp.recompute(true, full);
        check_data(gp, xs, ys, di, d);
        check_outputs(gp, xs, ys, d);
        ensures("and refitted when the mean changes", forall(d, [&](int o) { return gp._gp_models[o].computes == 2 && gp._gp_models[o].kernel == full; }));
    }
    SCENARIO(G05_optimise)
    {
        DATA
        limbo::model::MultiGP<P, Single, Kern, Mean, limbo::model::multi_gp::ParallelLFOpt<P, Hp>> gp(di, d);
        gp.compute(xs, ys);
        gp.optimize_hyperparams();
        ensures("every output is optimised once", forall(d, [&](int o) { return gp._gp_models[o].fits == 1; }));
        check_data(gp, xs, ys, di, d);
        check_outputs(gp, xs, ys, d);
    }
}
