// G01-G04: Gaussian processes
#include "gp.hpp"

namespace verif {
    template <typename G>
    void check_data(const G& gp, const Vecs& xs, const Vecs& ys, int di, int d)
    {
        ensures("the samples given, in order", same(gp.samples(), xs));
        ensures("the observations given, in order", same(gp.observations(), ys));
        ensures("number of samples", eq(gp.nb_samples(), (int)xs.size()));
        ensures("dimensions", eq(gp.dim_in(), di) && eq(gp.dim_out(), d));
        ensures("mean observation", eq(gp.mean_observation(), spec_mean_obs(ys, d)));
        ensures("observations in matrix form", eq(gp.observations_matrix(), spec_Y(ys, d)));
    }
    template <typename G>
    void check_fit(const G& gp, const Vec& pk, const Vec& pm, const Vecs& xs, const Vecs& ys, int d)
    {
        Mat K = spec_K(pk, xs);
        Mat R = spec_R(pm, xs, ys, d);
        ensures("residuals are the observations minus the mean on the current data", eq(gp.obs_mean(), R));
        ensures("the factor is the Cholesky factor of the kernel matrix", is_chol(gp.matrixL(), K));
        Mat Ki = inverse(K);
        int n = xs.size();
        ensures("the weights solve K alpha = Y - m", eqn(gp.alpha(), build_mat(n, d, [&](int i, int o) { return sum(n, [&](int j) { return Ki(i, j) * R(j, o); }); })));
    }
    template <typename G>
    void check_predict(const G& gp, const Vec& pk, const Vec& pm, const Vecs& xs, const Vecs& ys, int di, int d)
    {
        Vec v = any_vec("v", di);
        Vec mu = gp.mu(v);
        double s = gp.sigma(v);
        ensures("one prediction per output", eq((int)mu.size(), d));
        ensures("posterior mean", forall(d, [&](int o) { return eqn(mu(o), spec_mu(pk, pm, xs, ys, d, v, o)); }));
        ensures("posterior variance plus noise", eqn(s, clip_var(spec_var(pk, xs, v)) + k_noise(pk)));
        auto q = gp.query(v);
        ensures("query returns the pair", eq(Vec(std::get<0>(q)), mu) && eq(std::get<1>(q), s));
    }
    // a model with given hyper-parameters fitted in one batch
    void fit(GP& gp, const Vec& pk, const Vec& pm, const Vecs& xs, const Vecs& ys)
    {
        gp.kernel_function().set_h_params(pk);
        gp.mean_function().set_h_params(pm);
        gp.compute(xs, ys);
    }
    Vecs with(const Vecs& a, const Vec& x)
    {
        Vecs r = a;
        r.push_back(x);
        return r;
    }
#define DATA(N)                                                                            \
    int di = any_dim("dim_in"), d = any_dim("dim_out"), n = N;                             \
    abs_ok(di, d);                                                                         \
    Vec pk = any_vec("pk", k_size(di)), pm = any_vec("pm", m_size(d));                     \
    Vecs xs = any_vecs("xs", n, di), ys = any_vecs("ys", n, d);                            \
    GP gp(di, d);

    SCENARIO(G02_compute)
    {
        DATA(any_dim("n"))
        fit(gp, pk, pm, xs, ys);
        check_data(gp, xs, ys, di, d);
        check_fit(gp, pk, pm, xs, ys, d);
    }
    SCENARIO(G02_add)
    {
        DATA(any_dim("n"))
        fit(gp, pk, pm, xs, ys);
        gp.compute_inv_kernel();
        Vec x = any_vec("x", di), y = any_vec("y", d);
        gp.add_sample(x, y);
        Vecs xs2 = with(xs, x), ys2 = with(ys, y);
        check_data(gp, xs2, ys2, di, d);
        check_fit(gp, pk, pm, xs2, ys2, d);
        GP batch(di, d);
        fit(batch, pk, pm, xs2, ys2);
        ensures("the state is that of a batch fit", equiv(gp, batch, "_log_lik _log_loo_cv _inv_kernel _hp_optimize"));
    }
    SCENARIO(G02_add_first)
    {
        DATA(0)
        gp.kernel_function().set_h_params(pk);
        gp.mean_function().set_h_params(pm);
        Vec x = any_vec("x", di), y = any_vec("y", d);
        gp.add_sample(x, y);
        Vecs xs2 = with(xs, x), ys2 = with(ys, y);
        check_data(gp, xs2, ys2, di, d);
        check_fit(gp, pk, pm, xs2, ys2, d);
        GP batch(di, d);
        fit(batch, pk, pm, xs2, ys2);
        ensures("the state is that of a batch fit", equiv(gp, batch, "_log_lik _log_loo_cv _inv_kernel _hp_optimize"));
    }
    // a model built without dimensions takes them, and fresh functions, from the first data
    SCENARIO(G02_default)
    {
        DATA(any_dim("n"))
        GP def;
        def.compute(xs, ys);
        Vec pk0 = build_vec(k_size(di), [&](int q) { return k_init(di, q); }), pm0 = build_vec(m_size(d), [&](int q) { return m_init(d, q); });
        check_data(def, xs, ys, di, d);
        check_fit(def, pk0, pm0, xs, ys, d);
        GP def2;
        Vec x = any_vec("x", di), y = any_vec("y", d);
        def2.add_sample(x, y);
        Vecs none;
        check_data(def2, with(none, x), with(none, y), di, d);
        check_fit(def2, pk0, pm0, with(none, x), with(none, y), d);
    }
    // any earlier fit is forgotten
    SCENARIO(G02_refit)
    {
        DATA(any_dim("n"))
        int n0 = any_dim("n0");
        Vecs xs0 = any_vecs("xs0", n0, di), ys0 = any_vecs("ys0", n0, d);
        fit(gp, pk, pm, xs0, ys0);
        gp.compute_inv_kernel();
        gp.compute(xs, ys);
        check_data(gp, xs, ys, di, d);
        check_fit(gp, pk, pm, xs, ys, d);
        GP batch(di, d);
        fit(batch, pk, pm, xs, ys);
        ensures("the state is that of a new model", equiv(gp, batch, "_log_lik _log_loo_cv _inv_kernel _hp_optimize"));
    }
    SCENARIO(G02_recompute)
    {
        DATA(any_dim("n"))
        Vec qk = any_vec("qk", k_size(di)), qm = any_vec("qm", m_size(d));
        fit(gp, qk, qm, xs, ys);
        gp.compute_inv_kernel();
        gp.kernel_function().set_h_params(pk);
        gp.mean_function().set_h_params(pm);
        gp.recompute();
        check_data(gp, xs, ys, di, d);
        check_fit(gp, pk, pm, xs, ys, d);
        GP batch(di, d);
        fit(batch, pk, pm, xs, ys);
        ensures("the state is that of a new model", equiv(gp, batch, "_log_lik _log_loo_cv _inv_kernel _hp_optimize"));
    }
    SCENARIO(G02_recompute_mean)
    {
        DATA(any_dim("n"))
        Vec qm = any_vec("qm", m_size(d));
        fit(gp, pk, qm, xs, ys);
        gp.mean_function().set_h_params(pm);
        gp.recompute(true, false);
        check_fit(gp, pk, pm, xs, ys, d);
    }
    SCENARIO(G02_delayed)
    {
        DATA(any_dim("n"))
        gp.kernel_function().set_h_params(pk);
        gp.mean_function().set_h_params(pm);
        gp.compute(xs, ys, false);
        gp.recompute(false);
        check_data(gp, xs, ys, di, d);
        check_fit(gp, pk, pm, xs, ys, d);
    }
    SCENARIO(G01_query)
    {
        DATA(any_dim("n"))
        fit(gp, pk, pm, xs, ys);
        check_predict(gp, pk, pm, xs, ys, di, d);
    }
    // the state after add_sample is that of a batch fit (G02_add): compiled code only
    SCENARIO(G01_query_added_rt)
    {
        DATA(any_dim("n"))
        fit(gp, pk, pm, xs, ys);
        Vec x = any_vec("x", di), y = any_vec("y", d);
        gp.add_sample(x, y);
        check_predict(gp, pk, pm, with(xs, x), with(ys, y), di, d);
    }
    SCENARIO(G01_query_recomputed)
    {
        DATA(any_dim("n"))
        Vec qk = any_vec("qk", k_size(di)), qm = any_vec("qm", m_size(d));
        fit(gp, qk, qm, xs, ys);
        gp.kernel_function().set_h_params(pk);
        gp.mean_function().set_h_params(pm);
        gp.recompute();
        check_predict(gp, pk, pm, xs, ys, di, d);
    }
    SCENARIO(G01_empty)
    {
        DATA(0)
        gp.kernel_function().set_h_params(pk);
        gp.mean_function().set_h_params(pm);
        Vec v = any_vec("v", di);
        Mat none = gp.observations_matrix();
        Vec mu = gp.mu(v), zero = build_vec(d, [&](int o) { return 0.; });
        ensures("without samples: the mean function", eq((int)mu.size(), d) && forall(d, [&](int o) { return eq(mu(o), m_val(pm, v, zero, none, o)); }));
        ensures("without samples: the prior variance plus noise", eq(gp.sigma(v), spec_k(pk, v, v) + k_noise(pk)));
        auto q = gp.query(v);
        ensures("query returns the pair", eq(Vec(std::get<0>(q)), mu) && eq(std::get<1>(q), gp.sigma(v)));
    }
    // ---- likelihood and leave-one-out score
    double spec_lik(const Vec& pk, const Vec& pm, const Vecs& xs, const Vecs& ys, int d)
    {
        int n = xs.size();
        Mat K = spec_K(pk, xs), Ki = inverse(K), R = spec_R(pm, xs, ys, d);
        double a = sum(d, [&](int o) { return sum(n, [&](int i) { return sum(n, [&](int j) { return R(i, o) * Ki(i, j) * R(j, o); }); }); });
        return -0.5 * a - 0.5 * logdet(K) - 0.5 * n * std::log(2 * M_PI);
    }
    // log density of y_i under the prediction of the model fitted on all other samples
    double spec_loo(const Vec& pk, const Vec& pm, const Vecs& xs, const Vecs& ys, int d)
    {
        int n = xs.size();
        Mat Ki = inverse(spec_K(pk, xs)), R = spec_R(pm, xs, ys, d);
        return sum(d, [&](int o) {
            return sum(n, [&](int i) {
                double al = sum(n, [&](int j) { return Ki(i, j) * R(j, o); });
                double var = 1. / Ki(i, i), dev = al / Ki(i, i);
                return -0.5 * std::log(var) - sq(dev) / (2. * var) - 0.5 * std::log(2 * M_PI);
            });
        });
    }
    template <typename G>
    void check_scores(G& gp, const Vec& pk, const Vec& pm, const Vecs& xs, const Vecs& ys, int d)
    {
        double l = gp.compute_log_lik();
        ensures("log marginal likelihood", eqn(l, spec_lik(pk, pm, xs, ys, d)));
        ensures("stored likelihood", eq(gp.get_log_lik(), l));
        double c = gp.compute_log_loo_cv();
        ensures("leave-one-out score", eqn(c, spec_loo(pk, pm, xs, ys, d)));
        ensures("stored leave-one-out score", eq(gp.get_log_loo_cv(), c));
        ensures("the stored likelihood is kept", eq(gp.get_log_lik(), l));
    }
    SCENARIO(G03_scores)
    {
        DATA(any_dim("n"))
        fit(gp, pk, pm, xs, ys);
        check_scores(gp, pk, pm, xs, ys, d);
        double u = any_real("u"), w = any_real("w");
        gp.set_log_lik(u);
        gp.set_log_loo_cv(w);
        ensures("a likelihood set from outside is returned", eq(gp.get_log_lik(), u) && eq(gp.get_log_loo_cv(), w));
    }
    SCENARIO(G03_scores_added_rt)
    {
        DATA(any_dim("n"))
        fit(gp, pk, pm, xs, ys);
        gp.compute_log_loo_cv();
        Vec x = any_vec("x", di), y = any_vec("y", d);
        gp.add_sample(x, y);
        check_scores(gp, pk, pm, with(xs, x), with(ys, y), d);
    }
    SCENARIO(G03_scores_recomputed)
    {
        DATA(any_dim("n"))
        Vec qk = any_vec("qk", k_size(di)), qm = any_vec("qm", m_size(d));
        fit(gp, qk, qm, xs, ys);
        gp.compute_log_loo_cv();
        gp.kernel_function().set_h_params(pk);
        gp.mean_function().set_h_params(pm);
        gp.recompute();
        check_scores(gp, pk, pm, xs, ys, d);
    }
    // ---- gradients
    double spec_dK(const Vec& pk, const Vecs& xs, int i, int j, int q)
    {
        return k_half_d(pk, xs[i], xs[j], q) + k_half_d(pk, xs[j], xs[i], q) + (i == j ? k_noise_d(pk, q) : 0.);
    }
    template <typename G>
    void check_grads(G& gp, const Vec& pk, const Vec& pm, const Vecs& xs, const Vecs& ys, int d)
    {
        int n = xs.size();
        Mat Ki = inverse(spec_K(pk, xs)), Y = spec_Y(ys, d);
        Vec mo = spec_mean_obs(ys, d);
        // alpha = K^-1 (Y - m) and the residuals Y - m are the subject of G02
        generalise(gp.alpha());
        generalise(gp.obs_mean());
        Mat A = gp.alpha(), R = gp.obs_mean();
        Vec g = gp.compute_kernel_grad_log_lik();
        ensures("one entry per kernel hyper-parameter", eq((int)g.size(), (int)pk.size()));
        ensures("likelihood gradient is half the trace of (alpha alpha^T - K^-1) dK", forall(pk.size(), [&](int q) {
            return eqn(g(q), 0.5 * sum(n, [&](int i) { return sum(n, [&](int j) { return (sum(d, [&](int o) { return A(i, o) * A(j, o); }) - Ki(i, j)) * spec_dK(pk, xs, i, j, q); }); }));
        }));
        Vec h = gp.compute_mean_grad_log_lik();
        ensures("one entry per mean hyper-parameter", eq((int)h.size(), (int)pm.size()));
        ensures("mean gradient is (Y-m)^T K^-1 dm", forall(pm.size(), [&](int q) {
            return eqn(h(q), sum(d, [&](int o) { return sum(n, [&](int i) { return sum(n, [&](int j) { return R(i, o) * Ki(i, j) * m_grad(pm, xs[j], mo, Y, o, q); }); }); }));
        }));
    }
    template <typename G>
    void check_loo_grad(G& gp, const Vec& pk, const Vec& pm, const Vecs& xs, const Vecs& ys, int d)
    {
        int n = xs.size();
        Mat Ki = inverse(spec_K(pk, xs));
        generalise(gp.alpha());
        Mat A = gp.alpha();
        Vec l = gp.compute_kernel_grad_log_loo_cv();
        ensures("one leave-one-out entry per kernel hyper-parameter", eq((int)l.size(), (int)pk.size()));
        // d/dtheta of the score, with dK^-1 = -K^-1 dK K^-1
        ensures("leave-one-out gradient", forall(pk.size(), [&](int q) {
            return eqn(l(q), sum(d, [&](int o) {
                return sum(n, [&](int i) {
                    double za = sum(n, [&](int a) { return sum(n, [&](int b) { return Ki(i, a) * spec_dK(pk, xs, a, b, q) * A(b, o); }); });
                    double zk = sum(n, [&](int a) { return sum(n, [&](int b) { return Ki(i, a) * spec_dK(pk, xs, a, b, q) * Ki(b, i); }); });
                    return (A(i, o) * za - 0.5 * (1. + sq(A(i, o)) / Ki(i, i)) * zk) / Ki(i, i);
                });
            }));
        }));
    }
    SCENARIO(G04_grads)
    {
        DATA(any_dim("n"))
        fit(gp, pk, pm, xs, ys);
        check_grads(gp, pk, pm, xs, ys, d);
    }
    SCENARIO(G04_loo)
    {
        DATA(any_dim("n"))
        fit(gp, pk, pm, xs, ys);
        check_loo_grad(gp, pk, pm, xs, ys, d);
    }
    SCENARIO(G04_grads_added_rt)
    {
        DATA(any_dim("n"))
        fit(gp, pk, pm, xs, ys);
        gp.compute_inv_kernel();
        Vec x = any_vec("x", di), y = any_vec("y", d);
        gp.add_sample(x, y);
        check_grads(gp, pk, pm, with(xs, x), with(ys, y), d);
    }
    SCENARIO(G04_loo_recomputed)
    {
        DATA(any_dim("n"))
        Vec qk = any_vec("qk", k_size(di)), qm = any_vec("qm", m_size(d));
        fit(gp, qk, qm, xs, ys);
        gp.compute_inv_kernel();
        gp.kernel_function().set_h_params(pk);
        gp.mean_function().set_h_params(pm);
        gp.recompute();
        check_loo_grad(gp, pk, pm, xs, ys, d);
    }
    // the gradients are the numerical derivatives of the scores (compiled code only)
    SCENARIO(G04_derivative_rt)
    {
        DATA(any_dim("n"))
        fit(gp, pk, pm, xs, ys);
        Vec g = gp.compute_kernel_grad_log_lik(), l = gp.compute_kernel_grad_log_loo_cv(), m = gp.compute_mean_grad_log_lik();
        auto score = [&](const Vec& a, const Vec& b, bool loo) { GP w(di, d); fit(w, a, b, xs, ys); return loo ? w.compute_log_loo_cv() : w.compute_log_lik(); };
        if (d == 1)
            ensures("likelihood gradient is the derivative", forall(pk.size(), [&](int q) { return eqn(g(q), deriv([&](const Vec& a) { return score(a, pm, false); }, pk, q)); }));
        ensures("leave-one-out gradient is the derivative", forall(pk.size(), [&](int q) { return eqn(l(q), deriv([&](const Vec& a) { return score(a, pm, true); }, pk, q)); }));
        ensures("mean gradient is the derivative", forall(pm.size(), [&](int q) { return eqn(m(q), deriv([&](const Vec& a) { return score(pk, a, false); }, pm, q)); }));
    }
} // namespace verif
