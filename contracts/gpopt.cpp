// G07: hyper-parameter optimisation
// FLAGS: -fno-access-control
#include "gp.hpp"
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/model/gp/kernel_loo_opt.hpp>
#include <limbo/model/gp/kernel_mean_lf_opt.hpp>
#include <limbo/model/gp/mean_lf_opt.hpp>

namespace verif {
    // any inner optimiser: it may evaluate anywhere and return anything
    double cand(int k, int j);
    double sol(int j);
    // the gradients of the scores with respect to kernel hyper-parameters, whose values are the subject of G04: functions
    // of the fitted state
    double lik_grad(const Vec& pk, const Mat& alpha, const Mat& L, const Vecs& xs, int q);
    double loo_grad(const Vec& pk, const Mat& alpha, const Mat& L, const Vecs& xs, int q);
#ifdef VERIF_RT
    double lik_grad(const Vec& pk, const Mat& alpha, const Mat& L, const Vecs& xs, int q) { return 0.; }
    double loo_grad(const Vec& pk, const Mat& alpha, const Mat& L, const Vecs& xs, int q) { return 0.; }
    double cand(int k, int j) { return rt_param(("c" + std::to_string(k) + "_" + std::to_string(j)).c_str(), -2., 2.); }
    double sol(int j) { return rt_param(("s" + std::to_string(j)).c_str(), -2., 2.); }
#endif
    // what the inner optimiser was given and what it saw
    struct Run {
        int runs = 0;
        bool bounded = true;
        Vec init;
        Vec q0, q1;
        double v0 = 0., v1 = 0., w1 = 0.;
        bool plain = true, full = true;
        Vec g1;
    };
    inline Run& last()
    {
        static Run r;
        return r;
    }
    struct Inner {
        template <typename F>
        Vec operator()(const F& f, const Vec& init, bool bounded) const
        {
            Run& r = last();
            r.runs++;
            r.init = init;
            r.bounded = bounded;
            r.q0 = build_vec(init.size(), [&](int j) { return cand(0, j); });
            r.q1 = build_vec(init.size(), [&](int j) { return cand(1, j); });
            auto a = f(r.q0, false);
            r.v0 = limbo::opt::fun(a);
            r.plain = !std::get<1>(a).is_initialized();
            auto b = f(r.q1, true);
            r.v1 = limbo::opt::fun(b);
            r.full = std::get<1>(b).is_initialized();
            r.g1 = limbo::opt::grad(b);
            r.w1 = limbo::opt::fun(f(r.q1, false));
            return build_vec(init.size(), [&](int j) { return sol(j); });
        }
    };
    template <typename Opt>
    using Gp = limbo::model::GP<P, Kern, Mean, Opt>;
    template <typename G>
    void fit(G& gp, const Vec& pk, const Vec& pm, const Vecs& xs, const Vecs& ys)
    {
        gp.kernel_function().set_h_params(pk);
        gp.mean_function().set_h_params(pm);
        gp.compute(xs, ys);
    }
    inline Vec part(const Vec& v, int from, int n)
    {
        return build_vec(n, [&](int j) { return v(from + j); });
    }
    // kernel, mean: which hyper-parameters are optimised; loo: which score
    template <typename Opt, bool kernel, bool mean, bool loo>
    void optimise()
    {
        int di = any_dim("dim_in"), d = any_dim("dim_out"), n = any_dim("n");
        abs_ok(di, d);
        int ks = k_size(di), ms = m_size(d);
        Vec pk = any_vec("pk", ks), pm = any_vec("pm", ms);
        Vecs xs = any_vecs("xs", n, di), ys = any_vecs("ys", n, d);
        Gp<Opt> gp(di, d);
        fit(gp, pk, pm, xs, ys);
        last() = Run();
        // the contracts of the gradients
        auto ready = [&](const Gp<Opt>& g) {
            ensures("the inverse kernel matrix is recomputed for the gradient or current", !g._inv_kernel_updated || eqn(g._inv_kernel, inverse(spec_K(g.kernel_function().h_params(), xs))));
        };
        calls_on("compute_kernel_grad_log_lik", [&](const Gp<Opt>& g) {
            ready(g);
            return build_vec(ks, [&](int q) { return lik_grad(g.kernel_function().h_params(), g.alpha(), g.matrixL(), g.samples(), q); });
        });
        calls_on("compute_kernel_grad_log_loo_cv", [&](const Gp<Opt>& g) {
            ready(g);
            return build_vec(ks, [&](int q) { return loo_grad(g.kernel_function().h_params(), g.alpha(), g.matrixL(), g.samples(), q); });
        });
        gp.optimize_hyperparams();
        Run& r = last();
        int s = (kernel ? ks : 0) + (mean ? ms : 0);
        ensures("one search, without bounds", r.runs == 1 && !r.bounded);
        ensures("from the current hyper-parameters", r.init.size() == s && (!kernel || eq(part(r.init, 0, ks), pk)) && (!mean || eq(part(r.init, s - ms, ms), pm)));
        auto kpart = [&](const Vec& q) { return kernel ? part(q, 0, ks) : pk; };
        auto mpart = [&](const Vec& q) { return mean ? part(q, s - ms, ms) : pm; };
        // the score of the model's data with other hyper-parameters
        Gp<Opt> a(di, d), b(di, d), c(di, d);
        fit(a, kpart(r.q0), mpart(r.q0), xs, ys);
        fit(b, kpart(r.q1), mpart(r.q1), xs, ys);
        ensures("the value maximised is the score of the candidate", eqn(r.v0, loo ? a.compute_log_loo_cv() : a.compute_log_lik()));
        ensures("also when the gradient is asked for", eqn(r.v1, loo ? b.compute_log_loo_cv() : b.compute_log_lik()));
        ensures("candidates do not influence each other", eqn(r.w1, loo ? b.get_log_loo_cv() : b.get_log_lik()));
        ensures("a gradient exactly when asked for", r.plain && r.full);
        ensures("one gradient entry per hyper-parameter", r.g1.size() == s);
        if (kernel) {
            Vec g = loo ? b.compute_kernel_grad_log_loo_cv() : b.compute_kernel_grad_log_lik();
            ensures("the gradient is the gradient of the score", forall(ks, [&](int j) { return eqn(r.g1(j), g(j)); }));
        }
        if (mean) {
            Vec g = b.compute_mean_grad_log_lik();
            ensures("the mean part of the gradient is the gradient of the score", forall(ms, [&](int j) { return eqn(r.g1(s - ms + j), g(j)); }));
        }
        Vec best = build_vec(s, [&](int j) { return sol(j); });
        ensures("the kernel parameters found are installed", eq(gp.kernel_function().h_params(), kpart(best)));
        ensures("the mean parameters found are installed", eq(gp.mean_function().h_params(), mpart(best)));
        ensures("the data are unchanged", same(gp.samples(), xs) && same(gp.observations(), ys));
        fit(c, kpart(best), mpart(best), xs, ys);
        ensures("the stored score is that of the model", eqn(loo ? gp.get_log_loo_cv() : gp.get_log_lik(), loo ? c.compute_log_loo_cv() : c.compute_log_lik()));
        ensures("the model is refitted", equiv(gp, c, "_log_lik _log_loo_cv _inv_kernel _inv_kernel_updated _hp_optimize"));
    }
    SCENARIO(G07_kernel) { optimise<limbo::model::gp::KernelLFOpt<P, Inner>, true, false, false>(); }
    SCENARIO(G07_loo) { optimise<limbo::model::gp::KernelLooOpt<P, Inner>, true, false, true>(); }
    SCENARIO(G07_mean) { optimise<limbo::model::gp::MeanLFOpt<P, Inner>, false, true, false>(); }
    SCENARIO(G07_both) { optimise<limbo::model::gp::KernelMeanLFOpt<P, Inner>, true, true, false>(); }
}
