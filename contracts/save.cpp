// S02: saving and loading models
// FLAGS: -fno-access-control
// LIBS: -lboost_filesystem -lboost_system
#include "gp.hpp"
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limbo/kernel/squared_exp_ard.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/null_function.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>

namespace verif {
    // any archive: what is saved under a name is what is loaded under that name (S01)
    struct Archive {
        mutable Mat kp, mp, obs, L, al, other;
        mutable Vecs xs, others;
        void save(const Mat& v, const std::string& n) const
        {
            if (n == "kernel_params")
                kp = v;
            else if (n == "mean_params")
                mp = v;
            else if (n == "observations")
                obs = v;
            else if (n == "matrixL")
                L = v;
            else if (n == "alpha")
                al = v;
            else
                other = v;
        }
        void save(const Vecs& v, const std::string& n) const
        {
            if (n == "samples")
                xs = v;
            else
                others = v;
        }
        template <typename M>
        void load(M& m, const std::string& n) const
        {
            if (n == "kernel_params")
                m = kp;
            else if (n == "mean_params")
                m = mp;
            else if (n == "observations")
                m = obs;
            else if (n == "matrixL")
                m = L;
            else if (n == "alpha")
                m = al;
            else
                m = other;
        }
        void load(Vecs& v, const std::string& n) const
        {
            if (n == "samples")
                v = xs;
            else
                v = others;
        }
    };
    template <typename G>
    void fit(G& gp, const Vec& pk, const Vec& pm, const Vecs& xs, const Vecs& ys)
    {
        gp.kernel_function().set_h_params(pk);
        gp.mean_function().set_h_params(pm);
        gp.compute(xs, ys);
    }
    // the state a model is in after a refit, apart from stored scores and cached inverses
#define STATE "_log_lik _log_loo_cv _inv_kernel _inv_kernel_updated _hp_optimize _kernel"
    template <bool recompute, bool used>
    void reload()
    {
        int di = any_dim("dim_in"), d = any_dim("dim_out"), n = any_dim("n");
        abs_ok(di, d);
        Vec pk = any_vec("pk", k_size(di)), pm = any_vec("pm", m_size(d));
        Vecs xs = any_vecs("xs", n, di), ys = any_vecs("ys", n, d);
        GP gp(di, d);
        fit(gp, pk, pm, xs, ys);
        Archive ar;
        gp.save(ar);
        // what the loading model held before
        int n0 = used ? any_dim("n0") : 1, di0 = used ? any_dim("dim_in0") : 1, d0 = used ? any_dim("dim_out0") : 1;
        abs_ok(di0, d0);
        Vecs xs0 = any_vecs("xs0", n0, di0), ys0 = any_vecs("ys0", n0, d0);
        Vec pk0 = any_vec("pk0", k_size(di0)), pm0 = any_vec("pm0", m_size(d0));
        GP re;
        if (used) {
            re = GP(di0, d0);
            fit(re, pk0, pm0, xs0, ys0);
            re.compute_inv_kernel();
        }
        re.load(ar, recompute);
        ensures("the samples", same(re.samples(), xs));
        ensures("the observations", same(re.observations(), ys));
        ensures("the dimensions", re.dim_in() == di && re.dim_out() == d && re.nb_samples() == n);
        ensures("the hyper-parameters", eq(re.kernel_function().h_params(), pk) && eq(re.mean_function().h_params(), pm));
        ensures("the state of the saved model", equiv(gp, re, STATE));
        ensures("no stale inverse", !re._inv_kernel_updated);
        Vec v = any_vec("v", di);
        ensures("the predictions", eqn(re.mu(v), gp.mu(v)) && eqn(re.sigma(v), gp.sigma(v)));
        ensures("the likelihood", eqn(re.compute_log_lik(), gp.compute_log_lik()));
        Vec x = any_vec("x", di), y = any_vec("y", d);
        gp.add_sample(x, y);
        re.add_sample(x, y);
        ensures("data added later behave as on the original", equiv(gp, re, STATE));
        ensures("the predictions then", eqn(re.mu(v), gp.mu(v)) && eqn(re.sigma(v), gp.sigma(v)));
    }
    SCENARIO(S02_refit_fresh) { reload<true, false>(); }
    SCENARIO(S02_refit_used) { reload<true, true>(); }
    SCENARIO(S02_read_fresh) { reload<false, false>(); }
    SCENARIO(S02_read_used) { reload<false, true>(); }

    // ---- multi-output models and the real archives, run only
#ifdef VERIF_RT
    struct Dir {
        std::string path;
        Dir()
        {
            char b[] = "./verif_save_XXXXXX";
            if (!mkdtemp(b))
                std::abort();
            path = b;
        }
        ~Dir() { boost::filesystem::remove_all(path); }
    };
    template <typename A, template <typename, typename, typename, typename> class Single>
    void multi(bool recompute, bool used)
    {
        using Multi = limbo::model::MultiGP<P, Single, Kern, Mean>;
        int di = any_dim("dim_in"), d = any_dim("dim_out"), n = any_dim("n");
        abs_ok(di, d);
        Vecs xs = any_vecs("xs", n, di), ys = any_vecs("ys", n, d);
        Vec pm = any_vec("pm", m_size(d));
        Multi gp(di, d);
        Vecs pk;
        for (int o = 0; o < d; o++) {
            pk.push_back(any_vec(("pk" + std::to_string(o)).c_str(), k_size(di)));
            gp.gp_models()[o].kernel_function().set_h_params(pk[o]);
        }
        gp.mean_function().set_h_params(pm);
        gp.compute(xs, ys);
        Dir dir;
        gp.template save<A>(dir.path + "/multi");
        Multi re;
        if (used) {
            int n0 = any_dim("n0"), di0 = any_dim("dim_in0"), d0 = any_dim("dim_out0");
            re = Multi(di0, d0);
            re.compute(any_vecs("xs0", n0, di0), any_vecs("ys0", n0, d0));
        }
        re.template load<A>(dir.path + "/multi", recompute);
        ensures("the samples", same(re.samples(), xs));
        ensures("the observations", same(re.observations(), ys));
        ensures("the dimensions", re.dim_in() == di && re.dim_out() == d && re.nb_samples() == n);
        ensures("the mean observation", eq(re.mean_observation(), gp.mean_observation()));
        ensures("the mean hyper-parameters", same(re.mean_function().h_params(), pm));
        ensures("the kernel hyper-parameters", forall(d, [&](int o) { return same(Vec(re.gp_models()[o].kernel_function().h_params()), pk[o]); }));
        Vec v = any_vec("v", di);
        ensures("the predictions", eqn(re.mu(v), gp.mu(v)) && eqn(re.sigma(v), gp.sigma(v)));
        Vec x = any_vec("x", di), y = any_vec("y", d);
        gp.add_sample(x, y);
        re.add_sample(x, y);
        ensures("the predictions with data added later", eqn(re.mu(v), gp.mu(v)) && eqn(re.sigma(v), gp.sigma(v)));
    }
    template <typename A>
    void single(bool recompute)
    {
        int di = any_dim("dim_in"), d = any_dim("dim_out"), n = any_dim("n");
        abs_ok(di, d);
        Vec pk = any_vec("pk", k_size(di)), pm = any_vec("pm", m_size(d));
        Vecs xs = any_vecs("xs", n, di), ys = any_vecs("ys", n, d);
        GP gp(di, d), re;
        fit(gp, pk, pm, xs, ys);
        Dir dir;
        gp.template save<A>(dir.path + "/gp");
        re.template load<A>(dir.path + "/gp", recompute);
        ensures("the samples", same(re.samples(), xs));
        ensures("the observations", same(re.observations(), ys));
        ensures("the hyper-parameters", same(Vec(re.kernel_function().h_params()), pk) && same(Vec(re.mean_function().h_params()), pm));
        Vec v = any_vec("v", di);
        ensures("the predictions", eqn(re.mu(v), gp.mu(v)) && eqn(re.sigma(v), gp.sigma(v)));
    }
    using Text = limbo::serialize::TextArchive;
    using Binary = limbo::serialize::BinaryArchive;
#else
    struct Text {
    };
    struct Binary {
    };
    template <typename A>
    void single(bool) {}
    template <typename A, template <typename, typename, typename, typename> class Single>
    void multi(bool, bool) {}
#endif
    SCENARIO(S02_gp_text_rt) { single<Text>(any_bool("recompute")); }
    SCENARIO(S02_gp_binary_rt) { single<Binary>(any_bool("recompute")); }
    SCENARIO(S02_multi_text_rt) { multi<Text, limbo::model::GP>(any_bool("recompute"), any_bool("used")); }
    SCENARIO(S02_multi_binary_rt) { multi<Binary, limbo::model::GP>(any_bool("recompute"), any_bool("used")); }

    // ---- S01: the archives
#ifdef VERIF_RT
    // any finite double, of any magnitude
    inline double any_double(double a, double b, double c)
    {
        if (c > 0.8)
            return a;
        double s = std::ldexp(a, (int)(b * 700));
        return c < -1.2 ? s * 4.9e-324 : c < -1. ? -0. : c > 0.6 ? a / 3. : std::isfinite(s) ? s : a;
    }
    inline Mat any_values(const char* name, int r, int c)
    {
        Mat a = any_mat(name, r, c), b = any_mat("exponents", r, c), k = any_mat("kinds", r, c);
        return build_mat(r, c, [&](int i, int j) { return any_double(a(i, j), b(i, j), k(i, j)); });
    }
    template <typename M>
    bool bits(const M& a, const M& b)
    {
        return a.rows() == b.rows() && a.cols() == b.cols() && std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0;
    }
    inline bool bits(const Vecs& a, const Vecs& b)
    {
        return a.size() == b.size() && forall(a.size(), [&](int i) { return bits(a[i], b[i]); });
    }
    inline Vecs any_list(const char* name, int n)
    {
        Vecs v;
        for (int i = 0; i < n; i++)
            v.push_back(any_values(name, any_dim("length"), 1));
        return v;
    }
    template <typename A>
    void archive()
    {
        int r = any_dim("r"), c = any_dim("c"), r2 = any_dim("r2"), c2 = any_dim("c2"), n = any_dim("n"), n2 = any_dim("n2");
        Mat m = any_values("m", r, c), m2 = any_values("m2", r2, c2);
        Vec w = any_values("w", r, 1);
        Vecs l = any_list("l", n), l2 = any_list("l2", n2);
        Dir dir;
        A a(dir.path + "/sub/archive"), again(dir.path + "/sub/archive"), beside(dir.path + "/sub");
        a.save(m, "matrix");
        a.save(w, "vector");
        a.save(l, "list");
        beside.save(m2, "matrix");
        Mat x(2, 7);
        Vec y(3);
        Vecs z(2, Vec::Zero(4));
        again.load(x, "matrix");
        again.load(y, "vector");
        again.load(z, "list");
        ensures("the matrix saved", bits(x, m));
        ensures("the vector saved", bits(y, w));
        ensures("the list saved", bits(z, l));
        a.save(m2, "matrix");
        a.save(l2, "list");
        again.load(x, "matrix");
        again.load(z, "list");
        again.load(y, "vector");
        ensures("the matrix saved last", bits(x, m2));
        ensures("the list saved last", bits(z, l2));
        ensures("other objects are not affected", bits(y, w));
        beside.load(x, "matrix");
        ensures("other directories are not affected", bits(x, m2));
    }
#else
    template <typename A>
    void archive() {}
#endif
    SCENARIO(S01_text_rt) { archive<Text>(); }
    SCENARIO(S01_binary_rt) { archive<Binary>(); }
}
