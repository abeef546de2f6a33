// T01 in the threaded configuration (bounded: runs of the compiled code)
// FLAGS: -DUSE_TBB -DUSE_TBB_ONEAPI
// LIBS: -ltbb
#include "verif.hpp"
#include <atomic>
#include <limbo/tools.hpp>
#include <limbo/tools/parallel.hpp>

namespace verif {
#ifdef VERIF_RT
    static double val(int i, double p) { return std::round(3. * std::sin(i * 1.3 + p)); }
    // sizes up to a few thousand so that the work is really split
    static int big(const char* s) { return (int)std::pow(10., rt_param(s, 0., 3.7)) - 1; }
    SCENARIO(T01_tbb_loop_rt)
    {
        int b = any_size("begin"), e = b + big("count");
        std::vector<std::atomic<int>> count(e + 1);
        for (auto& c : count)
            c = 0;
        limbo::tools::par::loop(b, e, [&](size_t i) { if (i <= (size_t)e) count[i]++; });
        ensures("the body runs exactly once for every index of [begin,end)", forall(e + 1, [&](int i) { return count[i] == (i >= b && i < e ? 1 : 0); }));
    }
    SCENARIO(T01_tbb_for_each_rt)
    {
        int n = big("n");
        std::vector<double> v(n);
        for (int i = 0; i < n; i++)
            v[i] = i;
        limbo::tools::par::for_each(v.begin(), v.end(), [](double& x) { x += 1.; });
        ensures("exactly once per element", (int)v.size() == n && forall(n, [&](int i) { return v[i] == i + 1.; }));
    }
    SCENARIO(T01_tbb_replicate_rt)
    {
        int n = big("n");
        std::atomic<int> k(0);
        limbo::tools::par::replicate(n, [&]() { k++; });
        ensures("exactly the requested number of times", k == n);
    }
    SCENARIO(T01_tbb_max_rt)
    {
        int n = big("n");
        double p = rt_param("val", 0., 9.), init = any_bool("low") ? -10. : any_real("init");
        using pt = std::pair<double, int>;
        std::vector<std::atomic<int>> count(n);
        for (auto& c : count)
            c = 0;
        pt m = limbo::tools::par::max(pt(init, -1), n, [&](int i) { count[i]++; return pt(val(i, p) + 1e-3 * (i % 7), i); }, [](const pt& a, const pt& b) { return a.first > b.first; });
        ensures("each candidate is computed once", forall(n, [&](int i) { return count[i] == 1; }));
        ensures("no computed value compares greater", forall(n, [&](int i) { return !(val(i, p) + 1e-3 * (i % 7) > m.first); }) && !(init > m.first));
        ensures("the initial value or a computed one", (m.first == init && m.second == -1) || (m.second >= 0 && m.second < n && m.first == val(m.second, p) + 1e-3 * (m.second % 7)));
    }
    SCENARIO(T01_tbb_sort_rt)
    {
        int n = big("n");
        double p = rt_param("val", 0., 9.);
        std::vector<double> v(n), w(n);
        for (int i = 0; i < n; i++)
            v[i] = w[i] = val(i, p);
        limbo::tools::par::sort(v.begin(), v.end(), [](double a, double b) { return a > b; });
        std::stable_sort(w.begin(), w.end(), [](double a, double b) { return a > b; });
        ensures("the sequential result", v == w);
    }
    SCENARIO(T01_tbb_convert_rt)
    {
        int n = any_size("n"), d = any_size("d");
        Vecs a = any_vecs("a", n, d);
        typename limbo::tools::par::vector<Vec>::type v;
        for (int i = 0; i < n; i++)
            v.push_back(a[i]);
        Vecs b = limbo::tools::par::convert_vector(v);
        ensures("all elements, in order", same(a, b));
    }
#else
    SCENARIO(T01_tbb_loop_rt) {}
    SCENARIO(T01_tbb_for_each_rt) {}
    SCENARIO(T01_tbb_replicate_rt) {}
    SCENARIO(T01_tbb_max_rt) {}
    SCENARIO(T01_tbb_sort_rt) {}
    SCENARIO(T01_tbb_convert_rt) {}
#endif
} // namespace verif
