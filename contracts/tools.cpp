// T02: numeric and random helpers; T01: parallel tools (sequential configuration)
#include "verif.hpp"
#include <limbo/tools.hpp>
#include <limbo/tools/parallel.hpp>

namespace verif {
    // any function of an index / any stream of random draws
    double val(int i);
    double stream(int k);
#ifdef VERIF_RT
    double val(int i) { return std::round(3. * std::sin(i * 1.3 + rt_param("val", 0., 9.))); }
    double stream(int k) { return std::sin(k * 2.1); }
#endif
    SCENARIO(T02_signum)
    {
        double x = any_real("x");
        int i = any_int("i");
        unsigned u = any_size("u");
        size_t z = any_size("z");
        ensures("sign of a real", eq(limbo::tools::signum(x), x < 0 ? -1 : (x > 0 ? 1 : 0)));
        ensures("sign of an integer", eq(limbo::tools::signum(i), i < 0 ? -1 : (i > 0 ? 1 : 0)));
        ensures("sign of an unsigned", eq(limbo::tools::signum(u), u > 0 ? 1 : 0) && eq(limbo::tools::signum(z), z > 0 ? 1 : 0));
    }
    SCENARIO(T02_nan)
    {
        int n = any_size("n");
        Vec v = any_fvec("v", n), w = any_fvec("w", 1);
        double x = w(0);
        ensures("a number", limbo::tools::is_nan_or_inf(x) == (std::isnan(x) || std::isinf(x)));
        ensures("some coordinate of a vector", limbo::tools::is_nan_or_inf(v) == exists(n, [&](int i) { return std::isnan(v(i)) || std::isinf(v(i)); }));
        Vec one = limbo::tools::make_vector(x);
        ensures("one-element vector", one.size() == 1 && (one(0) == x || std::isnan(x)));
    }
    struct Stream {
        int k = 0;
        double rand() { return stream(k++); }
    };
    SCENARIO(T02_random_vec)
    {
        int n = any_size("n"), s = any_size("used");
        Stream rng;
        rng.k = s;
        Vec v = limbo::tools::random_vec(n, rng);
        ensures("requested size", eq((int)v.size(), n));
        ensures("each coordinate is one fresh draw, in order", forall(n, [&](int i) { return eq(v(i), stream(s + i)); }) && eq(rng.k, s + n));
    }
    SCENARIO(T02_bounds)
    {
        int n = any_size("n");
        Vec b = limbo::tools::random_vector_bounded(n), u = limbo::tools::random_vector_unbounded(n);
        Vec b2 = limbo::tools::random_vector(n), b3 = limbo::tools::random_vector(n, true), u2 = limbo::tools::random_vector(n, false);
        ensures("requested sizes", eq((int)b.size(), n) && eq((int)u.size(), n) && eq((int)b2.size(), n) && eq((int)b3.size(), n) && eq((int)u2.size(), n));
        ensures("bounded vectors lie in [0,1]", forall(n, [&](int i) { return 0. <= b(i) && b(i) <= 1. && 0. <= b2(i) && b2(i) <= 1. && 0. <= b3(i) && b3(i) <= 1.; }));
    }
    SCENARIO(T02_ranges)
    {
        int seed = any_size("seed"), lo = any_int("lo"), hi = any_int("hi");
        double a = any_real("a"), b = any_real("b");
        requires_(a < b && lo <= hi);
        limbo::tools::rgen_double_t g(a, b, seed);
        limbo::tools::rgen_int_t gi(lo, hi, seed);
        double x = g.rand();
        int y = gi.rand();
        ensures("a real draw lies in the range", a <= x && x <= b);
        ensures("an integer draw lies in the range", lo <= y && y <= hi);
    }
    SCENARIO(T02_seed)
    {
        int seed = any_size("seed"), other = any_int("other"), n = any_size("n"), m = any_size("m");
        limbo::tools::rgen_double_t a(0., 1., seed), b(0., 1., other);
        // the second generator is used, then seeded
        for (int i = 0; i < m; i++)
            b.rand();
        b.seed(seed);
        Vec x(n), y(n);
        for (int i = 0; i < n; i++)
            x(i) = a.rand();
        for (int i = 0; i < n; i++)
            y(i) = b.rand();
        ensures("the same seed gives the same sequence", same(x, y));
    }
    SCENARIO(T02_seed_int)
    {
        int seed = any_size("seed"), n = any_size("n"), lo = any_int("lo"), hi = any_int("hi");
        requires_(lo <= hi);
        limbo::tools::rgen_int_t a(lo, hi, seed), b(lo, hi, seed);
        Vec x(n), y(n);
        for (int i = 0; i < n; i++)
            x(i) = a.rand();
        for (int i = 0; i < n; i++)
            y(i) = b.rand();
        ensures("the same seed gives the same sequence of integers", same(x, y));
    }
    // every coordinate of a vector is a different draw (compiled code only: independent draws collide with probability 0)
    SCENARIO(T02_fresh_rt)
    {
        int n = any_size("n");
        for (int bounded = 0; bounded < 2; bounded++) {
            Vec v = limbo::tools::random_vector(n, bounded), w = limbo::tools::random_vector(n, bounded);
            bool ok = true;
            for (int i = 0; i < n; i++) {
                for (int j = 0; j < i; j++)
                    ok = ok && v(i) != v(j);
                for (int j = 0; j < n; j++)
                    ok = ok && v(i) != w(j);
            }
            ensures("fresh draws", ok);
        }
    }

    // ---- T01
    SCENARIO(T01_loop)
    {
        int b = any_size("begin"), e = any_size("end");
        Vec count = build_vec(e, [&](int i) { return 0.; }), last = count;
        limbo::tools::par::loop(b, e, [&](size_t i) { count(i) += 1.; last(i) = val(i); });
        ensures("the body runs exactly once for every index of [begin,end)", forall(e, [&](int i) { return eq(count(i), i >= b ? 1. : 0.) && eq(last(i), i >= b ? val(i) : 0.); }));
    }
    SCENARIO(T01_for_each)
    {
        int n = any_size("n");
        std::vector<double> v(n);
        for (int i = 0; i < n; i++)
            v[i] = val(i);
        limbo::tools::par::for_each(v.begin(), v.end(), [](double& x) { x += 1.; });
        ensures("exactly once per element", eq((int)v.size(), n) && forall(n, [&](int i) { return eq(v[i], val(i) + 1.); }));
    }
    SCENARIO(T01_replicate)
    {
        int n = any_size("n"), k = 0;
        limbo::tools::par::replicate(n, [&]() { k++; });
        ensures("exactly the requested number of times", eq(k, n));
    }
    SCENARIO(T01_max)
    {
        int n = any_size("n");
        double init = any_real("init");
        Vec count = build_vec(n, [&](int i) { return 0.; });
        double m = limbo::tools::par::max(init, n, [&](int i) { count(i) += 1.; return val(i); }, [](double a, double b) { return a > b; });
        ensures("each candidate is computed once", forall(n, [&](int i) { return eq(count(i), 1.); }));
        ensures("no computed value compares greater", forall(n, [&](int i) { return !(val(i) > m); }) && !(init > m));
        ensures("the initial value or a computed one", m == init || exists(n, [&](int i) { return m == val(i); }));
    }
    // with an arbitrary "greater" relation induced by a score
    SCENARIO(T01_max_vec)
    {
        int n = any_size("n");
        double init = any_real("init");
        using pt = std::pair<double, double>;
        pt m = limbo::tools::par::max(std::make_pair(init, -1.), n, [&](int i) { return std::make_pair(val(i), (double)i); }, [](const pt& a, const pt& b) { return a.first > b.first; });
        ensures("no computed value compares greater", forall(n, [&](int i) { return !(val(i) > m.first); }) && !(init > m.first));
        ensures("the initial value or a computed one", (m.first == init && m.second == -1.) || exists(n, [&](int i) { return m.first == val(i) && m.second == (double)i; }));
    }
    SCENARIO(T01_convert)
    {
        int n = any_size("n"), d = any_size("d");
        Vecs a = any_vecs("a", n, d);
        typename limbo::tools::par::vector<Vec>::type v;
        for (int i = 0; i < n; i++)
            v.push_back(a[i]);
        Vecs b = limbo::tools::par::convert_vector(v);
        ensures("all elements, in order", same(a, b));
    }
    SCENARIO(T01_sort)
    {
        int n = any_size("n");
        std::vector<double> v(n);
        for (int i = 0; i < n; i++)
            v[i] = val(i);
        limbo::tools::par::sort(v.begin(), v.end(), [](double a, double b) { return a > b; });
        ensures("same size, in order", eq((int)v.size(), n) && forall(n - 1, [&](int i) { return !(v[i + 1] > v[i]); }));
        ensures("same elements", forall(n, [&](int i) { return exists(n, [&](int j) { return v[j] == val(i); }) && exists(n, [&](int j) { return v[i] == val(j); }); }));
    }
} // namespace verif
