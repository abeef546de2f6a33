// O03: grid search, repeated, chained and random-point optimisers
#include "verif.hpp"
#include <limits>
#include <limbo/opt/chained.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/optimizer.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/random_point.hpp>

namespace verif {
    // any objective, any inner optimisers (deterministic functions of the start and the bounds flag)
    double fval(const Vec& x);
    double solution(int which, const Vec& init, bool bounded, int j);
    struct P {
        struct opt_gridsearch {
            static int bins();
        };
        struct opt_parallelrepeater {
            static int repeats();
            static double epsilon();
        };
    };
    // an arbitrary point of the grid, in units of the grid step; the result of a sub-search (modulo bins + 1)
    int grid(int i);
    size_t sub_search(int depth, const Vec& current, int j);
#ifdef VERIF_RT
    double fval(const Vec& x)
    {
        double s = 0, a = rt_param("f", 0., 6.);
        for (int j = 0; j < x.size(); j++)
            s += std::sin(a + 5. * x(j) + j) - a * x(j) * x(j);
        double k = rt_param("scale", 0., 1.);
        return k > 0.9 ? s * 1e300 - 5e301 : s;
    }
    double solution(int which, const Vec& init, bool bounded, int j) { return init(j) * (0.3 + 0.1 * which) + (bounded ? 0.01 * j : -0.5); }
    size_t sub_search(int, const Vec&, int) { return 0; }
    int P::opt_gridsearch::bins() { return 1 + (int)rt_param("bins", 0., 12.); }
    int P::opt_parallelrepeater::repeats() { return 1 + (int)rt_param("repeats", 0., 6.); }
    double P::opt_parallelrepeater::epsilon() { return rt_param("epsilon", 1e-3, 2.); }
    int grid(int i) { return (int)rt_param(("g" + std::to_string(i)).c_str(), 0., P::opt_gridsearch::bins() + 0.999); }
#endif
    inline Vec solve(int which, const Vec& init, bool bounded)
    {
        return build_vec(init.size(), [&](int j) { return solution(which, init, bounded, j); });
    }
    struct Obj {
        Vecs* log; // points evaluated
        Vecs* starts; // starts of the inner runs
        std::vector<int>* flags; // which inner optimiser, with which flag
        limbo::opt::eval_t operator()(const Vec& x, bool g) const
        {
            ensures("no gradient is asked for", !g);
            log->push_back(x);
            return limbo::opt::no_grad(fval(x));
        }
    };
    template <int W>
    struct Inner {
        template <typename F>
        Vec operator()(const F& f, const Vec& init, bool bounded) const
        {
            f.starts->push_back(init);
            f.flags->push_back(bounded ? 2 * W + 1 : 2 * W);
            return solve(W, init, bounded);
        }
    };

    // ---- chain
    SCENARIO(O03_chain)
    {
        int d = any_size("d");
        Vec x0 = any_vec("x0", d);
        bool bounded = any_bool("bounded");
        Vecs log, st, st1;
        std::vector<int> fl, fl1;
        Vec r = limbo::opt::Chained<P, Inner<0>, Inner<1>, Inner<2>>()(Obj{&log, &st, &fl}, x0, bounded);
        int b = bounded ? 1 : 0;
        Vec y0 = solve(0, x0, bounded), y1 = solve(1, y0, bounded), y2 = solve(2, y1, bounded);
        ensures("every optimiser runs once, in order, on the previous result", st.size() == 3 && same(st[0], x0) && same(st[1], y0) && same(st[2], y1));
        ensures("the bounds flag is passed on", fl.size() == 3 && fl[0] == b && fl[1] == 2 + b && fl[2] == 4 + b);
        ensures("the last result", same(r, y2));
        Vec r1 = limbo::opt::Chained<P, Inner<1>>()(Obj{&log, &st1, &fl1}, x0, bounded);
        ensures("a chain of one", st1.size() == 1 && same(st1[0], x0) && fl1[0] == 2 + b && same(r1, solve(1, x0, bounded)));
        ensures("no evaluations of its own", log.size() == 0);
    }
    // ---- random point
    SCENARIO(O03_random)
    {
        int d = any_size("d");
        Vec x0 = any_vec("x0", d);
        Vecs log, st;
        std::vector<int> fl;
        Vec r = limbo::opt::RandomPoint<P>()(Obj{&log, &st, &fl}, x0, true);
        ensures("a point of the box of the right size", r.size() == d && forall(d, [&](int i) { return 0. <= r(i) && r(i) <= 1.; }));
        ensures("no evaluations", log.size() == 0);
    }
    // ---- parallel repeater
    template <bool bounded>
    void repeat()
    {
        int d = any_size("d");
        Vec x0 = any_vec("x0", d);
        int n = P::opt_parallelrepeater::repeats();
        double eps = P::opt_parallelrepeater::epsilon();
        requires_(n > 0 && eps > 0.);
        requires_(!bounded || forall(d, [&](int i) { return 0. <= x0(i) && x0(i) <= 1.; }));
        Vecs log, st;
        std::vector<int> fl;
        Vec r = limbo::opt::ParallelRepeater<P, Inner<0>>()(Obj{&log, &st, &fl}, x0, bounded);
        // objective values are finite doubles
        requires_(forall(n, [&](int i) { return fval(solve(0, st[i], bounded)) > -std::numeric_limits<double>::max(); }));
        ensures("as many runs as configured", (int)st.size() == n && (int)fl.size() == n);
        ensures("every start lies within epsilon of the given one", forall(n, [&](int i) {
            return st[i].size() == d && forall(d, [&](int j) { return -eps * 1.000001 <= st[i](j) - x0(j) && st[i](j) - x0(j) <= eps * 1.000001; });
        }));
        ensures("inside the box when bounded", !bounded || forall(n, [&](int i) { return forall(d, [&](int j) { return 0. <= st[i](j) && st[i](j) <= 1.; }); }));
        ensures("the bounds flag is passed on", forall(n, [&](int i) { return fl[i] == (bounded ? 1 : 0); }));
        ensures("no run found a larger value", forall(n, [&](int i) { return fval(solve(0, st[i], bounded)) <= fval(r); }));
        ensures("the result of a run", exists(n, [&](int i) { return same(r, solve(0, st[i], bounded)); }));
    }
    SCENARIO(O03_repeat_bounded) { repeat<true>(); }
    SCENARIO(O03_repeat_unbounded) { repeat<false>(); }
    // ---- grid search
    struct Search : limbo::opt::GridSearch<P> {
        Vec inner(const Obj& f, size_t depth, const Vec& current) const { return this->_inner_search(f, depth, current); }
    };
    // contract of the recursive search: the first coordinates are kept, the others are grid points, and no grid point
    // with the same first coordinates is better
    inline bool on_grid(double x) { return exists(P::opt_gridsearch::bins() + 1, [&](int k) { return eq(x, (double)k / (double)P::opt_gridsearch::bins()); }); }
    inline bool agrees(const Vec& x, int depth) { return forall(depth, [&](int i) { return eq(x(i), (double)grid(i) / (double)P::opt_gridsearch::bins()); }); }
    inline Vec sub_result(int depth, const Vec& current, bool top = false)
    {
        int b = P::opt_gridsearch::bins();
        auto cell = [&](int j) { return (double)(sub_search(depth, current, j) % (size_t)(b + 1)) / (double)b; };
        if (top)
            return build_vec(current.size(), cell);
        return build_vec(current.size(), [&](int j) { return j < depth ? current(j) : cell(j); });
    }
    // what a call of _inner_search with these arguments may rely on
    inline Vec searched(int d, int depth, const Vec& current, const Vec& other, bool top = false)
    {
        Vec r = sub_result(depth, current, top);
#ifndef VERIF_RT
        requires_(!agrees(current, depth) || fval(other) <= fval(r));
#endif
        return r;
    }
    // keeps the number of evaluations low at run time
    inline void small(int b, int k)
    {
#ifdef VERIF_RT
        requires_(k >= 0 && std::pow(b + 1., k) < 3000.);
#endif
    }
    // leaf: the last coordinate is chosen
    template <bool leaf>
    void search()
    {
        int d = any_size("d"), depth0 = any_size("depth");
        Vec cur0 = any_vec("current", d);
        int b = P::opt_gridsearch::bins();
        small(b, d - depth0);
        requires_((leaf ? depth0 == d - 1 : depth0 < d - 1) && b > 0);
        requires_(forall(d, [&](int i) { return 0 <= grid(i) && grid(i) <= b; }));
        // the arbitrary point of the grid the result is compared with
        Vec other = build_vec(d, [&](int i) { return (double)grid(i) / (double)b; });
        Vecs log, st;
        std::vector<int> fl;
        Obj f{&log, &st, &fl};
        recursive("_inner_search", [&](const Obj& g, size_t depth, const Vec& current) {
            ensures("the search descends", (int)depth > depth0 && (int)depth < d && current.size() == d);
            return searched(d, depth, current, other);
        });
        Vec r = Search().inner(f, depth0, cur0);
        ensures("same dimension", r.size() == d);
        ensures("keeps the coordinates already chosen", forall(depth0, [&](int i) { return r(i) == cur0(i); }));
        ensures("the others are on the grid", forall(d, [&](int i) { return i < depth0 || on_grid(r(i)); }));
        // the choice of this coordinate that leads to the arbitrary point
        Vec next = build_vec(d, [&](int i) { return i == depth0 ? (double)grid(depth0) / (double)b : cur0(i); });
#ifndef VERIF_RT // the contracts of the recursive calls stand for their results
        lemma("no choice of this coordinate is better", fval(leaf ? next : sub_result(depth0 + 1, next)) <= fval(r));
        lemma("the choices made lead to the point", !agrees(cur0, depth0) || (leaf ? eq(next, other) : agrees(next, depth0 + 1)));
        // the contract of the call made with that choice
        if (!leaf)
            searched(d, depth0 + 1, next, other);
#endif
        ensures("no grid point is better", !agrees(cur0, depth0) || fval(other) <= fval(r));
    }
    SCENARIO(O03_grid_leaf) { search<true>(); }
    SCENARIO(O03_grid_inner) { search<false>(); }
    SCENARIO(O03_grid)
    {
        int d = any_size("d"), b = P::opt_gridsearch::bins();
        Vec init = any_vec("init", d);
        small(b, d);
        requires_(d > 0 && b > 0);
        requires_(forall(d, [&](int i) { return 0 <= grid(i) && grid(i) <= b; }));
        Vec other = build_vec(d, [&](int i) { return (double)grid(i) / (double)b; });
        Vecs log, st;
        std::vector<int> fl;
        calls("_inner_search", [&](const Obj& g, size_t depth, const Vec& current) {
            ensures("the search starts with the first coordinate", (int)depth == 0 && current.size() == d);
            return searched(d, depth, current, other, true);
        });
        Vec r = limbo::opt::GridSearch<P>()(Obj{&log, &st, &fl}, init, true);
        ensures("a point of the grid", r.size() == d && forall(d, [&](int i) { return on_grid(r(i)); }));
        ensures("no grid point is better", fval(other) <= fval(r));
    }
} // namespace verif
