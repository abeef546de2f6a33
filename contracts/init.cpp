// I01: initial designs
// FLAGS: -fno-access-control
#include "verif.hpp"
#include <limbo/init/grid_sampling.hpp>
#include <limbo/init/lhs.hpp>
#include <limbo/init/no_init.hpp>
#include <limbo/init/random_sampling.hpp>
#include <limbo/init/random_sampling_grid.hpp>

namespace verif {
    // any number of samples, bins and dimensions
    struct Par {
        struct init_randomsampling {
            static int samples();
        };
        struct init_lhs {
            static int samples();
        };
        struct init_randomsamplinggrid {
            static int samples();
            static int bins();
        };
        struct init_gridsampling {
            static int bins();
        };
    };
    template <bool B>
    struct P : Par {
        struct bayes_opt_bobase {
            static bool bounded() { return B; }
        };
    };
    struct Eval {
        static int dim_in();
    };
    int grid(int i); // an arbitrary point of the grid, in units of the grid step
#ifdef VERIF_RT
    int Par::init_randomsampling::samples() { return (int)rt_param("samples", 0., 30.); }
    int Par::init_lhs::samples() { return 1 + (int)rt_param("samples", 0., 30.); }
    int Par::init_randomsamplinggrid::samples() { return (int)rt_param("samples", 0., 30.); }
    int Par::init_randomsamplinggrid::bins() { return 1 + (int)rt_param("bins", 0., 30.); }
    int Par::init_gridsampling::bins() { return 1 + (int)rt_param("bins", 0., 60.); }
    int Eval::dim_in() { return 1 + (int)rt_param("dim", 0., 5.); }
    int grid(int i) { return (int)rt_param(("g" + std::to_string(i)).c_str(), 0., Par::init_gridsampling::bins() + 0.999); }
#endif
    // records what is evaluated
    struct Log {
        Vecs points;
        void eval_and_add(const Eval&, const Vec& x) { points.push_back(x); }
    };
    struct First {
        double operator()(const Vec& x) const { return x(0); }
    };
    inline bool on_grid(double x, int b) { return exists(b + 1, [&](int k) { return eq(x, (double)k / (double)b); }); }

    SCENARIO(I01_none)
    {
        Log l;
        limbo::init::NoInit<P<true>>()(Eval(), First(), l);
        ensures("nothing is evaluated", l.points.size() == 0);
    }
    SCENARIO(I01_random)
    {
        requires_(Eval::dim_in() > 0 && Par::init_randomsampling::samples() >= 0);
        Log l, u;
        limbo::init::RandomSampling<P<true>>()(Eval(), First(), l);
        limbo::init::RandomSampling<P<false>>()(Eval(), First(), u);
        int n = Par::init_randomsampling::samples(), d = Eval::dim_in();
        ensures("the configured number of points", (int)l.points.size() == n && (int)u.points.size() == n);
        ensures("of the input dimension", forall(n, [&](int k) { return l.points[k].size() == d && u.points[k].size() == d; }));
        ensures("inside the box when bounded", forall(n, [&](int k) { return forall(d, [&](int i) { return 0. <= l.points[k](i) && l.points[k](i) <= 1.; }); }));
    }
    SCENARIO(I01_random_grid)
    {
        int n = Par::init_randomsamplinggrid::samples(), b = Par::init_randomsamplinggrid::bins(), d = Eval::dim_in();
        requires_(d > 0 && n >= 0 && b > 0);
        Log l;
        limbo::init::RandomSamplingGrid<P<true>>()(Eval(), First(), l);
        ensures("the configured number of points", (int)l.points.size() == n);
        ensures("of the input dimension", forall(n, [&](int k) { return l.points[k].size() == d; }));
        ensures("on the grid", forall(n, [&](int k) { return forall(d, [&](int i) { return on_grid(l.points[k](i), b); }); }));
    }

    // ---- grid sampling: contract of the recursion
    // _explore(dim, current) evaluates each grid point that starts with the first dim coordinates of current exactly once
    // the first dim coordinates are those of the arbitrary grid point
    inline bool agrees(const Vec& x, int dim, int b)
    {
        return dim == 0 || (forall(dim - 1, [&](int i) { return eq(x(i), (double)grid(i) / (double)b); }) && eq(x(dim - 1), (double)grid(dim - 1) / (double)b));
    }
    struct Count {
        int d, b, count = 0;
        Count(int dd, int bb) : d(dd), b(bb) {}
        void eval_and_add(const Eval&, const Vec& x)
        {
            ensures("nothing but grid points", x.size() == d && forall(d, [&](int i) { return on_grid(x(i), b); }));
            // evaluations of the arbitrary grid point
            count += agrees(x, d, b) ? 1 : 0;
        }
    };
    template <bool leaf>
    void explore()
    {
        int d = any_size("d"), dim0 = any_size("dim"), b = Par::init_gridsampling::bins();
        Vec cur = any_vec("current", d);
#ifdef VERIF_RT
        for (int i = 0; i < dim0 && i < d; i++) // start from a grid line
            cur(i) = (i == 0 ? std::abs(grid(d)) : grid(i)) / (double)b;
        requires_(std::pow(b + 1., d - dim0) < 3000.);
#endif
        requires_((leaf ? dim0 == d - 1 : dim0 < d - 1) && b > 0);
        requires_(forall(d, [&](int i) { return 0 <= grid(i) && grid(i) <= b; }));
        requires_(forall(dim0, [&](int i) { return on_grid(cur(i), b); }));
        Count c(d, b);
        recursive("_explore", [&](int dim, const Eval&, const Vec& current, Count& o) {
            ensures("the search descends", dim > dim0 && dim < d && current.size() == d);
            ensures("along grid lines", forall(dim, [&](int i) { return on_grid(current(i), b); }));
            o.count += agrees(current, dim, b) ? 1 : 0;
        });
        limbo::init::GridSampling<P<true>>()._explore(dim0, Eval(), cur, c);
        ensures("each grid point with these first coordinates exactly once", c.count == (agrees(cur, dim0, b) ? 1 : 0));
    }
    SCENARIO(I01_grid_leaf) { explore<true>(); }
    SCENARIO(I01_grid_inner) { explore<false>(); }
    SCENARIO(I01_grid)
    {
        int d = Eval::dim_in(), b = Par::init_gridsampling::bins();
#ifdef VERIF_RT
        requires_(std::pow(b + 1., d) < 3000.);
#endif
        requires_(d > 0 && b > 0);
        requires_(forall(d, [&](int i) { return 0 <= grid(i) && grid(i) <= b; }));
        Count c(d, b);
        calls("_explore", [&](int dim, const Eval&, const Vec& current, Count& o) {
            ensures("the search starts with the first coordinate", dim == 0 && current.size() == d);
            o.count += agrees(current, dim, b) ? 1 : 0;
        });
        limbo::init::GridSampling<P<true>>()(Eval(), First(), c);
        ensures("each grid point exactly once", c.count == 1);
    }
    // ---- Latin hypercube sampling
    SCENARIO(I01_lhs)
    {
        int n = Par::init_lhs::samples(), d = Eval::dim_in();
        requires_(d > 0 && n > 0);
        Log l;
        limbo::init::LHS<P<true>>()(Eval(), First(), l);
        ensures("the configured number of points", (int)l.points.size() == n);
        ensures("of the input dimension", forall(n, [&](int k) { return l.points[k].size() == d; }));
        ensures("inside the box", forall(n, [&](int k) { return forall(d, [&](int i) { return 0. <= l.points[k](i) && l.points[k](i) <= 1.; }); }));
        // with n points, at least one point in each of the n slices is exactly one
        ensures("one point in each slice of every dimension", forall(d, [&](int i) {
            return forall(n, [&](int s) { return exists(n, [&](int k) { return (double)s / (double)n <= l.points[k](i) && l.points[k](i) <= (s + 1.) / (double)n; }); });
        }));
    }
} // namespace verif
