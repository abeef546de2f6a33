// Contract vocabulary.  Each SCENARIO is a machine-checked specification of the code in /repo:
// the verifier (vc/) executes it symbolically, for all inputs, on the bodies exported from /repo's
// current source; the same text compiled with -DVERIF_RT is the replay harness that runs the real
// compiled code on concrete inputs.
#ifndef VERIF_HPP
#define VERIF_HPP
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/Cholesky>
#include <cmath>
#include <functional>
#include <string>
#include <vector>

namespace verif {
    using Vec = Eigen::VectorXd;
    using Mat = Eigen::MatrixXd;
    using Vecs = std::vector<Eigen::VectorXd>;

    // ---- ghost inputs: arbitrary values (universally quantified)
    double any_real(const char* name);
    int any_int(const char* name); // any integer
    int any_size(const char* name); // any integer >= 0
    bool any_bool(const char* name);
    Vec any_vec(const char* name, int n);
    Mat any_mat(const char* name, int r, int c);
    Vecs any_vecs(const char* name, int n, int dim); // n vectors of size dim
    Vec any_fvec(const char* name, int n); // any floating point values (at run time also NaN and infinities)
    Vec finite(const Vec& v); // the same vector; for the verifier its coordinates are finite numbers
    double any_unit(const char* name); // in [0,1] at run time; any real for the verifier

    // ---- contracts
    void requires_(bool c); // precondition: assumed
    void ensures(const char* label, bool c); // proof obligation
    void apart(bool c); // run-time only: skip inputs where rounding could decide a comparison; no effect on the proof

    // proved here, then used
    inline void lemma(const char* label, bool c)
    {
        ensures(label, c);
        requires_(c);
    }

    // verifier: forget the value (what follows is proved for any value of that member, of the same
    // dimensions; its actual value is the subject of another contract); no effect at run time
    void generalise(const Mat& m);

    // ---- specification functions
    bool eq(double a, double b);
    bool eq(int a, int b);
    bool eq(const Vec& a, const Vec& b);
    bool eq(const Mat& a, const Mat& b);
    // equal; at run time with a looser tolerance (ill-conditioned or differentiated quantities)
    bool eqn(double a, double b);
    bool eqn(const Vec& a, const Vec& b);
    bool eqn(const Mat& a, const Mat& b);
    bool same(const Vec& a, const Vec& b); // exactly equal
    bool same(const Vecs& a, const Vecs& b);
    bool eqvs(const Vecs& a, const Vecs& b);

    Mat inverse(const Mat& k); // of a symmetric positive definite matrix
    double logdet(const Mat& k);
    bool is_chol(const Mat& l, const Mat& k); // l is lower triangular with positive diagonal and l l^T = k

#ifdef VERIF_RT
    template <typename F>
    bool forall(int n, const F& f)
    {
        for (int i = 0; i < n; i++)
            if (!f(i))
                return false;
        return true;
    }
    template <typename F>
    bool exists(int n, const F& f)
    {
        for (int i = 0; i < n; i++)
            if (f(i))
                return true;
        return false;
    }
    template <typename F>
    double sum(int n, const F& f)
    {
        double s = 0;
        for (int i = 0; i < n; i++)
            s += f(i);
        return s;
    }
    template <typename F>
    double max_of(int n, const F& f)
    {
        double s = f(0);
        for (int i = 1; i < n; i++)
            s = std::max(s, (double)f(i));
        return s;
    }
    template <typename F>
    double deriv(const F& f, const Vec& p, int i)
    {
        double h = 1e-4;
        auto at = [&](double d) { Vec q = p; q(i) += d; return f(q); };
        return (8. * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12. * h);
    }
    template <typename F>
    Vec build_vec(int n, const F& f)
    {
        Vec v(n);
        for (int i = 0; i < n; i++)
            v(i) = f(i);
        return v;
    }
    template <typename F>
    Mat build_mat(int n, int m, const F& f)
    {
        Mat v(n, m);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < m; j++)
                v(i, j) = f(i, j);
        return v;
    }
    template <typename F>
    Vecs build_vecs(int n, const F& f)
    {
        Vecs v;
        for (int i = 0; i < n; i++)
            v.push_back(f(i));
        return v;
    }
    template <typename T>
    bool equiv(const T&, const T&, const char*) { return true; }
    template <typename F>
    void recursive(const char*, const F&) {}
    template <typename F>
    void calls(const char*, const F&) {}
    template <typename F>
    void calls_on(const char*, const F&) {}
    double rt_param(const char* name, double lo, double hi);
    struct Skip {
    };
    struct Registrar {
        Registrar(const char* name, void (*f)());
    };
#define SCENARIO(NAME)                               \
    void NAME();                                     \
    static verif::Registrar reg_##NAME(#NAME, &NAME); \
    void NAME()
#else
    // the verifier gives these their mathematical meaning; the bodies only instantiate the arguments
    template <typename F>
    bool forall(int n, const F& f) { return f(n); }
    template <typename F>
    bool exists(int n, const F& f) { return f(n); }
    template <typename F>
    double sum(int n, const F& f) { return f(n); }
    template <typename F>
    double max_of(int n, const F& f) { return f(n); }
    template <typename F>
    double deriv(const F& f, const Vec& p, int i) { return f(p); }
    template <typename F>
    Vec build_vec(int n, const F& f) { f(n); return Vec(); }
    template <typename F>
    Mat build_mat(int n, int m, const F& f) { f(n, m); return Mat(); }
    template <typename F>
    Vecs build_vecs(int n, const F& f) { f(n); return Vecs(); }
    // recursive calls of that function are not executed but checked against the contract f: f checks the
    // precondition and assumes the postcondition
    template <typename F>
    void recursive(const char* name, const F& f) {}
    // so are all calls of that function
    template <typename F>
    void calls(const char* name, const F& f) {}
    // and calls of that member function; f gets the object first
    template <typename F>
    void calls_on(const char* name, const F& f) {}
    // equal in every data member except those listed (verifier only)
    template <typename T>
    bool equiv(const T&, const T&, const char* except);
#define SCENARIO(NAME) void NAME()
#endif
    inline double sq(double x) { return x * x; }
} // namespace verif
#endif
