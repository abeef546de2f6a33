// Run-time meaning of the contract vocabulary: replays scenarios on concrete inputs against the
// real compiled code.  Used to look for a failing input when an obligation is not discharged, and
// as a bounded floating-point cross-check of every scenario.
#include "verif.hpp"
#include <algorithm>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sys/wait.h>
#include <unistd.h>

namespace verif {
    struct Sc {
        std::string name;
        void (*f)();
    };
    static std::vector<Sc>& table()
    {
        static std::vector<Sc> t;
        return t;
    }
    Registrar::Registrar(const char* name, void (*f)()) { table().push_back({name, f}); }

    static std::mt19937_64 gen;
    static std::map<std::string, double> params;
    static std::vector<std::string> inputs;
    static std::vector<std::string> failures;
    static std::set<std::string> checked;
    static long nchecks = 0;
    static double mismatch = 0;
    static std::string mmdesc;

    static double u01() { return std::uniform_real_distribution<double>(0., 1.)(gen); }
    static void rec(const std::string& s)
    {
        if (inputs.size() < 400)
            inputs.push_back(s);
    }
    static std::string str(double v)
    {
        char b[64];
        snprintf(b, sizeof b, "%.17g", v);
        return b;
    }
    static double entry()
    {
        double r = u01();
        if (r < 0.08)
            return 0.;
        if (r < 0.14)
            return 1.;
        if (r < 0.2)
            return std::uniform_int_distribution<int>(-2, 2)(gen);
        return std::uniform_real_distribution<double>(-1.5, 1.5)(gen);
    }
    double rt_rand() { return u01(); }
    double any_real(const char* n)
    {
        double v = entry();
        rec(std::string(n) + "=" + str(v));
        return v;
    }
    double any_unit(const char* n)
    {
        double v = u01() < 0.1 ? (double)(u01() < 0.5) : u01();
        rec(std::string(n) + "=" + str(v));
        return v;
    }
    int any_int(const char* n)
    {
        int v = std::uniform_int_distribution<int>(-1, 5)(gen);
        rec(std::string(n) + "=" + std::to_string(v));
        return v;
    }
    int any_size(const char* n)
    {
        int v = std::uniform_int_distribution<int>(0, u01() < 0.15 ? 9 : 4)(gen);
        rec(std::string(n) + "=" + std::to_string(v));
        return v;
    }
    bool any_bool(const char* n)
    {
        bool v = u01() < 0.5;
        rec(std::string(n) + "=" + std::to_string(v));
        return v;
    }
    static std::string show(const Mat& m)
    {
        std::string s = "[";
        for (int i = 0; i < m.rows(); i++) {
            if (i)
                s += "; ";
            for (int j = 0; j < m.cols(); j++)
                s += (j ? ", " : "") + str(m(i, j));
        }
        return s + "]";
    }
    static Mat anym(int r, int c)
    {
        if (r < 0 || c < 0)
            throw Skip();
        Mat m(r, c);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
                m(i, j) = entry();
        return m;
    }
    Vec any_vec(const char* n, int d)
    {
        Vec v = anym(d, 1);
        rec(std::string(n) + "=" + show(v));
        return v;
    }
    Vec any_fvec(const char* n, int d)
    {
        Vec v = anym(d, 1);
        static const double special[] = {NAN, INFINITY, -INFINITY, -NAN, 1e308, -1e308, 5e-324, 0., -0.};
        if (u01() < 0.7)
            for (int i = 0; i < d; i++)
                if (u01() < 1. / (d + 1))
                    v(i) = special[std::uniform_int_distribution<int>(0, 8)(gen)];
        rec(std::string(n) + "=" + show(v));
        return v;
    }
    Vec finite(const Vec& v) { return v; }
    Mat any_mat(const char* n, int r, int c)
    {
        Mat v = anym(r, c);
        rec(std::string(n) + "=" + show(v));
        return v;
    }
    Vecs any_vecs(const char* n, int k, int d)
    {
        Vecs v;
        for (int i = 0; i < k; i++) {
            if (i && u01() < 0.1)
                v.push_back(v[std::uniform_int_distribution<int>(0, i - 1)(gen)]);
            else
                v.push_back(anym(d, 1));
            rec(std::string(n) + "[" + std::to_string(i) + "]=" + show(v.back()));
        }
        return v;
    }
    double rt_param(const char* n, double lo, double hi)
    {
        auto it = params.find(n);
        if (it != params.end())
            return it->second;
        double v = std::uniform_real_distribution<double>(lo, hi)(gen);
        params[n] = v;
        rec(std::string("Params ") + n + "=" + str(v));
        return v;
    }
    void requires_(bool c)
    {
        if (!c)
            throw Skip();
    }
    void generalise(const Mat&) {}
    void apart(bool c)
    {
        if (!c)
            throw Skip();
    }
    void ensures(const char* label, bool c)
    {
        nchecks++;
        checked.insert(label);
        if (!c) {
            std::string f = label;
            if (!mmdesc.empty())
                f += " [" + mmdesc + "]";
            failures.push_back(f);
        }
        mmdesc.clear();
    }
    static double tol = 1e-10;
    static bool close(double a, double b, double scale)
    {
        if (a == b)
            return true;
        bool ok = std::isfinite(a) && std::isfinite(b) && std::abs(a - b) <= tol * std::max(1., scale);
        if (!ok)
            mmdesc = str(a) + " vs " + str(b);
        return ok;
    }
    bool eq(double a, double b) { return close(a, b, std::max(std::abs(a), std::abs(b))); }
    bool eq(int a, int b)
    {
        if (a != b)
            mmdesc = std::to_string(a) + " vs " + std::to_string(b);
        return a == b;
    }
    static bool eqm(const Mat& a, const Mat& b)
    {
        if (a.rows() != b.rows() || a.cols() != b.cols()) {
            mmdesc = "sizes " + std::to_string(a.rows()) + "x" + std::to_string(a.cols()) + " vs " + std::to_string(b.rows()) + "x" + std::to_string(b.cols());
            return false;
        }
        double s = 0;
        for (int i = 0; i < a.size(); i++)
            s = std::max(s, std::max(std::abs(a.data()[i]), std::abs(b.data()[i])));
        for (int i = 0; i < a.size(); i++)
            if (!close(a.data()[i], b.data()[i], s))
                return false;
        return true;
    }
    bool eq(const Vec& a, const Vec& b) { return eqm(a, b); }
    bool eq(const Mat& a, const Mat& b) { return eqm(a, b); }
    bool same(const Vec& a, const Vec& b) { return a.size() == b.size() && (a.size() == 0 || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0 || a == b); }
    bool same(const Vecs& a, const Vecs& b)
    {
        if (a.size() != b.size())
            return false;
        for (size_t i = 0; i < a.size(); i++)
            if (!same(a[i], b[i]))
                return false;
        return true;
    }
    bool eqvs(const Vecs& a, const Vecs& b)
    {
        if (a.size() != b.size())
            return false;
        for (size_t i = 0; i < a.size(); i++)
            if (!eqm(a[i], b[i]))
                return false;
        return true;
    }
    struct Loose {
        Loose() { tol = 1e-6; }
        ~Loose() { tol = 1e-10; }
    };
    Mat inverse(const Mat& k) { return k.fullPivLu().inverse(); }
    double logdet(const Mat& k) { return k.selfadjointView<Eigen::Lower>().ldlt().vectorD().array().log().sum(); }
    bool is_chol(const Mat& l, const Mat& k)
    {
        if (l.rows() != k.rows() || l.cols() != k.cols())
            return false;
        for (int i = 0; i < l.rows(); i++) {
            if (!(l(i, i) > 0))
                return false;
            for (int j = i + 1; j < l.cols(); j++)
                if (l(i, j) != 0)
                    return false;
        }
        return eqn(Mat(l * l.transpose()), k);
    }
    bool eqn(double a, double b) { Loose l; return eq(a, b); }
    bool eqn(const Vec& a, const Vec& b) { Loose l; return eqm(a, b); }
    bool eqn(const Mat& a, const Mat& b) { Loose l; return eqm(a, b); }
    static unsigned long long mix(unsigned long long x)
    {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    // outcome of one run: 0 passed, 1 failed, 2 skipped
    static int once(const Sc& s, unsigned long long seed)
    {
        gen.seed(mix(seed));
        params.clear();
        inputs.clear();
        failures.clear();
        mmdesc.clear();
        try {
            s.f();
        }
        catch (const Skip&) {
            if (failures.empty())
                return 2;
        }
        return failures.empty() ? 0 : 1;
    }
    static std::string esc(const std::string& s)
    {
        std::string r;
        for (char c : s) {
            if (c == '"' || c == '\\')
                r += '\\';
            if (c == '\n')
                r += "\\n";
            else if ((unsigned char)c >= 32)
                r += c;
        }
        return r;
    }
    static void report_inputs(FILE* o)
    {
        for (auto& i : inputs)
            fprintf(o, "input %s\n", i.c_str());
        for (auto& f : failures)
            fprintf(o, "failed %s\n", f.c_str());
        fflush(o);
    }
} // namespace verif

static unsigned long long cur_seed;
static FILE* out;
static void on_crash(int sig)
{
    fprintf(out, "crash %llu signal %d\n", cur_seed, sig);
    verif::report_inputs(out);
    _exit(3);
}

// harness SCENARIO seed first count seconds     (one scenario, results on stdout)
// harness list
int main(int argc, char** argv)
{
    using namespace verif;
    if (argc > 1 && !strcmp(argv[1], "list")) {
        for (auto& s : table())
            printf("%s\n", s.name.c_str());
        return 0;
    }
    if (argc < 6)
        return 2;
    std::string name = argv[1];
    unsigned long long seed = strtoull(argv[2], 0, 10), first = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10);
    double seconds = atof(argv[5]);
    const Sc* sc = nullptr;
    for (auto& s : table())
        if (s.name == name)
            sc = &s;
    if (!sc)
        return 2;
    // what the code under test prints does not matter
    out = fdopen(dup(1), "w");
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    if (!getenv("VERIF_SHOW"))
        dup2(nul, 2);
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM})
        signal(s, on_crash);
    auto t0 = std::chrono::steady_clock::now();
    unsigned long long n = 0, skips = 0;
    std::set<std::string> distinct;
    for (unsigned long long i = first; i < first + count; i++) {
        cur_seed = i;
        alarm(60);
        std::srand((unsigned)(seed * 1000003ull + i));
        int r = once(*sc, seed * 1000003ull + i);
        n++;
        if (r == 2)
            skips++;
        else if (distinct.size() < 200000) {
            std::string key;
            for (auto& x : inputs)
                key += x + "|";
            distinct.insert(key);
        }
        if (r == 1) {
            fprintf(out, "fail %llu\n", i);
            report_inputs(out);
            return 1;
        }
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds)
            break;
    }
    fprintf(out, "ok runs %llu skipped %llu distinct %zu checks %ld labels %zu\n", n, skips, distinct.size(), nchecks, checked.size());
    for (size_t i = 0; i < inputs.size() && i < 12; i++)
        fprintf(out, "input %s\n", inputs[i].c_str());
    fflush(out);
    return 0;
}
