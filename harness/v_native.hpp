// Native implementation of the intrinsics (included inside namespace V): concrete inputs from a hash of
// (seed, name, index) or from overrides, everything logged.  One forked process per case.
} // namespace V
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
namespace V
{
inline std::map<std::string, double> &over()
{
    static std::map<std::string, double> m;
    return m;
}
inline uint64_t &seed()
{
    static uint64_t s = 1;
    return s;
}
inline FILE *&log()
{
    static FILE *f = stdout;
    return f;
}
inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline uint64_t hsh(const std::string &n, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0)
{
    uint64_t h = mix(seed());
    for (unsigned char ch : n)
        h = mix(h ^ ch);
    h = mix(h ^ a);
    h = mix(h ^ b);
    h = mix(h ^ c);
    return mix(h ^ d);
}
inline double unit(uint64_t h) // [-1,1)
{
    return double(h >> 11) / double(1ull << 52) - 1.0;
}
inline bool getover(const std::string &k, double &v)
{
    auto it = over().find(k);
    if (it == over().end())
        return false;
    v = it->second;
    return true;
}
inline double grid()
{
    double g;
    return getover("grid", g) ? g : 0;
}
inline double value(const std::string &n, int i, int j, bool pos)
{
    double v;
    if (getover(n + ":" + std::to_string(i) + ":" + std::to_string(j), v))
        return v;
    uint64_t h = hsh(n, i, j);
    double in;
    if (getover("infs", in) && in > 0) // some bounds are absent
    {
        if (n.find("min") != std::string::npos && mix(h + 7) % 3 == 0)
            return -std::numeric_limits<double>::infinity();
        if (n.find("max") != std::string::npos && mix(h + 7) % 3 == 0)
            return std::numeric_limits<double>::infinity();
    }
    double g = grid();
    if (g > 0)
    {
        int m = (int)g;
        return pos ? 0.5 * (1 + (int)(h % (uint64_t)m)) : 0.5 * ((int)(h % (uint64_t)(2 * m + 1)) - m);
    }
    v = pos ? 1.25 + 0.75 * unit(h) : 2 * unit(h);
    double mg;
    if (getover("mag", mg) && mg > 0) // values of very different magnitudes
    {
        static const double f[] = {1, 1e-3, 1e-8, 1, 1e-5, 1e3};
        v *= f[mix(h + (uint64_t)mg) % 6];
    }
    return v;
}
inline void logm(const char *kind, const std::string &n, const Eigen::MatrixXd &m)
{
    fprintf(log(), "%s %s %d %d", kind, n.c_str(), (int)m.rows(), (int)m.cols());
    for (int j = 0; j < m.cols(); j++)
        for (int i = 0; i < m.rows(); i++)
            fprintf(log(), " %.17g", m(i, j));
    fprintf(log(), "\n");
}
inline int param(const std::string &n)
{
    double v;
    return getover(n, v) ? (int)v : 0;
}
inline int dim(const std::string &n, int mn)
{
    double v;
    int r = getover(n, v) ? (int)v : mn;
    fprintf(log(), "dim %s %d\n", n.c_str(), r);
    return r;
}
inline int integer(const std::string &n, int lo, int hi)
{
    double v;
    int r = lo;
    if (getover(n, v))
        r = (int)v;
    else if (hi > lo)
        r = lo + (int)(hsh(n) % (uint64_t)(hi - lo));
    fprintf(log(), "int %s %d\n", n.c_str(), r);
    return r;
}
inline double real1(const std::string &n, bool pos)
{
    double v;
    if (!getover(n, v))
        v = value(n, 0, 0, pos);
    fprintf(log(), "in %s 1 1 %.17g\n", n.c_str(), v);
    return v;
}
inline double real(const std::string &n) { return real1(n, false); }
inline double preal(const std::string &n) { return real1(n, true); }
inline bool boolean(const std::string &n)
{
    double v;
    int r = getover(n, v) ? (v != 0) : (int)(hsh(n) & 1);
    fprintf(log(), "int %s %d\n", n.c_str(), r);
    return r;
}
inline Eigen::MatrixXd mat0(const std::string &n, int r, int c, bool pos)
{
    Eigen::MatrixXd m(r, c);
    for (int i = 0; i < r; i++)
        for (int j = 0; j < c; j++)
            m(i, j) = value(n, i, j, pos);
    logm("in", n, m);
    return m;
}
inline Eigen::VectorXd vec(const std::string &n, int k) { return mat0(n, k, 1, false); }
inline Eigen::VectorXd pvec(const std::string &n, int k) { return mat0(n, k, 1, true); }
inline Eigen::VectorXd fpvec(const std::string &n, int k) { return mat0(n, k, 1, true); }
inline Eigen::MatrixXd matrix(const std::string &n, int r, int c) { return mat0(n, r, c, false); }
inline std::vector<double> stdvec(const std::string &n, int k)
{
    Eigen::MatrixXd m = mat0(n, k, 1, false);
    return std::vector<double>(m.data(), m.data() + k);
}
inline std::string nm(const std::string &n, int k) { return n + std::to_string(k); }
inline void assume(bool c)
{
    if (!c)
    {
        fprintf(log(), "assume\n");
        fflush(log());
        _exit(77);
    }
}
inline void check(bool c, const std::string &what)
{
    if (!c)
        fprintf(log(), "fail %s\n", what.c_str());
}
inline void event(const std::string &what) { fprintf(log(), "event %s\n", what.c_str()); }
inline void out(const std::string &n, double v) { fprintf(log(), "out %s 1 1 %.17g\n", n.c_str(), v); }
inline void out(const std::string &n, int v) { fprintf(log(), "out %s 1 1 %d\n", n.c_str(), v); }
inline void out(const std::string &n, bool v) { fprintf(log(), "out %s 1 1 %d\n", n.c_str(), (int)v); }
inline void out(const std::string &n, const std::string &v)
{
    std::string s;
    for (char c : v)
        s += c == '\n' ? std::string("\\n") : c == '\\' ? std::string("\\\\") : std::string(1, c);
    fprintf(log(), "outs %s %s\n", n.c_str(), s.c_str());
}
inline void out(const std::string &n, const Eigen::MatrixXd &m) { logm("out", n, m); }
inline void out(const std::string &n, const std::vector<double> &m)
{
    Eigen::MatrixXd e((int)m.size(), 1);
    for (size_t i = 0; i < m.size(); i++)
        e((int)i, 0) = m[i];
    logm("out", n, e);
}
template <class P> inline void outp0(const std::string &n, const P *p, int k)
{
    Eigen::MatrixXd e(k, 1);
    if (!p && k > 0)
    {
        fprintf(log(), "out %s 0 0\n", n.c_str());
        return;
    }
    for (int i = 0; i < k; i++)
        e(i, 0) = (double)p[i];
    logm("out", n, e);
}
inline void outp(const std::string &n, const double *p, int k) { outp0(n, p, k); }
inline void outp(const std::string &n, const long long *p, int k) { outp0(n, p, k); }

// user functions: quadratic polynomials of every entry of every argument, with hashed coefficients
struct Acc
{
    std::string name;
    int comp;
    double s;
    int arg = 0;
    Acc(const std::string &n, int c) : name(n), comp(c) { s = unit(hsh(n, c, 1000)); }
    void one(double v, int r, int c, double &prev)
    {
        s += unit(hsh(name, comp, arg, r, c)) * v;
        s += 0.5 * unit(hsh(name, comp, arg + 100, r, c)) * v * v;
        s += 0.25 * unit(hsh(name, comp, arg + 200, r, c)) * v * prev;
        prev = v;
    }
    double prev = 0;
    void add(double v) { one(v, 0, 0, prev); arg++; }
    void add(int v) { add((double)v); }
    void add(unsigned v) { add((double)v); }
    template <class M> void add(const Eigen::MatrixBase<M> &m0)
    {
        Eigen::MatrixXd m = m0;
        for (int j = 0; j < m.cols(); j++)
            for (int i = 0; i < m.rows(); i++)
                one(m(i, j), i, j, prev);
        arg++;
    }
};
template <class... A> double app(const std::string &n, const A &...args)
{
    Acc a(n, 0);
    (a.add(args), ...);
    return a.s;
}
template <class O, class... A> void appv(const std::string &n, O &out, const A &...args)
{
    for (int i = 0; i < (int)out.size(); i++)
    {
        Acc a(n, i);
        (a.add(args), ...);
        out(i) = a.s;
    }
}
template <class... A> double qapp(const std::string &n, const A &...args) { return app(n, args...); }
template <class O, class... A> void qappv(const std::string &n, O &out, const A &...args) { appv(n, out, args...); }
inline int run(int argc, char **argv, void (*scenario)())
{
    // every line of stdin is one case: key=value;key=value...
    std::string line;
    int idx = 0;
    while (std::getline(std::cin, line))
    {
        if (line.empty())
            continue;
        fflush(stdout);
        int fd[2];
        if (pipe(fd))
            return 3;
        pid_t p = fork();
        if (p == 0)
        {
            close(fd[0]);

            int dn = open("/dev/null", 1);
            dup2(dn, 1);
            if (argc < 2)
                dup2(dn, 2);
            log() = fdopen(fd[1], "w");
            std::stringstream ss(line);
            std::string kv;
            while (std::getline(ss, kv, ';'))
            {
                size_t e = kv.find('=');
                std::string k = kv.substr(0, e);
                double v = strtod(kv.c_str() + e + 1, nullptr);
                if (k == "seed")
                    seed() = (uint64_t)v;
                over()[k] = v;
            }
            alarm(60);
            scenario();
            fprintf(log(), "done\n");
            fflush(log());
            _exit(0);
        }
        close(fd[1]);
        std::string outp;
        char buf[65536];
        ssize_t k;
        while ((k = read(fd[0], buf, sizeof buf)) > 0)
            outp.append(buf, k);
        close(fd[0]);
        int st = 0;
        waitpid(p, &st, 0);
        printf("case %d %d %d\n", idx, WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
        fwrite(outp.data(), 1, outp.size(), stdout);
        if (!outp.empty() && outp.back() != '\n')
            printf("\n");
        printf("endcase\n");
        idx++;
    }
    return 0;
}
