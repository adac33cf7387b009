// Contract model of the nlopt C++ interface (nlopt 2.7): records what it is given, answers as scripted.
#pragma once
#include <cstdlib>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>
#include <v.hpp>

#ifndef NLOPT_MINOR_VERSION
#define NLOPT_MINOR_VERSION 7
#endif

namespace nlopt
{
enum algorithm { GN_DIRECT = 0, LN_COBYLA = 25, LD_MMA = 24, LD_SLSQP = 40, LD_LBFGS = 11, AUGLAG = 36, NUM_ALGORITHMS = 43 };
enum result {
    FAILURE = -1, INVALID_ARGS = -2, OUT_OF_MEMORY = -3, ROUNDOFF_LIMITED = -4, FORCED_STOP = -5, NUM_FAILURES = -6,
    SUCCESS = 1, STOPVAL_REACHED = 2, FTOL_REACHED = 3, XTOL_REACHED = 4, MAXEVAL_REACHED = 5, MAXTIME_REACHED = 6, NUM_RESULTS = 7
};
typedef double (*func)(unsigned n, const double *x, double *grad, void *data);
typedef void (*mfunc)(unsigned m, double *result, unsigned n, const double *x, double *grad, void *data);
typedef double (*vfunc)(const std::vector<double> &x, std::vector<double> &grad, void *data);

class roundoff_limited : public std::runtime_error
{
public:
    roundoff_limited() : std::runtime_error("nlopt roundoff-limited") {}
};
class forced_stop : public std::runtime_error
{
public:
    forced_stop() : std::runtime_error("nlopt forced stop") {}
};

class opt
{
public:
    unsigned n;
    algorithm alg;
    std::vector<double> lb, ub, guess;
    int nlbset = 0, nubset = 0;
    vfunc obj = nullptr;
    void *objd = nullptr;
    int neq = 0, nineq = 0;
    mfunc eqf[4] = {nullptr, nullptr, nullptr, nullptr};
    void *eqd[4] = {nullptr, nullptr, nullptr, nullptr};
    std::vector<double> eqtol0, eqtol1;
    mfunc ineqf[4] = {nullptr, nullptr, nullptr, nullptr};
    void *ineqd[4] = {nullptr, nullptr, nullptr, nullptr};
    std::vector<double> ineqtol0, ineqtol1;
    double ftol_rel = 0, ftol_abs = 0, xtol_rel = 0, maxtime = 0, stopval = 0, xtol_abs_all = 0;
    std::vector<double> xtol_abs, xweights;
    double xweight_all = 1;
    int maxeval = 0;
    int runs = 0;
    int lastres = 1;
    double lastf = 0;
    static inline opt *current = nullptr;
    static inline int live = 0;

    opt(algorithm a, unsigned n_) : n(n_), alg(a)
    {
        lb.resize(n_);
        ub.resize(n_);
        guess.resize(n_);
        current = this;
        live++;
    }
    ~opt()
    {
        live--;
    }
    void set_lower_bounds(const std::vector<double> &v)
    {
        V::check(v.size() == n, "size of the lower bounds");
        lb = v;
        nlbset++;
    }
    void set_upper_bounds(const std::vector<double> &v)
    {
        V::check(v.size() == n, "size of the upper bounds");
        ub = v;
        nubset++;
    }
    void get_lower_bounds(std::vector<double> &v) const { v = lb; }
    void get_upper_bounds(std::vector<double> &v) const { v = ub; }
    std::vector<double> get_lower_bounds() const { return lb; }
    std::vector<double> get_upper_bounds() const { return ub; }
    unsigned get_dimension() const { return n; }
    algorithm get_algorithm() const { return alg; }

    void set_min_objective(vfunc f, void *d)
    {
        obj = f;
        objd = d;
    }
    void add_equality_mconstraint(mfunc f, void *d, const std::vector<double> &tol)
    {
        eqf[neq] = f;
        eqd[neq] = d;
        if (neq == 0)
            eqtol0 = tol;
        else
            eqtol1 = tol;
        neq++;
    }
    void add_inequality_mconstraint(mfunc f, void *d, const std::vector<double> &tol)
    {
        ineqf[nineq] = f;
        ineqd[nineq] = d;
        if (nineq == 0)
            ineqtol0 = tol;
        else
            ineqtol1 = tol;
        nineq++;
    }
    void remove_equality_constraints() { neq = 0; }
    void remove_inequality_constraints() { nineq = 0; }
    void set_ftol_rel(double v) { ftol_rel = v; }
    void set_ftol_abs(double v) { ftol_abs = v; }
    void set_xtol_rel(double v) { xtol_rel = v; }
    void set_xtol_abs(double v) { xtol_abs_all = v; }
    void set_x_weights(double v) { xweight_all = v; }
    void set_maxeval(int v) { maxeval = v; }
    void set_maxtime(double v) { maxtime = v; }
    void set_stopval(double v) { stopval = v; }
    double get_ftol_rel() const { return ftol_rel; }
    double get_ftol_abs() const { return ftol_abs; }
    double get_xtol_rel() const { return xtol_rel; }
    int get_maxeval() const { return maxeval; }
    double get_maxtime() const { return maxtime; }
    int get_numevals() const { return 0; }
    void force_stop() {}

    result last_optimize_result() const { return (result)lastres; }
    double last_optimum_value() const { return lastf; }

    // the solver evaluates what it was given at points of its own choosing
    void evaluations()
    {
        std::vector<double> z = V::stdvec(V::nm("zev", runs), n), g;
        if (obj != nullptr)
        {
            obj(z, g, objd);
            g.resize(n);
            obj(z, g, objd);
        }
        if (nineq > 0)
        {
            std::vector<double> r(ineqtol0.size()), gi(ineqtol0.size() * n);
            ineqf[0]((unsigned)r.size(), r.data(), n, z.data(), gi.data(), ineqd[0]);
        }
        if (neq > 0)
        {
            std::vector<double> r(eqtol0.size()), ge(eqtol0.size() * n);
            eqf[0]((unsigned)r.size(), r.data(), n, z.data(), ge.data(), eqd[0]);
        }
        if (neq > 1)
        {
            std::vector<double> r(eqtol1.size()), ge(eqtol1.size() * n);
            eqf[1]((unsigned)r.size(), r.data(), n, z.data(), ge.data(), eqd[1]);
        }
    }
    std::vector<double> optimize(const std::vector<double> &x0)
    {
        V::check(x0.size() == n, "size of the starting point");
        guess = x0;
        runs++;
        if (V::param("evals"))
            evaluations();
        int how = V::param(V::nm("outcome", runs));
        if (how == 1)
            throw roundoff_limited();
        if (how == 2)
            throw forced_stop();
        if (how == 3)
            throw std::invalid_argument("nlopt invalid argument");
        if (how == 4)
            throw std::bad_alloc();
        lastres = V::integer(V::nm("lastres", runs), V::param("anycode") ? -7 : 1, V::param("anycode") ? 10 : 7);
        lastf = V::real(V::nm("lastf", runs));
        return V::stdvec(V::nm("zopt", runs), n);
    }
    result optimize(std::vector<double> &x, double &f)
    {
        x = optimize(x);
        f = lastf;
        return (result)lastres;
    }
};
}
