// Stand-in for nlopt used by the demonstration: records what it is given and answers through a hook.
#pragma once
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>
#define NLOPT_MINOR_VERSION 7
namespace nlopt
{
enum algorithm { LN_COBYLA = 25, LD_MMA = 24, LD_SLSQP = 40, LD_LBFGS = 11, NUM_ALGORITHMS = 43 };
enum result { FAILURE = -1, INVALID_ARGS = -2, OUT_OF_MEMORY = -3, ROUNDOFF_LIMITED = -4, FORCED_STOP = -5,
              SUCCESS = 1, STOPVAL_REACHED = 2, FTOL_REACHED = 3, XTOL_REACHED = 4, MAXEVAL_REACHED = 5, MAXTIME_REACHED = 6 };
typedef double (*vfunc)(const std::vector<double> &, std::vector<double> &, void *);
typedef void (*mfunc)(unsigned, double *, unsigned, const double *, double *, void *);
class roundoff_limited : public std::runtime_error { public: roundoff_limited() : std::runtime_error("nlopt roundoff-limited") {} };
class forced_stop : public std::runtime_error { public: forced_stop() : std::runtime_error("nlopt forced stop") {} };
struct block { mfunc f; void *d; std::vector<double> tol; };
class opt
{
public:
    unsigned n; std::vector<double> lb, ub, guess; vfunc obj = nullptr; void *objd = nullptr;
    std::vector<block> eq, ineq;
    double ftol_rel = 0, ftol_abs = 0, xtol_rel = 0, xtol_abs = 0, maxtime = 0; int maxeval = 0;
    result code = SUCCESS; double value = 0;
    std::function<std::vector<double>(opt &, const std::vector<double> &)> solve = [](opt &, const std::vector<double> &g) { return g; };
    static inline opt *self = nullptr;
    opt(algorithm, unsigned k) : n(k), lb(k), ub(k) { self = this; }
    void set_lower_bounds(const std::vector<double> &v) { lb = v; }
    void set_upper_bounds(const std::vector<double> &v) { ub = v; }
    std::vector<double> get_lower_bounds() const { return lb; }
    std::vector<double> get_upper_bounds() const { return ub; }
    void set_min_objective(vfunc f, void *d) { obj = f; objd = d; }
    void add_equality_mconstraint(mfunc f, void *d, const std::vector<double> &t) { eq.push_back({f, d, t}); }
    void add_inequality_mconstraint(mfunc f, void *d, const std::vector<double> &t) { ineq.push_back({f, d, t}); }
    void remove_equality_constraints() { eq.clear(); }
    void remove_inequality_constraints() { ineq.clear(); }
    void set_ftol_rel(double v) { ftol_rel = v; }
    void set_ftol_abs(double v) { ftol_abs = v; }
    void set_xtol_rel(double v) { xtol_rel = v; }
    void set_x_weights(double) {}
    void set_xtol_abs(double v) { xtol_abs = v; }
    void set_maxeval(int v) { maxeval = v; }
    void set_maxtime(double v) { maxtime = v; }
    double get_ftol_rel() const { return ftol_rel; }
    double get_ftol_abs() const { return ftol_abs; }
    double get_xtol_rel() const { return xtol_rel; }
    std::vector<double> get_xtol_abs() const { return std::vector<double>(n, xtol_abs); }
    int get_maxeval() const { return maxeval; }
    double get_maxtime() const { return maxtime; }
    int get_numevals() const { return 1; }
    std::vector<double> optimize(const std::vector<double> &g) { guess = g; return solve(*this, g); }
    double last_optimum_value() const { return value; }
    result last_optimize_result() const { return code; }
};
} // namespace nlopt
