#include <v.hpp>
#include <chrono>
#include <iomanip>
#include <iostream>
#include <map>
#include <mpc/Types.hpp>
// a clock under our control instead of the machine's
double g_now;
struct vclock
{
    typedef double rep;
    typedef std::ratio<1> period;
    typedef std::chrono::duration<double> duration;
    typedef std::chrono::time_point<vclock> time_point;
    static const bool is_steady = true;
    static time_point now() { return time_point(duration(g_now)); }
};
namespace std { namespace chrono { using ::vclock; } }
#define high_resolution_clock vclock
#define steady_clock vclock
#define system_clock vclock
#include <mpc/Profiler.hpp>

static mpc::ResultStatus pick(double v)
{
    if (v < -1.25)
        return mpc::ResultStatus::SUCCESS;
    if (v < -0.5)
        return mpc::ResultStatus::MAX_ITERATION;
    if (v < 0.5)
        return mpc::ResultStatus::INFEASIBLE;
    if (v < 1.25)
        return mpc::ResultStatus::ERROR;
    return mpc::ResultStatus::UNKNOWN;
}
static void record(mpc::Profiler &p, const std::string &s, int n)
{
    Eigen::VectorXd gap = V::pvec("gap" + s, n), dur = V::fpvec("dur" + s, n), st = V::vec("st" + s, n), ret(n);
    for (int i = 0; i < n; i++)
    {
        g_now += gap(i);
        p.solutionStart();
        g_now += dur(i);
        mpc::Result<2> r;
        r.status = pick(st(i));
        ret(i) = p.solutionEnd(r).count();
    }
    V::out("ret" + s, ret);
    const mpc::SolutionStats &q = p.getStats();
    V::out("min" + s, q.minSolutionTime.count());
    V::out("max" + s, q.maxSolutionTime.count());
    V::out("avg" + s, q.averageSolutionTime.count());
    V::out("tot" + s, q.totalSolutionTime.count());
    V::out("std" + s, q.standardDeviation);
    V::out("num" + s, q.numberOfSolutions);
    std::map<mpc::ResultStatus, int> m = q.solutionsStates;
    V::out("c0" + s, m[mpc::ResultStatus::SUCCESS]);
    V::out("c1" + s, m[mpc::ResultStatus::MAX_ITERATION]);
    V::out("c2" + s, m[mpc::ResultStatus::INFEASIBLE]);
    V::out("c3" + s, m[mpc::ResultStatus::ERROR]);
    V::out("c4" + s, m[mpc::ResultStatus::UNKNOWN]);
}
void scenario()
{
    g_now = V::real("t0");
    mpc::Profiler p;
    record(p, "a", V::dim("na", 0));
    if (V::param("reset"))
    {
        p.reset();
        record(p, "b", V::dim("nb", 0));
    }
}
