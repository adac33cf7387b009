// Three solves in a row with scripted solver outcomes: guesses, results, sequences.
#include <nl.hpp>
static void step(CTL &c, const Dims &d, int k)
{
    bool escaped = false;
    try
    {
        mpc::Result<TNU> r = c.optimize(V::vec(V::nm("x", k), d.nx), V::vec(V::nm("u", k), d.nu));
        V::out(V::nm("cmd", k), r.cmd);
        V::out(V::nm("cost", k), r.cost);
        V::out(V::nm("status", k), (int)r.status);
        V::out(V::nm("code", k), r.solver_status);
        V::out(V::nm("feas", k), r.is_feasible);
        V::out(V::nm("msg", k), r.solver_status_msg);
        mpc::Result<TNU> l = c.getLastResult();
        V::out(V::nm("lcmd", k), l.cmd);
        V::out(V::nm("lcost", k), l.cost);
        V::out(V::nm("lstatus", k), (int)l.status);
        V::out(V::nm("lcode", k), l.solver_status);
        V::out(V::nm("lfeas", k), l.is_feasible);
        V::out(V::nm("lmsg", k), l.solver_status_msg);
        auto s = c.getOptimalSequence();
        V::out(V::nm("sX", k), s.state);
        V::out(V::nm("sU", k), s.input);
        V::out(V::nm("sY", k), s.output);
    }
    catch (...)
    {
        escaped = true;
    }
    V::out(V::nm("escaped", k), escaped);
    V::out(V::nm("guess", k), solver().guess);
    V::out(V::nm("runs", k), solver().runs);
}
template <class C> static void stats(C &c, int k)
{
    const mpc::SolutionStats &q = c.getExecutionStats();
    V::out(V::nm("num", k), q.numberOfSolutions);
    std::map<mpc::ResultStatus, int> m = q.solutionsStates;
    V::out(V::nm("n0", k), m[mpc::ResultStatus::SUCCESS]);
    V::out(V::nm("n1", k), m[mpc::ResultStatus::MAX_ITERATION]);
    V::out(V::nm("n2", k), m[mpc::ResultStatus::INFEASIBLE]);
    V::out(V::nm("n3", k), m[mpc::ResultStatus::ERROR]);
    V::out(V::nm("n4", k), m[mpc::ResultStatus::UNKNOWN]);
}
void scenario()
{
    Dims d;
    needUser(d, V::param("user") ? 3 : 0);
    MAKE_CTL(c);
    setScales(c, d);
    if (V::param("warm"))
    {
        mpc::NLParameters p;
        p.enable_warm_start = true;
        c.setOptimizerParameters(p);
    }
    if (V::param("outfn"))
        c.setOutputFunction([](mpc::cvec<TNY> &y, const mpc::cvec<TNX> &x, const mpc::cvec<TNU> &u, const unsigned int &k)
                            { V::appv("h", y, x, u, k); });
    if (V::param("user"))
    {
        c.setStateSpaceFunction([](mpc::cvec<TNX> &dx, const mpc::cvec<TNX> &x, const mpc::cvec<TNU> &u, const unsigned int &k)
                                { V::appv("f", dx, x, u, k); });
        c.setObjectiveFunction([](const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNY> &Y, const mpc::mat<TPH1, TNU> &U, const double &e) -> double
                               { return V::app("J", X, Y, U, e); });
        c.setIneqConFunction([](mpc::cvec<TINEQ> &r, const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNY> &Y, const mpc::mat<TPH1, TNU> &U, const double &e)
                             { V::appv("gi", r, X, Y, U, e); }, (float)V::preal("itol"));
        c.setEqConFunction([](mpc::cvec<TEQ> &r, const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNU> &U)
                           { V::appv("ge", r, X, U); }, (float)V::preal("etol"));
        c.setStateBounds(V::matrix("xmin", d.nx, d.ph), V::matrix("xmax", d.nx, d.ph));
        c.setInputBounds(V::matrix("umin", d.nu, d.ch), V::matrix("umax", d.nu, d.ch));
    }
    if (V::param("stats"))
        stats(c, 0);
    step(c, d, 1);
    if (V::param("stats"))
        stats(c, 1);
    if (V::param("statreset"))
        c.resetStats();
    if (V::param("toggle"))
    {
        mpc::NLParameters p;
        p.enable_warm_start = V::param("warm") == 0;
        c.setOptimizerParameters(p);
    }
    step(c, d, 2);
    if (V::param("three"))
        step(c, d, 3);
    if (V::param("stats"))
        stats(c, 2);
}
