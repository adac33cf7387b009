// A history of linear solves with scripted solver outcomes: results, sequences, settings, warm starts, resources.
#include <lp.hpp>
static void step(LCTL &c, const LDims &d, int k)
{
    bool escaped = false;
    try
    {
        mpc::Result<TNU> r = c.optimize(V::vec(V::nm("x0_", k), d.nx), V::vec(V::nm("u0_", k), d.nu));
        V::out(V::nm("cmd", k), r.cmd);
        V::out(V::nm("cost", k), r.cost);
        V::out(V::nm("status", k), (int)r.status);
        V::out(V::nm("code", k), r.solver_status);
        V::out(V::nm("feas", k), r.is_feasible);
        mpc::Result<TNU> l = c.getLastResult();
        V::out(V::nm("lcmd", k), l.cmd);
        V::out(V::nm("lcost", k), l.cost);
        V::out(V::nm("lstatus", k), (int)l.status);
        V::out(V::nm("lcode", k), l.solver_status);
        V::out(V::nm("lfeas", k), l.is_feasible);
        auto s = c.getOptimalSequence();
        V::out(V::nm("sX", k), s.state);
        V::out(V::nm("sU", k), s.input);
        V::out(V::nm("sY", k), s.output);
    }
    catch (...)
    {
        escaped = true;
    }
    V::out(V::nm("escaped", k), escaped);
    V::out(V::nm("solves", k), QP::solves);
    V::out(V::nm("warmed", k), QP::warmed);
    V::out(V::nm("warmoff", k), QP::warmoff);
    V::out(V::nm("setwarm", k), (int)QP::set.warm_start);
    if (QP::warmed > 0)
    {
        V::out(V::nm("wx", k), QP::wx);
        V::out(V::nm("wy", k), QP::wy);
    }
    V::out(V::nm("m", k), (int)QP::m);
    V::out(V::nm("n", k), (int)QP::n);
    V::out(V::nm("liveWork", k), QP::liveWork);
    V::out(V::nm("liveCsc", k), QP::liveCsc);
    V::out(V::nm("liveRaw", k), QP::liveRaw);
}
static void settings(int k)
{
    V::out(V::nm("alpha", k), QP::set.alpha);
    V::out(V::nm("rho", k), QP::set.rho);
    V::out(V::nm("eps_rel", k), QP::set.eps_rel);
    V::out(V::nm("eps_abs", k), QP::set.eps_abs);
    V::out(V::nm("eps_prim_inf", k), QP::set.eps_prim_inf);
    V::out(V::nm("eps_dual_inf", k), QP::set.eps_dual_inf);
    V::out(V::nm("time_limit", k), QP::set.time_limit);
    V::out(V::nm("max_iter", k), (int)QP::set.max_iter);
    V::out(V::nm("verbose", k), (int)QP::set.verbose);
    V::out(V::nm("adaptive_rho", k), (int)QP::set.adaptive_rho);
    V::out(V::nm("polish", k), (int)QP::set.polish);
}
static void configure(LCTL &c, int k, bool warm)
{
    mpc::LParameters p;
    if (V::param("params"))
    {
        p.alpha = V::real(V::nm("p_alpha", k));
        p.rho = V::real(V::nm("p_rho", k));
        p.eps_rel = V::real(V::nm("p_eps_rel", k));
        p.eps_abs = V::real(V::nm("p_eps_abs", k));
        p.eps_prim_inf = V::real(V::nm("p_eps_prim_inf", k));
        p.eps_dual_inf = V::real(V::nm("p_eps_dual_inf", k));
        p.time_limit = V::real(V::nm("p_time_limit", k));
        p.maximum_iteration = V::integer(V::nm("p_maxit", k), 0, 100000);
        p.verbose = V::boolean(V::nm("p_verbose", k));
        p.adaptive_rho = V::boolean(V::nm("p_adaptive", k));
        p.polish = V::boolean(V::nm("p_polish", k));
    }
    p.enable_warm_start = warm;
    c.setOptimizerParameters(p);
}
static void model(LCTL &c, const LDims &d, int k)
{
    c.setStateSpaceModel(V::matrix(V::nm("A", k), d.nx, d.nx), V::matrix(V::nm("B", k), d.nx, d.nu), V::matrix(V::nm("C", k), d.ny, d.nx));
    if (V::param("dist"))
    {
        c.setDisturbances(V::matrix(V::nm("Bd", k), d.nx, d.ndu), V::matrix(V::nm("Dd", k), d.ny, d.ndu));
        c.setExogenousInputs(V::matrix(V::nm("dist", k), d.ndu, d.ph));
    }
}
template <class C> static void stats(C &c, int k)
{
    const mpc::SolutionStats &q = c.getExecutionStats();
    V::out(V::nm("num", k), q.numberOfSolutions);
    std::map<mpc::ResultStatus, int> m = q.solutionsStates;
    V::out(V::nm("n0", k), m[mpc::ResultStatus::SUCCESS]);
    V::out(V::nm("n1", k), m[mpc::ResultStatus::MAX_ITERATION]);
    V::out(V::nm("n2", k), m[mpc::ResultStatus::INFEASIBLE]);
    V::out(V::nm("n3", k), m[mpc::ResultStatus::ERROR]);
    V::out(V::nm("n4", k), m[mpc::ResultStatus::UNKNOWN]);
}
void scenario()
{
    LDims d;
#ifdef VS_NX
    LCTL *c = new LCTL();
#else
    LCTL *c = new LCTL(d.nx, d.nu, d.ndu, d.ny, d.ph, d.ch);
#endif
    model(*c, d, 1);
    if (V::param("cfg") || V::param("params") || V::param("warm"))
        configure(*c, 1, V::param("warm") == 1);
    if (V::param("given"))
        c->setSolverWarmStart(V::stdvec("gx", (d.ph + 1) * (d.nx + d.nu) + d.ph * d.nu),
                              V::stdvec("gy", 2 * (d.ph + 1) * (d.nx + d.nu) + (d.ph + 1) * d.ny + d.ph * d.nu + d.ph + 1));
    if (V::param("clear"))
        c->setSolverWarmStart({}, {});
    if (V::param("stats"))
        stats(*c, 0);
    step(*c, d, 1);
    settings(1);
    if (V::param("stats"))
        stats(*c, 1);
    if (V::param("statreset"))
        c->resetStats();
    if (V::param("toggle"))
        configure(*c, 2, V::param("warm") == 0);
    if (V::param("two"))
    {
        if (V::param("remodel"))
            model(*c, d, 2);
        if (V::param("clear2"))
            c->setSolverWarmStart({}, {});
        step(*c, d, 2);
        settings(2);
        if (V::param("three"))
            step(*c, d, 3);
        if (V::param("stats"))
            stats(*c, 2);
        V::out("keptx", c->getSolverWarmStartPrimal());
        V::out("kepty", c->getSolverWarmStartDual());
    }
    delete c;
    V::out("leftWork", QP::liveWork);
    V::out("leftCsc", QP::liveCsc);
    V::out("leftRaw", QP::liveRaw);
}
