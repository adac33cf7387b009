// Solver settings and constraint tolerances.
#include <nl.hpp>
static void put(CTL &c, int k)
{
    mpc::NLParameters p;
    p.relative_ftol = V::real(V::nm("ftr", k));
    p.relative_xtol = V::real(V::nm("xtr", k));
    p.absolute_ftol = V::real(V::nm("fta", k));
    p.absolute_xtol = V::real(V::nm("xta", k));
    p.maximum_iteration = V::integer(V::nm("it", k), -5, 1000);
    p.time_limit = V::real(V::nm("tl", k));
    p.hard_constraints = V::boolean(V::nm("hard", k));
    p.enable_warm_start = V::boolean(V::nm("warm", k));
    c.setOptimizerParameters(p);
}
void scenario()
{
    Dims d;
    needUser(d, 3);
    MAKE_CTL(c);
    int n = V::param("n");
    if (V::param("tol"))
    {
        c.setStateSpaceFunction([](mpc::cvec<TNX> &dx, const mpc::cvec<TNX> &x, const mpc::cvec<TNU> &u, const unsigned int &k)
                                { V::appv("f", dx, x, u, k); }, (float)V::preal("stol"));
        c.setIneqConFunction([](mpc::cvec<TINEQ> &r, const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNY> &Y, const mpc::mat<TPH1, TNU> &U, const double &e)
                             { V::appv("gi", r, X, Y, U, e); }, (float)V::preal("itol"));
        c.setEqConFunction([](mpc::cvec<TEQ> &r, const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNU> &U)
                           { V::appv("ge", r, X, U); }, (float)V::preal("etol"));
        V::out("stols", solver().eqtol0);
        V::out("etols", solver().eqtol1);
        V::out("itols", solver().ineqtol0);
    }
    if (n >= 1)
        put(c, 1);
    if (n >= 2)
        put(c, 2);
    if (V::param("run"))
    {
        c.optimize(V::vec("x0", d.nx), V::vec("u0", d.nu));
        c.optimize(V::vec("x1", d.nx), V::vec("u1", d.nu));
        V::out("guess", solver().guess);
    }
    V::out("ftr", solver().ftol_rel);
    V::out("xtr", solver().xtol_rel);
    V::out("fta", solver().ftol_abs);
    V::out("xta", solver().xtol_abs_all);
    V::out("it", solver().maxeval);
    V::out("tl", solver().maxtime);
    V::out("slb", solver().lb[d.n - 1]);
    V::out("sub", solver().ub[d.n - 1]);
}
