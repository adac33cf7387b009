// Feasibility flag of the result.
#include <nl.hpp>
void scenario()
{
    Dims d;
    int user = V::param("user");
    needUser(d, user);
    MAKE_CTL(c);
    setScales(c, d);
    Eigen::VectorXd gi = V::vec("gi", d.ineq), ge = V::vec("ge", d.eq);
    bool free = V::param("free") != 0;
    if (V::param("outfn"))
        c.setOutputFunction([](mpc::cvec<TNY> &y, const mpc::cvec<TNX> &x, const mpc::cvec<TNU> &u, const unsigned int &k)
                            { V::appv("h", y, x, u, k); });
    if (user & 1)
        c.setIneqConFunction([free, &gi](mpc::cvec<TINEQ> &r, const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNY> &Y, const mpc::mat<TPH1, TNU> &U, const double &e)
                             {
            if (free)
                r = gi;
            else
                V::appv("gi", r, X, Y, U, e); }, (float)V::preal("itol"));
    if (user & 2)
        c.setEqConFunction([free, &ge](mpc::cvec<TEQ> &r, const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNU> &U)
                           {
            if (free)
                r = ge;
            else
                V::appv("ge", r, X, U); }, (float)V::preal("etol"));
    mpc::Result<TNU> r = c.optimize(V::vec("x0", d.nx), V::vec("u0", d.nu));
    V::out("feas", r.is_feasible);
    r = c.optimize(V::vec("x1", d.nx), V::vec("u1", d.nu));
    V::out("feas2", r.is_feasible);
    V::out("lfeas2", c.getLastResult().is_feasible);
}
