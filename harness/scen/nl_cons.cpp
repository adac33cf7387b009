// User constraint blocks: values, tolerances, gradients.
#include <nl.hpp>
void scenario()
{
    Dims d;
    needUser(d, V::param("user"));
    MAKE_CTL(c);
    scalesBefore(c, d);
    bool jac = V::param("jac") != 0;
    if (V::param("model"))
        c.setStateSpaceFunction([](mpc::cvec<TNX> &dx, const mpc::cvec<TNX> &x, const mpc::cvec<TNU> &u, const unsigned int &k)
                                { V::appv("f", dx, x, u, k); });
    if (V::param("outfn"))
        c.setOutputFunction([jac](mpc::cvec<TNY> &y, const mpc::cvec<TNX> &x, const mpc::cvec<TNU> &u, const unsigned int &k)
                            {
            if (jac)
                V::qappv("h", y, x, u, k);
            else
                V::appv("h", y, x, u, k); });
    if (V::param("user") & 1)
        V::out("ri", c.setIneqConFunction([jac](mpc::cvec<TINEQ> &r, const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNY> &Y, const mpc::mat<TPH1, TNU> &U, const double &e)
                             {
            if (jac)
                V::qappv("gi", r, X, Y, U, e);
            else
                V::appv("gi", r, X, Y, U, e); }, (float)V::preal("itol")));
    if (V::param("user") & 2)
        V::out("re", c.setEqConFunction([jac](mpc::cvec<TEQ> &r, const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNU> &U)
                           {
            if (jac)
                V::qappv("ge", r, X, U);
            else
                V::appv("ge", r, X, U); }, (float)V::preal("etol")));
    if (V::param("null"))
    {
        c.setIneqConFunction(nullptr, (float)V::preal("itol"));
        c.setEqConFunction(nullptr, (float)V::preal("etol"));
    }
    if (V::param("model"))
        runBefore(c, d, jac, d.ph * d.nx, d.eq);
    else
        runBefore(c, d, jac, d.eq, 0);
    std::vector<double> z = V::stdvec("z", d.n);
    V::out("nineq", solver().nineq);
    V::out("neq", solver().neq);
    if (solver().nineq > 0)
    {
        V::out("itols", solver().ineqtol0);
        std::vector<double> r = V::stdvec("junk", d.ineq);
        if (jac)
        {
            std::vector<double> g = V::stdvec("junkg", d.ineq * d.n);
            evalIneq(d, r, z, g.data());
            V::out("gi", g);
        }
        else
            evalIneq(d, r, z);
        V::out("vi", r);
    }
    if (solver().neq > V::param("model"))
    {
        if (V::param("model"))
            V::out("etols", solver().eqtol1);
        else
            V::out("etols", solver().eqtol0);
        std::vector<double> r = V::stdvec("junk2", d.eq);
        if (jac)
        {
            std::vector<double> g = V::stdvec("junkg2", d.eq * d.n);
            evalEq(d, r, z, g.data());
            V::out("ge", g);
        }
        else
            evalEq(d, r, z);
        V::out("ve", r);
    }
}
