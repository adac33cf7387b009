// Arguments of the user callbacks for an arbitrary decision vector.
#include <nl.hpp>
void scenario()
{
    Dims d;
    needUser(d, V::param("cons") ? 3 : 0);
    MAKE_CTL(c);
    scalesBefore(c, d);
    bool rec = false;
    if (V::param("outfn"))
        c.setOutputFunction([](mpc::cvec<TNY> &y, const mpc::cvec<TNX> &x, const mpc::cvec<TNU> &u, const unsigned int &k)
                            { V::appv("h", y, x, u, k); });
    c.setObjectiveFunction([&rec](const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNY> &Y, const mpc::mat<TPH1, TNU> &U, const double &e) -> double
                           {
        if (rec)
        {
            V::out("oX", X);
            V::out("oY", Y);
            V::out("oU", U);
            V::out("oe", e);
            rec = false;
        }
        return V::real("cost"); });
    if (V::param("cons"))
    {
        c.setIneqConFunction([&rec](mpc::cvec<TINEQ> &r, const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNY> &Y, const mpc::mat<TPH1, TNU> &U, const double &e)
                             {
        if (rec)
        {
            V::out("iX", X);
            V::out("iY", Y);
            V::out("iU", U);
            V::out("ie", e);
            rec = false;
        }
        r.setZero(); }, 1e-3f);
        c.setEqConFunction([&rec](mpc::cvec<TEQ> &r, const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNU> &U)
                           {
        if (rec)
        {
            V::out("eX", X);
            V::out("eU", U);
            rec = false;
        }
        r.setZero(); }, 1e-3f);
    }
    runBefore(c, d, false, d.eq, 0);
    std::vector<double> z = V::stdvec("z", d.n), g;
    rec = true;
    solver().obj(z, g, solver().objd);
    if (V::param("cons"))
    {
        std::vector<double> r(d.ineq), r2(d.eq);
        rec = true;
        evalIneq(d, r, z);
        rec = true;
        evalEq(d, r2, z);
    }
}
