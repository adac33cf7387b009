// Objective handed to the solver: value and gradient.
#include <nl.hpp>
void scenario()
{
    Dims d;
    MAKE_CTL(c);
    scalesBefore(c, d);
    bool jac = V::param("jac") != 0;
    if (V::param("hist") == 4)
    {
        c.setOutputFunction([](mpc::cvec<TNY> &y, const mpc::cvec<TNX> &x, const mpc::cvec<TNU> &u, const unsigned int &k)
                            { V::appv("h0", y, x, u, k); });
        c.setObjectiveFunction([](const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNY> &Y, const mpc::mat<TPH1, TNU> &U, const double &e) -> double
                               { return V::app("J0", X, Y, U, e); });
        c.optimize(V::vec("x000", d.nx), V::vec("u000", d.nu));
    }
    if (V::param("outfn"))
        c.setOutputFunction([jac](mpc::cvec<TNY> &y, const mpc::cvec<TNX> &x, const mpc::cvec<TNU> &u, const unsigned int &k)
                            {
            if (jac)
                V::qappv("h", y, x, u, k);
            else
                V::appv("h", y, x, u, k); });
    c.setObjectiveFunction([jac](const mpc::mat<TPH1, TNX> &X, const mpc::mat<TPH1, TNY> &Y, const mpc::mat<TPH1, TNU> &U, const double &e) -> double
                               { return jac ? V::qapp("J", X, Y, U, e) : V::app("J", X, Y, U, e); });
    runBefore(c, d, jac, 0, 0);
    std::vector<double> z = V::stdvec("z", d.n), g;
    V::check(solver().obj != nullptr, "objective registered");
    if (jac)
        g = V::stdvec("junkg", d.n);
    V::out("J", solver().obj(z, g, solver().objd));
    if (jac)
        V::out("g", g);
}
