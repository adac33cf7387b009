// Dynamics equality block handed to the solver: values (arbitrary model) or values and Jacobian (model with known derivative).
#include <nl.hpp>
void scenario()
{
    Dims d;
    MAKE_CTL(c);
    scalesBefore(c, d);
    if (V::param("hist") == 4)
        c.setDiscretizationSamplingTime(V::preal("Ts0"));
    if (V::param("kind") == 1)
        V::out("rt", c.setDiscretizationSamplingTime(V::preal("Ts")));
    bool jac = V::param("jac") != 0;
    c.setStateSpaceFunction([jac](mpc::cvec<TNX> &dx, const mpc::cvec<TNX> &x, const mpc::cvec<TNU> &u, const unsigned int &k)
                            {
        if (jac)
            V::qappv("f", dx, x, u, k);
        else
            V::appv("f", dx, x, u, k); });
    runBefore(c, d, jac, d.ph * d.nx, 0);
    std::vector<double> z = V::stdvec("z", d.n);
    V::check((int)solver().eqtol0.size() == d.ph * d.nx, "size of the dynamics block");
    std::vector<double> r = V::stdvec("junk", d.ph * d.nx);
    if (jac)
    {
        std::vector<double> g = V::stdvec("junkg", d.ph * d.nx * d.n);
        evalState(d, r, z, g.data());
        V::out("g", g);
    }
    else
        evalState(d, r, z);
    V::out("r", r);
}
