// The quadratic program assembled from the model, weights, references, bounds and measurements.
#include <lp.hpp>
typedef mpc::ProblemBuilder<LSIZE> PB;
static void model(PB &b, const LDims &d, int k)
{
    b.setStateModel(V::matrix(V::nm("A", k), d.nx, d.nx), V::matrix(V::nm("B", k), d.nx, d.nu), V::matrix(V::nm("C", k), d.ny, d.nx));
}
static void disturb(PB &b, const LDims &d, int k)
{
    b.setExogenousInput(V::matrix(V::nm("Bd", k), d.nx, d.ndu), V::matrix(V::nm("Dd", k), d.ny, d.ndu));
}
static std::string nw(bool other, const char *n)
{
    return std::string(other ? "o" : "") + n;
}
static void weights(PB &b, const LDims &d, bool o = false)
{
    b.setObjective(V::matrix(nw(o, "wY"), d.ny, d.ph), V::matrix(nw(o, "wU"), d.nu, d.ph), V::matrix(nw(o, "wD"), d.nu, d.ph));
}
static void bounds(PB &b, const LDims &d, bool o = false)
{
    b.setStateBounds(V::matrix(nw(o, "xmin"), d.nx, d.ph), V::matrix(nw(o, "xmax"), d.nx, d.ph));
    b.setInputBounds(V::matrix(nw(o, "umin"), d.nu, d.ch), V::matrix(nw(o, "umax"), d.nu, d.ch));
    b.setOutputBounds(V::matrix(nw(o, "ymin"), d.ny, d.ph), V::matrix(nw(o, "ymax"), d.ny, d.ph));
}
static void scalar(PB &b, const LDims &d, bool o = false)
{
    mpc::cvec<TPH> lo = V::vec(nw(o, "smin"), d.ph), hi = V::vec(nw(o, "smax"), d.ph);
    b.setScalarConstraint(lo, hi, V::vec(nw(o, "sX"), d.nx), V::vec(nw(o, "sU"), d.nu));
}
static void get(PB &b, const LDims &d, int k)
{
    const PB::Problem &p = b.get(V::vec(V::nm("x0_", k), d.nx), V::vec(V::nm("u0_", k), d.nu),
                                 V::matrix(V::nm("yref", k), d.ny, d.ph), V::matrix(V::nm("uref", k), d.nu, d.ph),
                                 V::matrix(V::nm("dref", k), d.nu, d.ph), V::matrix(V::nm("dist", k), d.ndu, d.ph));
    V::out(V::nm("P", k), p.P);
    V::out(V::nm("q", k), p.q);
    V::out(V::nm("Ac", k), p.A);
    V::out(V::nm("l", k), p.l);
    V::out(V::nm("u", k), p.u);
}
void scenario()
{
    LDims d;
    PB b;
    INIT_PB(b);
    if (V::param("first"))
    {
        // a first configuration that is replaced
        model(b, d, 0);
        disturb(b, d, 0);
        if (V::param("w"))
            weights(b, d, true);
        if (V::param("b"))
            bounds(b, d, true);
        if (V::param("s"))
            scalar(b, d, true);
        get(b, d, 0);
    }
    if (V::param("early"))
    {
        if (V::param("w"))
            weights(b, d);
        if (V::param("b"))
            bounds(b, d);
        if (V::param("s"))
            scalar(b, d);
        if (V::param("dist"))
            disturb(b, d, 1);
        model(b, d, 1);
    }
    else
    {
        model(b, d, 1);
        if (V::param("dist"))
            disturb(b, d, 1);
        if (V::param("s"))
            scalar(b, d);
        if (V::param("b"))
            bounds(b, d);
        if (V::param("w"))
            weights(b, d);
    }
    get(b, d, 1);
}
