// Common set-up of the nonlinear controller for the scenarios.
#pragma once
#include <v.hpp>
#include <mpc/NLMPC.hpp>

#ifdef VS_NX
#define CTL mpc::NLMPC<VS_NX, VS_NU, VS_NY, VS_PH, VS_CH, VS_INEQ, VS_EQ>
#define TNX VS_NX
#define TNU VS_NU
#define TNY VS_NY
#define TPH VS_PH
#define TCH VS_CH
#define TPH1 (VS_PH + 1)
#define TINEQ VS_INEQ
#define TEQ VS_EQ
#define MAKE_CTL(c) CTL c
#else
#define CTL mpc::NLMPC<>
#define TNX Eigen::Dynamic
#define TNU Eigen::Dynamic
#define TNY Eigen::Dynamic
#define TPH Eigen::Dynamic
#define TCH Eigen::Dynamic
#define TPH1 Eigen::Dynamic
#define TINEQ Eigen::Dynamic
#define TEQ Eigen::Dynamic
#define MAKE_CTL(c) CTL c(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq)
#endif

struct Dims
{
    int nx, nu, ny, ph, ch, ineq, eq, n;
    Dims()
    {
        nx = V::dim("nx", 1);
        nu = V::dim("nu", 1);
        ny = V::dim("ny", 0);
        ph = V::dim("ph", 1);
        ch = V::dim("ch", 1);
        ineq = V::dim("ineq", 0);
        eq = V::dim("eq", 0);
        V::assume(ch <= ph);
        n = ph * nx + nu * ch + 1;
    }
};

// a user equality or inequality function comes with at least one equality or inequality
inline void needUser(const Dims &d, int user)
{
    if (user & 1)
        V::assume(d.ineq >= 1);
    if (user & 2)
        V::assume(d.eq >= 1);
}

inline nlopt::opt &solver()
{
    return *nlopt::opt::current;
}

inline void setScales(CTL &c, const Dims &d)
{
    c.setStateScale(V::pvec("sx", d.nx));
    c.setInputScale(V::pvec("su", d.nu));
}

// The user blocks are registered in an order of the library's own choosing: they are found by their size and tolerance.
inline void evalIneq(const Dims &d, std::vector<double> &r, const std::vector<double> &z, double *grad = nullptr)
{
    V::check(solver().nineq == 1, "one inequality block");
    V::check((int)solver().ineqtol0.size() == d.ineq, "size of the inequality block");
    solver().ineqf[0]((unsigned)d.ineq, r.data(), (unsigned)d.n, z.data(), grad, solver().ineqd[0]);
}
inline void evalState(const Dims &d, std::vector<double> &r, const std::vector<double> &z, double *grad = nullptr)
{
    solver().eqf[0]((unsigned)(d.ph * d.nx), r.data(), (unsigned)d.n, z.data(), grad, solver().eqd[0]);
}
inline void evalEq(const Dims &d, std::vector<double> &r, const std::vector<double> &z, double *grad = nullptr)
{
    V::check(solver().neq >= 1, "an equality block");
    int b = solver().neq - 1;
    solver().eqf[b]((unsigned)d.eq, r.data(), (unsigned)d.n, z.data(), grad, solver().eqd[b]);
}

// Histories before the judged evaluation (param hist):
//  1 every callback evaluated at the judged decision vector, before the measured state changes
//  2 every callback evaluated at another decision vector, with the final measured state
//  3 both scalings configured differently first, and replaced after the functions are registered
//  4 other functions registered first, and replaced
//  5 both of 1 and 2
inline void evalAll(const Dims &d, const std::vector<double> &z, bool grads, int eq0, int eq1)
{
    std::vector<double> g;
    if (solver().obj != nullptr)
    {
        solver().obj(z, g, solver().objd);
        if (grads)
        {
            g = V::stdvec("wgj", d.n);
            solver().obj(z, g, solver().objd);
        }
    }
    if (solver().nineq > 0)
    {
        std::vector<double> r = V::stdvec("wri", d.ineq), gi = V::stdvec("wgi", d.ineq * d.n);
        solver().ineqf[0]((unsigned)d.ineq, r.data(), (unsigned)d.n, z.data(), grads ? gi.data() : nullptr, solver().ineqd[0]);
    }
    if (solver().neq > 0)
    {
        std::vector<double> r = V::stdvec("wr0", eq0), ge = V::stdvec("wg0", eq0 * d.n);
        solver().eqf[0]((unsigned)eq0, r.data(), (unsigned)d.n, z.data(), grads ? ge.data() : nullptr, solver().eqd[0]);
    }
    if (solver().neq > 1)
    {
        std::vector<double> r = V::stdvec("wr1", eq1), ge = V::stdvec("wg1", eq1 * d.n);
        solver().eqf[1]((unsigned)eq1, r.data(), (unsigned)d.n, z.data(), grads ? ge.data() : nullptr, solver().eqd[1]);
    }
}
inline void scalesBefore(CTL &c, const Dims &d)
{
    if (V::param("hist") == 3)
    {
        c.setStateScale(V::pvec("sx0", d.nx));
        c.setInputScale(V::pvec("su0", d.nu));
    }
    else
        setScales(c, d);
}
inline void runBefore(CTL &c, const Dims &d, bool grads, int eq0, int eq1)
{
    int h = V::param("hist");
    if (h == 3)
        setScales(c, d);
    c.optimize(V::vec("x00", d.nx), V::vec("u00", d.nu));
    if (h == 1 || h == 5)
        evalAll(d, V::stdvec("z", d.n), grads, eq0, eq1);
    c.optimize(V::vec("x0", d.nx), V::vec("u0", d.nu));
    if (h == 2 || h == 5)
        evalAll(d, V::stdvec("z00", d.n), grads, eq0, eq1);
}
