#include <nl.hpp>
void scenario()
{
    Dims d;
    MAKE_CTL(c);
    V::out("lb0", solver().lb);
    V::out("ub0", solver().ub);
    int kind = V::param("kind"); // 0 state slice, 1 input slice, 2 state matrix, 3 input matrix
    int h = V::param("hist"); // 1 solves in between, 2 parameters set last, 3 scalings replaced last, 4 the other bounds set as well, 5 a solve before anything is set, 6 a solve before the last change
    scalesBefore(c, d);
    if (h == 5)
        c.optimize(V::vec("x0", d.nx), V::vec("u0", d.nu));
    bool r1 = true, r2 = true;
    if (kind == 0)
    {
        r1 = c.setStateBounds(V::vec("xmin", d.nx), V::vec("xmax", d.nx), mpc::HorizonSlice::all());
        if (h == 1 || h == 6)
            c.optimize(V::vec("x0", d.nx), V::vec("u0", d.nu));
        r2 = c.setStateBounds(V::vec("xmin2", d.nx), V::vec("xmax2", d.nx), mpc::HorizonSlice{V::integer("start", -3, d.ph + 3), V::integer("end", -3, d.ph + 3)});
    }
    else if (kind == 1)
    {
        r1 = c.setInputBounds(V::vec("umin", d.nu), V::vec("umax", d.nu), mpc::HorizonSlice::all());
        if (h == 1 || h == 6)
            c.optimize(V::vec("x0", d.nx), V::vec("u0", d.nu));
        r2 = c.setInputBounds(V::vec("umin2", d.nu), V::vec("umax2", d.nu), mpc::HorizonSlice{V::integer("start", -3, d.ch + 3), V::integer("end", -3, d.ch + 3)});
    }
    else if (kind == 2)
        r1 = c.setStateBounds(V::matrix("xminm", d.nx, d.ph), V::matrix("xmaxm", d.nx, d.ph));
    else if (kind == 3)
        r1 = c.setInputBounds(V::matrix("uminm", d.nu, d.ch), V::matrix("umaxm", d.nu, d.ch));
    else if (kind == 4)
    {
        mpc::NLParameters p;
        p.hard_constraints = false;
        c.setOptimizerParameters(p);
    }
    else if (kind == 5)
    {
        mpc::NLParameters p;
        p.hard_constraints = false;
        c.setOptimizerParameters(p);
        if (h == 6)
            c.optimize(V::vec("x0", d.nx), V::vec("u0", d.nu));
        p.hard_constraints = true;
        c.setOptimizerParameters(p);
    }
    if (h == 1)
        c.optimize(V::vec("x1", d.nx), V::vec("u1", d.nu));
    if (h == 3)
        setScales(c, d);
    if (h == 2)
    {
        mpc::NLParameters p;
        p.maximum_iteration = 7;
        p.hard_constraints = kind != 4;
        c.setOptimizerParameters(p);
        c.optimize(V::vec("x1", d.nx), V::vec("u1", d.nu));
    }
    if (h == 4)
    {
        if (kind == 0 || kind == 2)
            c.setInputBounds(V::matrix("uminm", d.nu, d.ch), V::matrix("umaxm", d.nu, d.ch));
        else
            c.setStateBounds(V::matrix("xminm", d.nx, d.ph), V::matrix("xmaxm", d.nx, d.ph));
    }
    V::out("r1", r1);
    V::out("r2", r2);
    V::out("lb", solver().lb);
    V::out("ub", solver().ub);
}
