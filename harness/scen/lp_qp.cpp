// What reaches the QP solver after slice-wise configuration of the linear controller, and in which sparse form.
#include <lp.hpp>
static std::string nw(bool other, const char *n)
{
    return std::string(other ? "m" : "n") + n;
}
static bool apply(LCTL &c, const LDims &d, int what, int st, mpc::HorizonSlice s, bool o)
{
    bool ret = true;
    if (what == 0)
        ret = c.setObjectiveWeights(V::vec(nw(o, "wY"), d.ny), V::vec(nw(o, "wU"), d.nu), V::vec(nw(o, "wD"), d.nu), s);
    if (what == 1)
        ret = c.setReferences(V::vec(nw(o, "yref"), d.ny), V::vec(nw(o, "uref"), d.nu), V::vec(nw(o, "dref"), d.nu), s);
    if (what == 2)
        ret = c.setExogenousInputs(V::vec(nw(o, "dist"), d.ndu), s);
    if (what == 3)
        ret = c.setStateBounds(V::vec(nw(o, "xmin"), d.nx), V::vec(nw(o, "xmax"), d.nx), s);
    if (what == 4)
        ret = c.setInputBounds(V::vec(nw(o, "umin"), d.nu), V::vec(nw(o, "umax"), d.nu), s);
    if (what == 5)
        ret = c.setOutputBounds(V::vec(nw(o, "ymin"), d.ny), V::vec(nw(o, "ymax"), d.ny), s);
    if (what == 6)
        ret = c.setScalarConstraint(V::real(nw(o, "smin")), V::real(nw(o, "smax")), V::vec(nw(o, "sX"), d.nx), V::vec(nw(o, "sU"), d.nu), s);
    if (what == 7)
    {
        ret = c.setConstraints((unsigned)st, V::vec(nw(o, "xmin"), d.nx), V::vec(nw(o, "umin"), d.nu), V::vec(nw(o, "ymin"), d.ny),
                               V::vec(nw(o, "xmax"), d.nx), V::vec(nw(o, "umax"), d.nu), V::vec(nw(o, "ymax"), d.ny));
    }
    if (what == 8)
    {
        ret = c.setScalarConstraint((unsigned)st, V::real(nw(o, "smin")), V::real(nw(o, "smax")), V::vec(nw(o, "sX"), d.nx), V::vec(nw(o, "sU"), d.nu));
    }
    return ret;
}
void scenario()
{
    LDims d;
#ifdef VS_NX
    LCTL c;
#else
    LCTL c(d.nx, d.nu, d.ndu, d.ny, d.ph, d.ch);
#endif
    int what = V::param("what");
    c.setStateSpaceModel(V::matrix("A1", d.nx, d.nx), V::matrix("B1", d.nx, d.nu), V::matrix("C1", d.ny, d.nx));
    c.setDisturbances(V::matrix("Bd1", d.nx, d.ndu), V::matrix("Dd1", d.ny, d.ndu));
    if (V::param("base"))
    {
        // every stage configured beforehand
        c.setObjectiveWeights(V::matrix("wY", d.ny, d.ph), V::matrix("wU", d.nu, d.ph), V::matrix("wD", d.nu, d.ph));
        c.setReferences(V::matrix("yref1", d.ny, d.ph), V::matrix("uref1", d.nu, d.ph), V::matrix("dref1", d.nu, d.ph));
        c.setExogenousInputs(V::matrix("dist1", d.ndu, d.ph));
        c.setStateBounds(V::matrix("xmin", d.nx, d.ph), V::matrix("xmax", d.nx, d.ph));
        c.setInputBounds(V::matrix("umin", d.nu, d.ch), V::matrix("umax", d.nu, d.ch));
        c.setOutputBounds(V::matrix("ymin", d.ny, d.ph), V::matrix("ymax", d.ny, d.ph));
        c.setScalarConstraint(V::real("smin"), V::real("smax"), V::vec("sX", d.nx), V::vec("sU", d.nu), mpc::HorizonSlice::all());
    }
    mpc::HorizonSlice s = mpc::HorizonSlice::all();
    int st = 0, en = 0;
    if (V::param("all") == 0)
    {
        st = V::integer("start", -1000, 1000);
        en = V::integer("end", -1000, 1000);
        s = mpc::HorizonSlice{st, en};
    }
    if (what == 7 || what == 8)
        V::assume(st >= 0);
    int h = V::param("hist"); // 1 solved before, 2 the same stages set before, 4 solver parameters set last
    if (h == 1)
        c.optimize(V::vec("x0_0", d.nx), V::vec("u0_0", d.nu));
    if (h == 2)
        apply(c, d, what, st, s, true);
    bool ret = apply(c, d, what, st, s, false);
    if (h == 4)
    {
        mpc::LParameters p;
        p.alpha = 1.5;
        c.setOptimizerParameters(p);
    }
    V::out("ret", ret);
    c.optimize(V::vec("x0_1", d.nx), V::vec("u0_1", d.nu));
    V::out("m", (int)QP::m);
    V::out("n", (int)QP::n);
    V::out("q1", QP::q);
    V::out("l1", QP::l);
    V::out("u1", QP::u);
    if (V::param("sparse"))
    {
        V::out("Pm", (int)QP::Pm);
        V::out("Pn", (int)QP::Pn);
        V::out("Am", (int)QP::Am);
        V::out("An", (int)QP::An);
        V::out("Pnz", (int)QP::Pnz);
        V::out("Anz", (int)QP::Anz);
        V::outp("Pp", QP::Pp.data(), (int)QP::Pp.size());
        V::outp("Pi", QP::Pi.data(), (int)QP::Pi.size());
        V::outp("Px", QP::Px.data(), (int)QP::Px.size());
        V::outp("Ap", QP::Ap.data(), (int)QP::Ap.size());
        V::outp("Ai", QP::Ai.data(), (int)QP::Ai.size());
        V::outp("Ax", QP::Ax.data(), (int)QP::Ax.size());
    }
}
