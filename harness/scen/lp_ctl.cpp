// The quadratic program that reaches the QP solver through the linear controller (whole-horizon configuration).
#include <lp.hpp>
static void limits(LCTL &c, const LDims &d, bool other)
{
    c.setStateBounds(V::matrix(other ? "oxmin" : "xmin", d.nx, d.ph), V::matrix(other ? "oxmax" : "xmax", d.nx, d.ph));
    c.setInputBounds(V::matrix(other ? "oumin" : "umin", d.nu, d.ch), V::matrix(other ? "oumax" : "umax", d.nu, d.ch));
    c.setOutputBounds(V::matrix(other ? "oymin" : "ymin", d.ny, d.ph), V::matrix(other ? "oymax" : "ymax", d.ny, d.ph));
}
static void rest(LCTL &c, const LDims &d, bool other)
{
    if (V::param("s"))
        c.setScalarConstraint(V::real(other ? "osmin" : "smin"), V::real(other ? "osmax" : "smax"), V::vec(other ? "osX" : "sX", d.nx), V::vec(other ? "osU" : "sU", d.nu), mpc::HorizonSlice::all());
    if (V::param("b"))
        limits(c, d, other);
    if (V::param("w"))
        c.setObjectiveWeights(V::matrix(other ? "owY" : "wY", d.ny, d.ph), V::matrix(other ? "owU" : "wU", d.nu, d.ph), V::matrix(other ? "owD" : "wD", d.nu, d.ph));
    c.setReferences(V::matrix(other ? "yref0" : "yref1", d.ny, d.ph), V::matrix(other ? "uref0" : "uref1", d.nu, d.ph), V::matrix(other ? "dref0" : "dref1", d.nu, d.ph));
    if (V::param("dist"))
    {
        c.setDisturbances(V::matrix(other ? "Bd0" : "Bd1", d.nx, d.ndu), V::matrix(other ? "Dd0" : "Dd1", d.ny, d.ndu));
        c.setExogenousInputs(V::matrix(other ? "dist0" : "dist1", d.ndu, d.ph));
    }
}
static void model(LCTL &c, const LDims &d, int k)
{
    c.setStateSpaceModel(V::matrix(V::nm("A", k), d.nx, d.nx), V::matrix(V::nm("B", k), d.nx, d.nu), V::matrix(V::nm("C", k), d.ny, d.nx));
}
void scenario()
{
    LDims d;
#ifdef VS_NX
    LCTL c;
#else
    LCTL c(d.nx, d.nu, d.ndu, d.ny, d.ph, d.ch);
#endif
    if (V::param("first"))
    {
        // a complete configuration that was used and is replaced
        model(c, d, 0);
        rest(c, d, true);
        c.optimize(V::vec("x0_0", d.nx), V::vec("u0_0", d.nu));
    }
    if (V::param("early"))
    {
        rest(c, d, false);
        model(c, d, 1);
    }
    else
    {
        model(c, d, 1);
        rest(c, d, false);
    }
    if (V::param("again"))
        c.optimize(V::vec("x0_9", d.nx), V::vec("u0_9", d.nu));
    c.optimize(V::vec("x0_1", d.nx), V::vec("u0_1", d.nu));
    V::out("m", (int)QP::m);
    V::out("n", (int)QP::n);
    V::out("q1", QP::q);
    V::out("l1", QP::l);
    V::out("u1", QP::u);
    if (V::param("dense"))
    {
        V::check((int)QP::Pn == (int)QP::n && (int)QP::An == (int)QP::n && (int)QP::Am == (int)QP::m, "sizes of the sparse matrices");
        Eigen::MatrixXd P, A;
        P.resize((int)QP::n, (int)QP::n);
        A.resize((int)QP::m, (int)QP::n);
        P.setZero();
        A.setZero();
        for (int j = 0; j < (int)QP::n; j++)
        {
            for (int k = (int)QP::Pp[j]; k < (int)QP::Pp[j + 1]; k++)
            {
                P((int)QP::Pi[k], j) = QP::Px[k];
                P(j, (int)QP::Pi[k]) = QP::Px[k];
            }
            for (int k = (int)QP::Ap[j]; k < (int)QP::Ap[j + 1]; k++)
                A((int)QP::Ai[k], j) = QP::Ax[k];
        }
        V::out("P1", P);
        V::out("Ac1", A);
    }
}
