#include <v.hpp>
#include <mpc/Types.hpp>
#include <mpc/Dim.hpp>
// dimension arithmetic: every operator, operands known at compile time (>= 0) or at run time (-1)
constexpr mpc::Size K5(5), K3(3), KD(Eigen::Dynamic);
void scenario()
{
    int a = V::integer("a", -1, 30000), b = V::integer("b", -1, 30000);
    mpc::Size A(a), B(b), C(A);
    V::out("val", (int)A);
    V::out("copy", (int)C);
    V::out("ss+", (int)(A + B));
    V::out("si+", (int)(A + b));
    V::out("is+", (int)(a + B));
    V::out("ss*", (int)(A * B));
    V::out("si*", (int)(A * b));
    V::out("is*", (int)(a * B));
    // differences of static sizes are only meaningful when not negative
    int hi = V::integer("hi", -1, 30000), lo = V::integer("lo", -1, 30000);
    V::assume(hi == -1 || lo == -1 || hi >= lo);
    mpc::Size H(hi), L(lo);
    V::out("ss-", (int)(H - L));
    V::out("si-", (int)(H - lo));
    V::out("is-", (int)(hi - L));
    V::out("chain", (int)((A + B) * (A + 1)));
    mpc::MPCSize m(a, b, hi, lo, 1, 2, 3, 4);
    V::out("m0", (int)m.nx);
    V::out("m1", (int)m.nu);
    V::out("m2", (int)m.ndu);
    V::out("m3", (int)m.ny);
    V::out("m4", (int)m.ph);
    V::out("m5", (int)m.ch);
    V::out("m6", (int)m.ineq);
    V::out("m7", (int)m.eq);
    // the same arithmetic in a template argument
    Eigen::Matrix<double, (int)(K5 * K3 + K3), (int)(K5 - K3)> M;
    V::out("trows", (int)M.RowsAtCompileTime);
    V::out("tcols", (int)M.ColsAtCompileTime);
    constexpr int dyn = K5 * KD;
    constexpr int dyn2 = KD + 2;
    V::out("tdyn", dyn);
    V::out("tdyn2", dyn2);
}
