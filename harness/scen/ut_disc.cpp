#include <v.hpp>
#include <mpc/Types.hpp>
#include <mpc/Utils.hpp>
template <int nx, int nu> void plain()
{
    mpc::mat<nx, nx> A = V::matrix("A", nx, nx), Ad;
    mpc::mat<nx, nu> B = V::matrix("B", nx, nu), Bd;
    double Ts = V::preal("Ts");
    mpc::discretization<nx, nu>(A, B, Ts, Ad, Bd);
    V::out("Ad", Ad);
    V::out("Bd", Bd);
}
template <int nx, int nu, int nud> void dist()
{
    mpc::mat<nx, nx> A = V::matrix("A", nx, nx), Ad;
    mpc::mat<nx, nu> B = V::matrix("B", nx, nu), Bd;
    mpc::mat<nx, nud> Be = V::matrix("Be", nx, nud), Bed;
    double Ts = V::preal("Ts");
    mpc::discretization<nx, nu, nud>(A, B, Be, Ts, Ad, Bd, Bed);
    V::out("Ad", Ad);
    V::out("Bd", Bd);
    V::out("Bed", Bed);
}
template <int nx, int nu, int ny> void outp()
{
    mpc::mat<nx, nx> A = V::matrix("A", nx, nx), Ad;
    mpc::mat<nx, nu> B = V::matrix("B", nx, nu), Bd;
    mpc::mat<ny, nx> C = V::matrix("C", ny, nx), Cd;
    mpc::mat<ny, nu> D = V::matrix("D", ny, nu), Dd;
    double Ts = V::preal("Ts");
    mpc::discretization<nx, nu, ny>(A, B, C, D, Ts, Ad, Bd, Cd, Dd);
    V::out("Ad", Ad);
    V::out("Bd", Bd);
    V::out("Cd", Cd);
    V::out("Dd", Dd);
}
#ifdef V_GENERIC_SIZES
void scenario()
{
    int kind = V::param("kind");
    V::dim("nx", 1);
    V::dim("nu", 1);
    V::dim("ne", 1);
    if (kind == 0)
        plain<V_NX, V_NU>();
    else if (kind == 1)
        dist<V_NX, V_NU, V_NE>();
    else
        outp<V_NX, V_NU, V_NE>();
}
#else
#define SIZES(X) X(1, 1, 1) X(1, 2, 3) X(2, 1, 1) X(2, 2, 1) X(2, 1, 3) X(3, 1, 2) X(3, 2, 2) X(3, 3, 1) X(4, 2, 3) X(5, 2, 1) X(3, 1, 3) X(2, 3, 2) X(4, 4, 4)
void scenario()
{
    int kind = V::param("kind"), nx = V::param("nx"), nu = V::param("nu"), ne = V::param("ne");
#define ONE(a, b, c)                            \
    if (nx == a && nu == b && ne == c)          \
    {                                           \
        if (kind == 0)                          \
            plain<a, b>();                      \
        else if (kind == 1)                     \
            dist<a, b, c>();                    \
        else                                    \
            outp<a, b, c>();                    \
    }
    SIZES(ONE)
}
#endif
