// The map between decision vectors and trajectories, used directly.
#include <nl.hpp>
#ifdef VS_NX
#define NSIZE mpc::MPCSize(VS_NX, VS_NU, 0, VS_NY, VS_PH, VS_CH, VS_INEQ, VS_EQ)
#define INIT_MAP(m) m.initialize()
#else
#define NSIZE mpc::MPCSize(-1, -1, 0, -1, -1, -1, -1, -1)
#define INIT_MAP(m) m.initialize(d.nx, d.nu, 0, d.ny, d.ph, d.ch, d.ineq, d.eq)
#endif
typedef mpc::Mapping<NSIZE> MAP;
void scenario()
{
    Dims d;
    MAP m;
    INIT_MAP(m);
    if (V::param("hist") == 1)
    {
        m.setStateScaling(V::pvec("sx0", d.nx));
        m.setInputScaling(V::pvec("su0", d.nu));
    }
    if (V::param("scaled"))
    {
        m.setStateScaling(V::pvec("sx", d.nx));
        m.setInputScaling(V::pvec("su", d.nu));
    }
    V::out("Iz2u", m.Iz2u());
    V::out("Iu2z", m.Iu2z());
    V::out("Sz2u", m.Sz2u());
    V::out("Su2z", m.Su2z());
    V::out("ssx", m.StateScaling());
    V::out("isx", m.StateInverseScaling());
    V::out("ssu", m.InputScaling());
    mpc::mat<TPH1, TNX> X(d.ph + 1, d.nx);
    mpc::mat<TPH1, TNU> U(d.ph + 1, d.nu);
    double e = 7;
    for (int k = 1; k <= (V::param("hist") == 1 ? 2 : 1); k++)
        m.unwrapVector(V::vec(V::nm("z", k), d.n), V::vec(V::nm("x", k), d.nx), X, U, e);
    V::out("X", X);
    V::out("U", U);
    V::out("e", e);
}
