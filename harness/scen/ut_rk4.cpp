#include <v.hpp>
#include <mpc/Types.hpp>
#include <mpc/Integrator.hpp>
template <unsigned int N> void go()
{
    int n = V::dim("n", 0);
    double t = V::real("t"), h = V::real("h");
    mpc::cvec<N> x0 = V::vec("x", N);
    mpc::RK4<N> rk([](double t, const mpc::cvec<N> &x) {
        mpc::cvec<N> o;
        V::appv("f", o, t, x);
        return o;
    });
    mpc::cvec<N> one = rk.run(t, x0, h);
    mpc::cvec<N> many = rk.run(t, x0, h, n);
    if (V::param("again"))
    {
        mpc::cvec<N> two = rk.run(V::real("t2"), V::vec("x2", N), V::real("h2"));
        V::out("two", two);
    }
    V::out("one", one);
    V::out("many", many);
    V::out("x0", x0);
}
void scenario()
{
    int N = V::param("N");
    if (N == 1)
        go<1>();
    else if (N == 2)
        go<2>();
    else
        go<3>();
}
