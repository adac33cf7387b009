// The logger as the controllers use and configure it.
#include <sstream>
#include <nl.hpp>
void scenario()
{
    Dims d;
    std::ostringstream a, b;
    int l1 = V::integer("l1", 0, 4), l2 = V::integer("l2", 0, 4), t1 = V::integer("t1", 0, 3);
    mpc::Logger &L = mpc::Logger::instance();
    L.setStream(&a);
    L.setLevel((mpc::Logger::log_level)l1);
    MAKE_CTL(c);
    c.setStateBounds(V::vec("xmin", d.nx), V::vec("xmax", d.nx), mpc::HorizonSlice{2, 1}); // refused, which is reported as an error
    V::out("refused", (int)a.str().size());
    V::out("refusedPrefix", a.str().find("[MPC++] ") != std::string::npos);
    a.str("");
    c.optimize(V::vec("x1", d.nx), V::vec("u1", d.nu)); // reported as information
    V::out("step", (int)a.str().size());
    c.setLoggerPrefix("ctl");
    L.setStream(&b);
    a.str("");
    L.log((mpc::Logger::log_type)t1) << "probe " << 7 << std::endl;
    V::out("b1", b.str());
    b.str("");
    c.setLoggerLevel((mpc::Logger::log_level)l2);
    c.setStateBounds(V::vec("xmin", d.nx), V::vec("xmax", d.nx), mpc::HorizonSlice{2, 1});
    V::out("refused2", (int)b.str().size());
    b.str("");
    c.optimize(V::vec("x1", d.nx), V::vec("u1", d.nu));
    V::out("step2", (int)b.str().size());
    b.str("");
    L.log((mpc::Logger::log_type)t1) << "again " << 0.5 << std::endl;
    V::out("b2", b.str());
    V::out("a2", a.str());
}
