#include <v.hpp>
#include <iomanip>
#include <sstream>
#include <mpc/Types.hpp>
#include <mpc/Logger.hpp>
void scenario()
{
    std::ostringstream a, b;
    int l1 = V::integer("l1", 0, 4), l2 = V::integer("l2", 0, 4);
    int t1 = V::integer("t1", 0, 3), t2 = V::integer("t2", 0, 3);
    mpc::Logger &L = mpc::Logger::instance();
    L.setStream(&a);
    if (V::param("level"))
        L.setLevel((mpc::Logger::log_level)l1);
    if (V::param("prefix"))
        L.setPrefix("ctl");
    if (V::param("reprefix"))
        L.setPrefix("second");
    L.log((mpc::Logger::log_type)t1) << "one " << "uno" << std::endl;
    if (V::param("retarget"))
        L.setStream(&b);
    if (V::param("relevel"))
        mpc::Logger::instance().setLevel((mpc::Logger::log_level)l2);
    if (V::param("reset"))
        L.reset();
    if (V::param("again"))
        L.setPrefix("third").setLevel((mpc::Logger::log_level)l1);
    L.log((mpc::Logger::log_type)t2) << "two";
    mpc::Logger::instance() << std::string(" due") << std::endl;
    V::out("a", a.str());
    V::out("b", b.str());
}
