// R01: return codes and QoS policies
#include "table.hpp"
#include <cpp_utils/ReturnCode.hpp>
#include <cpp_utils/qos/qos_utils.hpp>
namespace eu = eprosima::utils;
namespace fd = eprosima::fastdds::dds;
using RC = eu::ReturnCode;

static RC make(int v)
{
    switch (v)
    {
        case 0: return RC(RC::RETCODE_OK);
        case 1: return RC(RC::RETCODE_ERROR);
        case 2: return RC(RC::RETCODE_UNKNOWN);
        case 3: return RC(RC::RETCODE_NO_DATA);
        case 4: return RC(RC::RETCODE_NOT_ENABLED);
        default: return RC(RC::RETCODE_PRECONDITION_NOT_MET);
    }
}
FN(from_dds) { r.I(RC((fd::ReturnCode_t)r.i(0))()); }
FN(code_default) { r.I(RC()()); }
FN(code)
{
    RC c = make((int)r.i(0));
    std::ostringstream o;
    o << c;
    r.I(c());
    r.I(!c);
    r.S(o.str());
}
FN(compare)
{
    RC a = make((int)r.i(0)), b = make((int)r.i(1));
    auto v = (RC::ReturnCodeValue)b();
    r.I(a == b);
    r.I(a != b);
    r.I(a < b);
    r.I(a == v);
    r.I(a != v);
    r.I(v == a);
    r.I(v != a);
}
FN(copied)
{
    RC a = make((int)r.i(0)), b = make((int)r.i(1));
    RC c(a);
    a = b;
    r.I(a());
    r.I(c());
}
FN(values)
{
    for (auto v : {RC::RETCODE_OK, RC::RETCODE_ERROR, RC::RETCODE_UNKNOWN, RC::RETCODE_NO_DATA, RC::RETCODE_NOT_ENABLED,
                   RC::RETCODE_PRECONDITION_NOT_MET})
    {
        r.I((int)v);
    }
}
FN(policy)
{
    volatile uint32_t p = (uint32_t)r.u(0);
    r.S(eu::qos_policy_id_to_string((fd::QosPolicyId_t)p));
}
FN(mask)
{
    fd::PolicyMask m;
    for (unsigned char c : r.s(1))
    {
        m.set(c);
    }
    r.S(eu::qos_policy_mask_to_string(m));
}

int main(int argc, char** argv) { return table::main_(argc, argv); }
