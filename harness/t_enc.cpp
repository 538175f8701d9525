// S02: encodings of utils
#include "table.hpp"
#include <cpp_utils/utils.hpp>
namespace eu = eprosima::utils;

FN(base64_encode) { r.S(eu::base64_encode(r.s(0))); }
FN(base64_decode) { r.S(eu::base64_decode(r.s(0))); }
FN(base64_both) { r.S(eu::base64_decode(eu::base64_encode(r.s(0)))); }
FN(base64_alphabet) { r.S(eu::base64_alphabet); }
FN(to_bytes) { r.D(eu::to_bytes(r.s(0))); }
FN(from_bytes) { r.S(eu::from_bytes(r.u(0))); }
FN(number_format)
{
    int v = (int)((r.i(0) ? -1ll : 1ll) * std::stoll(r.s(1)));
    r.S(eu::number_trailing_zeros_format(v, (unsigned)r.i(2), r.i(3) != 0));
}

int main(int argc, char** argv) { return table::main_(argc, argv); }
