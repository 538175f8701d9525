// N01: math_extension
#include "table.hpp"
#include <cpp_utils/math/math_extension.hpp>
namespace eu = eprosima::utils;

FN(is_even) { r.D(eu::is_even((unsigned)r.u(0))); }
FN(is_power_of_2) { r.D(eu::is_power_of_2((unsigned)r.u(0))); }
FN(fast_module) { r.D(eu::fast_module((unsigned)r.u(0), (unsigned)r.u(1))); }
FN(fast_division) { r.D(eu::fast_division((unsigned)r.u(0), (unsigned)r.u(1))); }
FN(arithmetic_progression_sum)
{
    r.D(eu::arithmetic_progression_sum((unsigned)r.u(0), (unsigned)r.u(1), (unsigned)r.u(2)));
}
FN(fast_exponential) { r.D(eu::fast_exponential((unsigned)r.u(0), (unsigned)r.u(1))); }

int main(int argc, char** argv) { return table::main_(argc, argv); }
