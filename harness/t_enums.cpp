// Y03: enumerations made by the macro and by the script, builders, and the macros below
#include "table.hpp"
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/enum/EnumBuilder.hpp>
#include <cpp_utils/macros/custom_enumeration.hpp>
namespace eu = eprosima::utils;

struct Ops
{
    std::function<std::string(int)> to_string, print;
    std::function<int(const std::string&)> from;
    std::function<bool(const std::string&, int&)> attempt;
    std::function<unsigned()> count;
    std::function<std::vector<std::string>()> names, vec;
    std::function<std::vector<int>()> values, enumerators;
};
static std::map<std::string, Ops>& ops()
{
    static std::map<std::string, Ops> m;
    return m;
}
struct Reg
{
    Reg(std::string n, std::function<void(Ops&)> f) { f(ops()[n]); }
};
#define ENUM_COMMON(ns, E, ...)                                                                       \
    o.to_string = [](int i) { return std::string(to_string((ns::E)i)); };                             \
    o.print = [](int i) { std::ostringstream s; s << (ns::E)i; return s.str(); };                     \
    o.from = [](const std::string& s) { return (int)ns::from_string_ ## E(s); };                      \
    o.count = []() { return (unsigned)ns::N_VALUES_ ## E; };                                          \
    o.names = []() { return std::vector<std::string>(ns::NAMES_ ## E.begin(), ns::NAMES_ ## E.end()); }; \
    o.vec = []() { return ns::string_vector_ ## E(); };                                               \
    o.enumerators = []() { std::vector<int> r; for (ns::E e : {__VA_ARGS__}) { r.push_back((int)e); } return r; };
#define ENUM_BY_SCRIPT(ns, E, L) static Reg reg_ ## E(#E, [](Ops& o) { ENUM_COMMON(ns, E, L) });
#define ENUM_BY_MACRO(ns, E, L) static Reg reg_ ## E(#E, [](Ops& o) { ENUM_COMMON(ns, E, L)           \
    o.attempt = [](const std::string& s, int& v) { ns::E e = (ns::E)0; bool b = ns::string_to_enumeration(s, e); v = (int)e; return b; }; \
    o.values = []() { std::vector<int> r; for (ns::E e : ns::VALUES_ ## E) { r.push_back((int)e); } return r; }; });

#include <gen_enums.hpp>

static Ops& of(table::Row& r, size_t n) { return ops().at(r.s(n)); }
FN(to_string) { r.S(of(r, 2).to_string((int)r.i(1))); }
FN(print) { r.S(of(r, 2).print((int)r.i(1))); }
FN(from_string) { r.I(of(r, 2).from(r.s(1))); }
FN(try_string)
{
    int v = 0;
    bool b = of(r, 2).attempt(r.s(1), v);
    r.I(b);
    r.I(v);
}
FN(count) { r.I(of(r, 1).count()); }
FN(names) { r.L(of(r, 1).names()); }
FN(vector) { r.L(of(r, 1).vec()); }
FN(values) { for (int v : of(r, 1).values()) { r.I(v); } }
FN(enumerators) { for (int v : of(r, 1).enumerators()) { r.I(v); } }
FN(count_arguments) { r.I(count_of((int)r.i(0))); }
FN(for_each) { r.L(each_of((int)r.i(1))); }
FN(max_min)
{
    int a = (int)r.i(0), b = (int)r.i(1);
    r.I(MAX(a, b));
    r.I(MIN(a, b));
    r.I(MAX(a, b) + 1);
    r.I(1 + MIN(a, b));
    r.I(2 * MAX(a, b));
    r.I(MIN(a, b) * 2);
    r.I(MAX(a, b) == a);
    r.I(a == MIN(a, b));
    // (arguments that are not plain)
    r.I(MAX(a ? a : 0, b ? b : 0));
    r.I(MIN(a, a < b ? a : b));
}

enum class V { zero, one, two, three };
using EB = eu::EnumBuilder<V>;
using KV = std::map<std::string, V>;
using VK = std::map<V, std::set<std::string>>;
eProsima_ENUMERATION_BUILDER(FixedBuilder, V,
        { { V::zero COMMA { "v1" COMMA "one" COMMA "1" } } COMMA
          { V::one COMMA { "v2" COMMA "andtheend" } } COMMA
          { V::two COMMA { "3" } } });

static std::shared_ptr<EB> make(table::Row& r)
{
    auto ks = r.l(0);
    KV kv;
    VK vk;
    std::istringstream in(r.s(4));
    for (auto& k : ks)
    {
        int v;
        char c;
        in >> v >> c;
        kv[k] = (V)v;
        vk[(V)v].insert(k);
    }
    auto other = std::make_shared<EB>(VK{{V::three, {"a", "zz", ""}}});
    switch (r.i(3))
    {
        case 0: return std::make_shared<EB>(kv);
        case 1: return std::make_shared<EB>(vk);
        case 2: other->refactor_values(kv); return other;
        case 3: other->refactor_values(vk); return other;
        case 4: { EB b(kv); return std::make_shared<EB>(b); }
        case 5: { EB b(vk); *other = b; return other; }
        default: return FixedBuilder::get_shared_instance();
    }
}
FN(builder)
{
    auto b = make(r);
    std::string k = r.s(2);
    V v = V::three, w = V::three;
    bool found = b->find(k, v);
    bool enumed = b->string_to_enumeration(k, w);
    r.I(found);
    if (!found)
    {
        r.I(enumed);
        return;
    }
    if (!enumed || v != w)
    {
        r.I(99);
    }
    r.I((int)v);
    r.I((int)b->find(k));
}
FN(find)
{
    auto b = make(r);
    r.I((int)b->string_to_enumeration(r.s(2)));
}

int main(int argc, char** argv) { return table::main_(argc, argv); }
