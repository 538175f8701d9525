// S01: text functions of utils
#include "table.hpp"
#include <cstring>
#include <memory>
#include <unordered_map>
#include <cpp_utils/utils.hpp>
namespace eu = eprosima::utils;

FN(to_lowercase) { auto s = r.s(0); eu::to_lowercase(s); r.S(s); }
FN(to_uppercase) { auto s = r.s(0); eu::to_uppercase(s); r.S(s); }
FN(match_pattern) { r.I(eu::match_pattern(r.s(0), r.s(1))); }
FN(replace_first) { auto s = r.s(0); bool b = eu::replace_first(s, r.s(1), r.s(2)); r.I(b); r.S(s); }
FN(replace_all) { auto s = r.s(0); auto n = eu::replace_all(s, r.s(1), r.s(2)); r.I(n); r.S(s); }
static std::set<std::string> set_of(const std::vector<std::string>& v) { return {v.begin(), v.end()}; }
FN(strip_str) { auto s = r.s(0); auto n = eu::strip_str(s, r.s(1), set_of(r.l(2))); r.I(n); r.S(s); }
FN(strip_str_default) { auto s = r.s(0); auto n = eu::strip_str(s); r.I(n); r.S(s); }
FN(split_string) { r.L(eu::split_string(r.s(0), r.s(1))); }
FN(split_string_each) { r.L(eu::split_string(r.l(0), r.s(1))); }
FN(split_string_set) { r.L(eu::split_string(r.s(0), set_of(r.l(1)))); }
FN(container_to_stream)
{
    std::ostringstream o;
    eu::container_to_stream<std::string>(o, r.l(0), r.s(1));
    r.S(o.str());
}
FN(container_to_stream_default)
{
    std::ostringstream o;
    eu::container_to_stream<std::string>(o, r.l(0));
    r.S(o.str());
}
FN(container_to_stream_set)
{
    std::ostringstream o;
    eu::container_to_stream<std::string>(o, set_of(r.l(0)), r.s(1));
    r.S(o.str());
}
FN(container_to_stream_ptr)
{
    std::ostringstream o;
    std::vector<std::shared_ptr<std::string>> v;
    for (auto& x : r.l(0))
    {
        v.push_back(std::make_shared<std::string>(x));
    }
    eu::container_to_stream<std::shared_ptr<std::string>, true>(o, v, r.s(1));
    r.S(o.str());
}
FN(generic_to_string) { r.S(eu::generic_to_string(r.s(0))); }
FN(generic_to_string_int) { r.S(eu::generic_to_string((int)r.i(0))); }
template <typename M>
static void keys(table::Row& r)
{
    M m;
    for (auto& x : r.l(0))
    {
        m[x] = 3;
    }
    r.L(eu::get_keys(m));
}
FN(get_keys) { keys<std::map<std::string, int>>(r); }
FN(get_keys_unordered) { keys<std::unordered_map<std::string, int>>(r); }

static std::map<int, std::shared_ptr<int>>& world()
{
    static std::map<int, std::shared_ptr<int>> w;
    return w;
}
static std::shared_ptr<int> ptr(int id, int value)
{
    if (value < 0)
    {
        return nullptr;
    }
    auto& p = world()[id];
    if (!p)
    {
        p = std::make_shared<int>();
    }
    *p = value;
    return p;
}
static std::set<std::shared_ptr<int>> ptrs(const std::string& csv)
{
    // "id value id value"
    std::set<std::shared_ptr<int>> s;
    for (size_t k = 0; k + 1 < csv.size(); k += 2)
    {
        s.insert(ptr((unsigned char)csv[k], (signed char)csv[k + 1]));
    }
    return s;
}
FN(set_of_ptr_contains)
{
    world().clear();
    auto s = ptrs(r.s(3));
    r.I(eu::set_of_ptr_contains<int>(s, ptr((int)r.i(1), (int)r.i(2))));
}
FN(are_set_of_ptr_equal)
{
    world().clear();
    auto a = ptrs(r.s(2)), b = ptrs(r.s(3));
    r.I(eu::are_set_of_ptr_equal<int>(a, b));
}
struct Base
{
    virtual ~Base() = default;
    virtual std::string name() const = 0;
};
struct Derived : Base
{
    Derived(const std::string& s) : s(s) { }
    std::string name() const override { return s; }
    bool operator <(const Derived& o) const { return s < o.s; }
    std::string s;
};
FN(convert_set_to_shared)
{
    std::set<Derived> s;
    for (auto& x : r.l(0))
    {
        s.insert(Derived(x));
    }
    auto p = eu::convert_set_to_shared<Base, Derived>(s);
    std::multiset<std::string> names;
    for (auto& x : p)
    {
        names.insert(x->name());
    }
    r.L(names);
}
FN(copy_to_void_ptr)
{
    std::string s = r.s(0);
    void* p = eu::copy_to_void_ptr(s.data(), s.size());
    std::string t((const char*)p, s.size());
    std::fill(s.begin(), s.end(), 'x');
    r.S(t);
    std::free(p);
}
FN(file_access_mode)
{
    auto a = (eu::FileAccessMode)r.i(0), b = (eu::FileAccessMode)r.i(1);
    r.I((int)eu::operator |(a, b));
    r.I((int)eu::operator &(a, b));
}
FN(file_access_names)
{
    using M = eu::FileAccessMode;
    for (auto m : {M::exist, M::read, M::write, M::exec, M::read_write, M::read_exec, M::read_write_exec, M::write_exec})
    {
        r.I((int)m);
    }
}

int main(int argc, char** argv) { return table::main_(argc, argv); }
