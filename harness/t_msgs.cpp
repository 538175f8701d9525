// X01: Formatter, exceptions, casts
#include "table.hpp"
#include <cpp_utils/exception/DNSException.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/types/cast.hpp>
using namespace eprosima::utils;

static std::string streamed(const Formatter& f)
{
    std::ostringstream o;
    o << f;
    return o.str();
}
FN(formatter)
{
    Formatter f;
    for (auto& s : r.l(0))
    {
        f << s;
        r.S(f.to_string());
        std::string c = f;
        r.S(c);
        r.S(streamed(f));
        r.S(f.to_string());
    }
}
FN(formatter_empty)
{
    Formatter f;
    r.S(f.to_string());
    r.S(streamed(f));
}
FN(formatter_values)
{
    int n = (int)r.i(0);
    std::string t = r.s(4);
    Formatter g;
    g << t << n;
    r.S(STR_ENTRY << n << r.s(1)[0] << (r.i(2) == 1) << std::stoull(r.s(3)) << t.c_str() << g);
}
FN(formatter_apart)
{
    Formatter f, g;
    f << r.s(0);
    g << r.s(1);
    r.S(f);
    r.S(g);
}
FN(formatter_of_exception) { r.S(STR_ENTRY << r.s(0) << Exception(r.s(1)).what()); }

template <typename X>
static void run(table::Row& r)
{
    std::string m = r.s(2);
    auto make = [&]() -> X
    {
        switch (r.i(1))
        {
            case 0: return X(m.c_str());
            case 1: return X(m);
            default: return X(STR_ENTRY << m.substr(0, m.size() / 2) << m.substr(m.size() / 2));
        }
    };
    X x = make();
    r.S(x.what());
    X y(x);
    r.S(y.what());
    X z("other");
    z = x;
    r.S(z.what());
    r.S(static_cast<const std::exception&>(x).what());
    try
    {
        throw make();
    }
    catch (const std::exception& e)
    {
        r.S(e.what());
        r.I(1);
    }
#define BY(C) try { throw make(); } catch (const C&) { r.I(1); } catch (...) { r.I(0); }
    BY(Exception) BY(ConfigurationException) BY(DNSException) BY(DisabledException) BY(InconsistencyException)
    BY(InitializationException) BY(PreconditionNotMet) BY(TimeoutException) BY(UnsupportedException) BY(ValueAccessException)
    BY(ValueNotAllowedException)
}
template <typename X>
static void assigned(table::Row& r)
{
    X a(r.s(1)), b(r.s(2));
    X c(b);
    b = a;
    r.S(a.what());
    r.S(b.what());
    r.S(c.what());
    a = X(std::string("gone"));
    r.S(b.what());
}
#define EACH(F) \
    switch (r.i(0)) \
    { \
        case 1: F<Exception>(r); break; \
        case 2: F<ConfigurationException>(r); break; \
        case 3: F<DNSException>(r); break; \
        case 4: F<DisabledException>(r); break; \
        case 5: F<InconsistencyException>(r); break; \
        case 6: F<InitializationException>(r); break; \
        case 7: F<PreconditionNotMet>(r); break; \
        case 8: F<TimeoutException>(r); break; \
        case 9: F<UnsupportedException>(r); break; \
        case 10: F<ValueAccessException>(r); break; \
        case 11: F<ValueNotAllowedException>(r); break; \
    }
FN(exception) { EACH(run) }
FN(exception_assigned) { EACH(assigned) }

struct A { virtual ~A() = default; int a = 1; };
struct B : A { int b = 2; };
struct C : B { };
struct D : A { };
struct F { virtual ~F() = default; int f = 3; };
struct E : B, F { };
struct G { virtual ~G() = default; };
template <typename U>
static bool casts(const U& u, int k)
{
    switch (k)
    {
        case 1: return can_cast<A>(u);
        case 2: return can_cast<B>(u);
        case 3: return can_cast<C>(u);
        case 4: return can_cast<D>(u);
        case 5: return can_cast<E>(u);
        case 6: return can_cast<F>(u);
        default: return can_cast<G>(u);
    }
}
FN(can_cast)
{
    int d = (int)r.i(0), k = (int)r.i(1);
    A a; B b; C c; D dd; E e; F f; G g;
    switch (d)
    {
        // (what is known of it is only a base)
        case 1: r.I(casts<A>(a, k)); break;
        case 2: r.I(casts<A>(b, k)); break;
        case 3: r.I(casts<A>(c, k)); break;
        case 4: r.I(casts<A>(dd, k)); break;
        case 5: r.I(r.i(2) ? casts<A>(e, k) : casts<F>(e, k)); break;
        case 6: r.I(casts<F>(f, k)); break;
        default: r.I(casts<G>(g, k)); break;
    }
}
FN(cast_to_void_ptr)
{
    int x = 1;
    const int y = 2;
    std::string s;
    r.I(cast_to_void_ptr(&x) == &x);
    r.I(cast_to_void_ptr(&y) == const_cast<int*>(&y));
    r.I(cast_to_void_ptr(&s) == (void*)&s);
}

int main(int argc, char** argv) { return table::main_(argc, argv); }
