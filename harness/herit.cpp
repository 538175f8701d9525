// Heritable.
#include "conc.hpp"

#include <sstream>
#include <typeinfo>

#include <cpp_utils/memory/Heritable.hpp>

using namespace eprosima::utils;
using conc::Op;
using conc::Res;

static int next_id;

// (without virtual destructors: who destroys an object has to know what it is)
struct P
{
    int id;
    int v;
    P(
            int x)
        : id(++next_id)
        , v(x)
    {
    }

    P(
            const P&) = delete;
    ~P()
    {
        gone(1);
    }

    void gone(
            int ty)
    {
        if (id > 0)
        {
            conc::observe("dtor", {id, ty});
        }
        id = 0;
    }

    virtual int value() const
    {
        return v + 100;
    }

    bool operator ==(
            const P& o) const
    {
        return value() == o.value();
    }

    bool operator <(
            const P& o) const
    {
        return value() < o.value();
    }

};

std::ostream& operator <<(
        std::ostream& os,
        const P& p)
{
    return os << p.value();
}

struct A : public P
{
    using P::P;
    ~A()
    {
        gone(2);
    }

    int value() const override
    {
        return v + 200;
    }

};

struct Z
{
    int z = 77;
    virtual int zed() const
    {
        return z;
    }

};

struct B : public Z, public P
{
    using P::P;
    int pad[5];
    ~B()
    {
        gone(3);
    }

    int value() const override
    {
        return v + 300;
    }

};

struct D : public A
{
    using A::A;
    std::string text = "something long enough to be on the heap, so that it has to be released";
    ~D()
    {
        gone(4);
    }

    int value() const override
    {
        return v + 400;
    }

};

// an object of each class is moved and compared as the class of the slot
template <typename T>
struct Slot
{
    Heritable<T>* h = nullptr;
};

struct World
{
    Slot<P> p[3];
    Slot<A> a[2];
    Slot<B> b[2];

    World(
            const conc::Program&)
    {
        next_id = 0;
    }

    bool quiet(
            const Op&)
    {
        return false;
    }

    template <typename F>
    Res with(
            int i,
            F f)
    {
        return i <= 2 ? f(p[i]) : i <= 4 ? f(a[i - 3]) : f(b[i - 5]);
    }

    template <typename T>
    void put(
            Slot<T>& s,
            Heritable<T>* x)
    {
        auto old = s.h;
        s.h = x;
        delete old;
    }

    // the conversions that exist between static types; the other way only if the object is one
    template <typename T, typename U>
    Res transfer(
            const std::string& n,
            Slot<T>& from,
            Slot<U>& to)
    {
        if (!from.h->template can_cast<U>())
        {
            return Res("none");
        }
        if (n == "copy")
        {
            put(to, new Heritable<U>((const Heritable<T>&) * from.h));
        }
        else if (n == "mvc")
        {
            auto x = new Heritable<U>(std::move(*from.h));
            delete from.h;
            from.h = nullptr;
            put(to, x);
        }
        else if (n == "assign")
        {
            if (to.h)
            {
                *to.h = *from.h;
            }
            else
            {
                to.h = new Heritable<U>(*from.h);
            }
        }
        else if (n == "mva")
        {
            if (to.h)
            {
                if ((void*)to.h != (void*)from.h)
                {
                    *to.h = std::move(*from.h);
                }
            }
            else
            {
                to.h = new Heritable<U>(std::move(*from.h));
            }
            if ((void*)to.h != (void*)from.h)
            {
                delete from.h;
                from.h = nullptr;
            }
        }
        return Res();
    }

    template <typename T>
    Res transfer(
            const std::string& n,
            Slot<T>& from,
            int j)
    {
        return j <= 2 ? transfer<T, P>(n, from, p[j]) : transfer2<T>(n, from, j);
    }

    template <typename T>
    Res transfer2(
            const std::string& n,
            Slot<T>& from,
            int j);

    template <typename T, typename U>
    Res cast(
            Heritable<T>& h,
            const Op& op)
    {
        if (op.name == "can")
        {
            return Res("val", h.template can_cast<U>());
        }
        try
        {
            U& u = h.template dyn_cast<U>();
            P& q = dynamic_cast<P&>(u);
            if (op.name == "dynset")
            {
                q.v = op.arg(2);
                return Res();
            }
            return Res("val", q.id);
        }
        catch (const std::bad_cast&)
        {
            return Res("badcast");
        }
    }

    template <typename T>
    Res make(
            Slot<T>& s,
            const Op& op);

    Res exec(
            int,
            const Op& op)
    {
        const std::string& n = op.name;
        int x = op.arg(0), y = op.arg(1);
        return with(x, [&](auto& s) -> Res
                       {
                           using T = typename std::remove_reference<decltype(**s.h)>::type;
                           if (n == "new")
                           {
                               return make(s, op);
                           }
                           else if (n == "make")
                           {
                               put(s, new Heritable<T>(Heritable<T>::make_heritable(y)));
                               return Res("val", s.h->get_reference().id);
                           }
                           else if (n == "drop")
                           {
                               put<T>(s, nullptr);
                               return Res();
                           }
                           if (!s.h)
                           {
                               return Res("none");
                           }
                           Heritable<T>& h = *s.h;
                           if (n == "copy" || n == "assign" || n == "mvc" || n == "mva")
                           {
                               return transfer(n, s, y);
                           }
                           else if (n == "set")
                           {
                               (op.arg(2) == 0 ? h->v : op.arg(2) == 1 ? (*h).v : h.get_reference().v) = y;
                               return Res();
                           }
                           else if (n == "get")
                           {
                               return y == 0 ? Res("val", std::vector<int>{h->id, h->value()}) :
                               y == 1 ? Res("val", std::vector<int>{(*h).id, (*h).value()}) :
                               Res("val", std::vector<int>{h.get_reference().id, h.get_reference().value()});
                           }
                           else if (n == "can" || n == "dyn" || n == "dynset")
                           {
                               return y == 1 ? cast<T, P>(h, op) : y == 2 ? cast<T, A>(h, op) : y == 3 ? cast<T, B>(h, op) :
                               y == 4 ? cast<T, D>(h, op) : cast<T, Z>(h, op);
                           }
                           else if (n == "out")
                           {
                               std::stringstream ss;
                               ss << h;
                               int r = -1;
                               sscanf(ss.str().c_str(), "{%d}", &r);
                               return Res("val", r);
                           }
                           else if (n == "eqv" || n == "ltv")
                           {
                               T q(y % 100);
                               q.id = 0;
                               --next_id;
                               (void)q;
                               return n == "eqv" ? Res("val", h == q) : Res("val", h < q);
                           }
                           else if (n == "eq" || n == "lt")
                           {
                               Slot<T>* o = peer(s, y);
                               if (!o->h)
                               {
                                   return Res("none");
                               }
                               return n == "eq" ? Res("val", h == *o->h) : Res("val", h < *o->h);
                           }
                           return Res();
                       });
    }

    Slot<P>* peer(
            Slot<P>&,
            int j)
    {
        return &p[j];
    }

    Slot<A>* peer(
            Slot<A>&,
            int j)
    {
        return &a[j - 3];
    }

    Slot<B>* peer(
            Slot<B>&,
            int j)
    {
        return &b[j - 5];
    }

    void finish()
    {
        for (int i = 0; i < 7; i++)
        {
            Op op;
            op.name = "drop";
            op.a = {i};
            conc::event("C", 0, op.name, op.a);
            Res r = exec(0, op);
            conc::event("R", 0, r.tag, r.v);
        }
    }

};

template <>
Res World::transfer2<P>(
        const std::string& n,
        Slot<P>& from,
        int j)
{
    return j <= 4 ? transfer<P, A>(n, from, a[j - 3]) : transfer<P, B>(n, from, b[j - 5]);
}

template <>
Res World::transfer2<A>(
        const std::string& n,
        Slot<A>& from,
        int j)
{
    return j <= 4 ? transfer<A, A>(n, from, a[j - 3]) : Res("none");    // (no conversion between A and B)
}

template <>
Res World::transfer2<B>(
        const std::string& n,
        Slot<B>& from,
        int j)
{
    return j <= 4 ? Res("none") : transfer<B, B>(n, from, b[j - 5]);
}

template <>
Res World::make<P>(
        Slot<P>& s,
        const Op& op)
{
    int y = op.arg(1), v = op.arg(2);
    put(s, y == 1 ? new Heritable<P>(new P(v)) : y == 2 ? new Heritable<P>(new A(v)) : y == 3 ? new Heritable<P>(new B(v)) :
            new Heritable<P>(new D(v)));
    return Res("val", (*s.h)->id);
}

template <>
Res World::make<A>(
        Slot<A>& s,
        const Op& op)
{
    put(s, op.arg(1) == 2 ? new Heritable<A>(new A(op.arg(2))) : new Heritable<A>(new D(op.arg(2))));
    return Res("val", (*s.h)->id);
}

template <>
Res World::make<B>(
        Slot<B>& s,
        const Op& op)
{
    put(s, new Heritable<B>(new B(op.arg(2))));
    return Res("val", (*s.h)->id);
}

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
