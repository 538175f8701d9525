// OwnerPtr, LesseePtr, GuardedPtr.
#include "conc.hpp"

#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/memory/owner_ptr.hpp>

using namespace eprosima::utils;
using conc::Op;
using conc::Res;

struct Data
{
    int d;
    bool quiet = false;
    int pad[10];
    Data(
            int x)
        : d(x)
    {
    }

    ~Data()
    {
        if (!quiet)
        {
            conc::observe("del", {d, 0});
            vs::point();
        }
        d = -1;
    }

    int use()
    {
        conc::observe("use", {d});
        vs::point();
        int x = d;
        conc::observe("used", {x});
        return x;
    }

};

struct World
{
    OwnerPtr<Data>* o[5] = {};
    LesseePtr<Data>* l[5] = {};
    GuardedPtr<Data>* g[5] = {};
    std::atomic<bool> flag[8] = {};

    World(
            const conc::Program&)
    {
        vs::NoTrace nt;
        for (int i = 0; i < 5; i++)
        {
            o[i] = new OwnerPtr<Data>();
            l[i] = new LesseePtr<Data>();
        }
    }

    bool quiet(
            const Op& op)
    {
        return op.name == "flag" || op.name == "await";
    }

    void await(
            int i)
    {
        std::atomic<bool>* f = &flag[i];
        vs::block_until([f]()
                {
                    vs::NoTrace nt;
                    return f->load();
                });
        f->load();
    }

    void unlock(
            int i)
    {
        delete g[i];
        g[i] = nullptr;
    }

    static std::function<void(Data*)> deleter()
    {
        return [](Data* d)
               {
                   d->quiet = true;
                   conc::observe("del", {d->d, 1});
                   vs::point();
                   delete d;
               };
    }

    // the value that a guard or an owner refers to, through the access that is asked for
    template <typename P>
    static Res value(
            P& p,
            int how)
    {
        if (how == 3 ? p == nullptr : how == 4 ? nullptr == p : how == 0 ? !p : p.get() == nullptr)
        {
            return Res("null");
        }
        return Res("val", how == 0 ? p->d : how == 1 ? (*p).d : p.get()->d);
    }

    Res exec(
            int,
            const Op& op)
    {
        const std::string& n = op.name;
        int a = op.arg(0), b = op.arg(1);
        if (n == "mk")
        {
            if (op.arg(2))
            {
                o[a]->reset(new Data(b), deleter());
            }
            else
            {
                o[a]->reset(new Data(b));
            }
        }
        else if (n == "mkc")
        {
            delete o[a];
            o[a] = op.arg(2) ? new OwnerPtr<Data>(new Data(b), deleter()) : new OwnerPtr<Data>(new Data(b));
        }
        else if (n == "mknull")
        {
            try
            {
                o[a]->reset(nullptr);
            }
            catch (const InitializationException&)
            {
                return Res("rejected");
            }
        }
        else if (n == "mkcnull")
        {
            o[a]->reset();
            try
            {
                OwnerPtr<Data> x(nullptr);
            }
            catch (const InitializationException&)
            {
                return Res("rejected");
            }
        }
        else if (n == "reset")
        {
            o[a]->reset();
        }
        else if (n == "odel")
        {
            delete o[a];
            vs::NoTrace nt;
            o[a] = new OwnerPtr<Data>();
        }
        else if (n == "omove")
        {
            *o[a] = std::move(*o[b]);
        }
        else if (n == "omovec")
        {
            auto x = new OwnerPtr<Data>(std::move(*o[b]));      // (slot a is empty)
            delete o[a];
            o[a] = x;
        }
        else if (n == "lease")
        {
            *l[b] = o[a]->lease();
        }
        else if (n == "leasec")
        {
            delete l[b];
            l[b] = new LesseePtr<Data>(*o[a]);
        }
        else if (n == "lcopy")
        {
            *l[b] = *l[a];
        }
        else if (n == "lmove")
        {
            *l[b] = std::move(*l[a]);
        }
        else if (n == "ldel")
        {
            delete l[a];
            vs::NoTrace nt;
            l[a] = new LesseePtr<Data>();
        }
        else if (n == "lock")
        {
            auto x = new GuardedPtr<Data>(l[a]->lock());
            bool r = (bool)*x;
            unlock(b);
            g[b] = x;
            return Res("val", r ? 1 : 0);
        }
        else if (n == "relock")
        {
            if (!g[b])
            {
                g[b] = new GuardedPtr<Data>(LesseePtr<Data>().lock());
            }
            *g[b] = l[a]->lock();
            return Res("val", *g[b] ? 1 : 0);
        }
        else if (n == "lwe")
        {
            try
            {
                auto x = new GuardedPtr<Data>(l[a]->lock_with_exception());
                unlock(b);
                g[b] = x;
                return Res("val", 1);
            }
            catch (const ValueAccessException&)
            {
                return Res("noaccess");
            }
        }
        else if (n == "arrow" || n == "star")
        {
            try
            {
                return Res("val", n == "arrow" ? (*l[a])->use() : (**l[a]).use());
            }
            catch (const ValueAccessException&)
            {
                return Res("noaccess");
            }
        }
        else if (n == "get")
        {
            return g[a] ? value(*g[a], b) : Res("null");
        }
        else if (n == "oget")
        {
            return value(*o[a], b);
        }
        else if (n == "unlock")
        {
            unlock(a);
        }
        else if (n == "gmove")
        {
            for (int i : {a, b})
            {
                if (!g[i])
                {
                    g[i] = new GuardedPtr<Data>(LesseePtr<Data>().lock());
                }
            }
            *g[b] = std::move(*g[a]);
        }
        else if (n == "gmovec")
        {
            auto x = g[a] ? new GuardedPtr<Data>(std::move(*g[a])) : nullptr;
            unlock(b);
            g[b] = x;
        }
        else if (n == "lbool")
        {
            return Res("val", *l[a] ? 1 : 0);
        }
        else if (n == "obool")
        {
            return Res("val", *o[a] ? 1 : 0);
        }
        else if (n == "flag")
        {
            flag[op.arg(0)].store(true);
        }
        else if (n == "await")
        {
            await(op.arg(0));
        }
        return Res();
    }

    void run(
            const char* line)
    {
        for (auto& op : conc::parse_ops(line))
        {
            conc::event("C", 0, op.name, op.a);
            Res r = exec(0, op);
            conc::event("R", 0, r.tag, r.v);
        }
    }

    void finish()
    {
        run("get:1 get:2 get:3 unlock:1 unlock:2 unlock:3 odel:1 odel:2 odel:3 lbool:1 lbool:2 lock:1:1 lock:3:2 arrow:2");
        for (int i = 0; i < 5; i++)
        {
            delete g[i];
            delete o[i];
            delete l[i];
        }
    }

};

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
