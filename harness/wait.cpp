// Wait handlers of cpp_utils (Boolean, Int, generic, Counter).
#include "conc.hpp"

#include <cpp_utils/wait/BooleanWaitHandler.hpp>
#include <cpp_utils/wait/CounterWaitHandler.hpp>
#include <cpp_utils/wait/IntWaitHandler.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using conc::Op;
using conc::Res;

static bool pred(
        int rel,
        int x,
        int v)
{
    switch (rel)
    {
        case 1: return v == x;
        case 2: return v > x;
        case 3: return v >= x;
        case 4: return v < x;
        case 5: return v <= x;
        default: return v % 2 == x;
    }
}

struct World
{
    BooleanWaitHandler* b = nullptr;
    IntWaitHandler* i = nullptr;
    WaitHandler<int>* g = nullptr;
    CounterWaitHandler* c = nullptr;
    bool deleted = false;
    bool exact = false;         // time only passes when nobody can run: a wait never returns after its deadline

    World(
            const conc::Program& p)
    {
        conc::inside_seen() = true;
        // init: value enabled [threshold]
        int v = p.init[0];
        bool en = p.init[1];
        if (p.kind == "bool")
        {
            b = new BooleanWaitHandler(v, en);
        }
        else if (p.kind == "int")
        {
            i = new IntWaitHandler(v, en);
        }
        else if (p.kind == "gen")
        {
            g = new WaitHandler<int>(v, en);
        }
        else
        {
            c = new CounterWaitHandler(p.init[2], v, en);
        }
        exact = p.init.size() > 3 && p.init[3];
    }

    bool quiet(
            const Op&)
    {
        return false;
    }

    Res awake(
            AwakeReason r,
            int to,
            int64_t t0)
    {
        if (exact && to > 0 && vs::now_ns() - t0 > (int64_t)to * 1000000)
        {
            return Res("late");
        }
        switch (r)
        {
            case AwakeReason::disabled:
                return Res("disabled");
            case AwakeReason::condition_met:
                return Res("met");
            case AwakeReason::timeout:
                return Res(to > 0 && vs::now_ns() - t0 >= (int64_t)to * 1000000 ? "timeout" : "early");
        }
        return Res("garbage");
    }

    template <typename H>
    bool status(
            H& h,
            const std::string& n,
            Res& r)
    {
        if (n == "en")
        {
            h.enable();
        }
        else if (n == "dis")
        {
            h.disable();
        }
        else if (n == "bdis")
        {
            h.blocking_disable();
        }
        else if (n == "sac")
        {
            h.stop_and_continue();
        }
        else if (n == "isen")
        {
            r = Res("val", h.enabled() ? 1 : 0);
        }
        else
        {
            return false;
        }
        return true;
    }

    Res exec(
            int,
            const Op& op)
    {
        const std::string& n = op.name;
        Res r;
        int64_t t0 = vs::now_ns();
        if (n == "del")
        {
            deleted = true;
            delete b;
            delete i;
            delete g;
            delete c;
            return r;
        }
        if (b)
        {
            if (status(*b, n, r))
            {
                return r;
            }
            if (n == "wait")
            {
                return awake(b->wait(op.arg(2)), op.arg(2), t0);
            }
            if (n == "open")
            {
                b->open();
            }
            else if (n == "close")
            {
                b->close();
            }
            else if (n == "get")
            {
                return Res("val", b->is_open() ? 1 : 0);
            }
            return r;
        }
        if (i)
        {
            if (status(*i, n, r))
            {
                return r;
            }
            if (n == "wait")
            {
                int x = op.arg(1), to = op.arg(2);
                switch (op.arg(0))
                {
                    case 1: return awake(i->wait_equal(x, to), to, t0);
                    case 2: return awake(i->wait_greater_than(x, to), to, t0);
                    case 3: return awake(i->wait_greater_equal_than(x, to), to, t0);
                    case 4: return awake(i->wait_lower_than(x, to), to, t0);
                    default: return awake(i->wait_lower_equal_than(x, to), to, t0);
                }
            }
            if (n == "inc")
            {
                ++*i;
            }
            else if (n == "dec")
            {
                --*i;
            }
            else if (n == "set")
            {
                i->set_value(op.arg(0), op.arg(1));
            }
            else if (n == "get")
            {
                return Res("val", i->get_value());
            }
            return r;
        }
        if (g)
        {
            if (status(*g, n, r))
            {
                return r;
            }
            if (n == "wait")
            {
                int rel = op.arg(0), x = op.arg(1), to = op.arg(2);
                return awake(g->wait([rel, x](const int& v)
                               {
                                   return pred(rel, x, v);
                               }, to), to, t0);
            }
            if (n == "set")
            {
                g->set_value(op.arg(0), op.arg(1));
            }
            else if (n == "get")
            {
                return Res("val", g->get_value());
            }
            return r;
        }
        if (status(*c, n, r))
        {
            return r;
        }
        if (n == "wdec")
        {
            return awake(c->wait_and_decrement(op.arg(0)), op.arg(0), t0);
        }
        if (n == "wthr")
        {
            return awake(c->wait_threshold_reached(op.arg(0)), op.arg(0), t0);
        }
        if (n == "inc")
        {
            ++*c;
        }
        else if (n == "get")
        {
            return Res("val", (int)c->get_value());
        }
        return r;
    }

    void finish()
    {
        if (!deleted)
        {
            conc::event("C", 0, "del");
            exec(0, Op{"del", {}});
            conc::event("R", 0, "ok");
        }
    }

};

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
