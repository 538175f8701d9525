// DBQueue and DBQueueWaitHandler.
#include "conc.hpp"

#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/queue/DBQueue.hpp>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using conc::Op;
using conc::Res;

// a value that shows when it has been moved from
struct Val
{
    int v = -1;
    Val()
    {
    }

    Val(
            int x)
        : v(x)
    {
    }

    Val(
            const Val& o)
        : v(o.v)
    {
    }

    Val(
            Val&& o)
        : v(o.v)
    {
        o.v = -2;
    }

    Val& operator =(
            const Val& o)
    {
        v = o.v;
        return *this;
    }

    Val& operator =(
            Val&& o)
    {
        v = o.v;
        o.v = -2;
        return *this;
    }

};

struct World
{
    DBQueue<Val>* q = nullptr;
    DBQueueWaitHandler<Val>* h = nullptr;
    bool deleted = false;

    World(
            const conc::Program& p)
    {
        if (p.kind == "dbq")
        {
            q = new DBQueue<Val>();
            // what is in the foreground at the beginning: -101, -102...
            for (int i = 1; !p.init.empty() && i <= p.init[0]; ++i)
            {
                q->push(Val(-100 - i));
            }
            if (!p.init.empty() && p.init[0] > 0)
            {
                q->swap();
            }
        }
        else
        {
            conc::inside_seen() = true;
            h = new DBQueueWaitHandler<Val>(0, p.init[0] != 0);
        }
    }

    bool quiet(
            const Op&)
    {
        return false;
    }

    Res exec(
            int,
            const Op& op)
    {
        const std::string& n = op.name;
        if (q)
        {
            if (n == "push")
            {
                if (op.arg(0) % 2)
                {
                    q->push(Val(op.arg(0)));
                }
                else
                {
                    const Val v(op.arg(0));
                    q->push(v);
                    if (v.v != op.arg(0))
                    {
                        return Res("source changed");
                    }
                }
            }
            else if (n == "swap")
            {
                q->swap();
            }
            else if (n == "clear")
            {
                q->clear();
            }
            else if (n == "empty")
            {
                return Res("val", q->empty());
            }
            else if (n == "bempty")
            {
                return Res("val", q->both_empty());
            }
            else if (n == "size")
            {
                return Res("val", (int)q->size());
            }
            else if (n == "front")
            {
                if (q->empty())
                {
                    return Res("none");
                }
                const DBQueue<Val>* c = q;
                int a = q->front().v, b = c->front().v;
                return a == b ? Res("val", a) : Res("differ");
            }
            else if (n == "pop")
            {
                if (q->empty())
                {
                    return Res("none");
                }
                q->pop();
            }
            else if (n == "fap")
            {
                if (q->empty())
                {
                    return Res("none");
                }
                return Res("val", q->front_and_pop().v);
            }
            return Res();
        }
        int64_t t0 = vs::now_ns();
        auto late = [&](int to)
                {
                    return to > 0 && vs::now_ns() - t0 >= (int64_t)to * 1000000;
                };
        if (n == "prod")
        {
            const Val v(op.arg(0));
            h->produce(v);
            return v.v == op.arg(0) ? Res() : Res("source changed");
        }
        else if (n == "prodmv")
        {
            h->produce(Val(op.arg(0)));
        }
        else if (n == "cons")
        {
            try
            {
                Val v = h->consume(op.arg(0));
                return Res("val", v.v);
            }
            catch (const DisabledException&)
            {
                return Res("disabled");
            }
            catch (const TimeoutException&)
            {
                return late(op.arg(0)) ? Res("timeout") : Res("early");
            }
            catch (const InconsistencyException&)
            {
                return Res("inconsistency");
            }
        }
        else if (n == "wall")
        {
            AwakeReason r = h->wait_all_consumed(op.arg(0));
            return r == AwakeReason::disabled ? Res("disabled") : r == AwakeReason::condition_met ? Res("met") :
                   late(op.arg(0)) ? Res("timeout") : Res("early");
        }
        else if (n == "ready")
        {
            return Res("val", (int)h->elements_ready_to_consume());
        }
        else if (n == "en")
        {
            h->enable();
        }
        else if (n == "dis")
        {
            h->disable();
        }
        else if (n == "bdis")
        {
            h->blocking_disable();
        }
        else if (n == "sac")
        {
            h->stop_and_continue();
        }
        else if (n == "isen")
        {
            return Res("val", h->enabled());
        }
        else if (n == "del")
        {
            deleted = true;
            delete h;
        }
        return Res();
    }

    void finish()
    {
        if (h && !deleted)
        {
            conc::event("C", 0, "del");
            delete h;
            conc::event("R", 0, "ok");
        }
        delete q;
    }

};

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
