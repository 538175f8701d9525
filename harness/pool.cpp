// SlotThreadPool.
#include "conc.hpp"

#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using conc::Op;
using conc::Res;

struct World
{
    SlotThreadPool* p;
    bool deleted = false;
    bool flag[8] = {};
    int nested = 0;         // calls made by tasks
    std::set<unsigned> ids;

    // init: workers
    World(
            const conc::Program& pr)
    {
        p = new SlotThreadPool(pr.init[0]);
    }

    bool quiet(
            const Op& op)
    {
        return op.name == "flag" || op.name == "await";
    }

    void set(
            int i)
    {
        vs::NoTrace nt;
        flag[i] = true;
    }

    void await(
            int i)
    {
        bool* f = &flag[i];
        vs::block_until([f]()
                {
                    return *f;
                });
    }

    Res emit(
            int k)
    {
        try
        {
            p->emit(k);
            return Res();
        }
        catch (const ValueNotAllowedException&)
        {
            return Res("notallowed");
        }
    }

    // behaviours of the tasks: 0 nothing, 1 waits for flag 0, 2 emits k + 1, 3 raises flag 0, 4 raises flag k and waits
    // for flag k + 1, 5 raises flag k and waits for flag k - 1
    void task(
            int k,
            int b)
    {
        conc::observe("start", {k});
        vs::point();
        switch (b)
        {
            case 1:
                await(0);
                break;
            case 2:
            {
                int me;
                {
                    vs::NoTrace nt;
                    me = 10 + (++nested);
                }
                conc::event("C", me, "emit", {k + 1});
                Res r = emit(k + 1);
                conc::event("R", me, r.tag);
                break;
            }
            case 3:
                set(0);
                break;
            case 4:
                set(k);
                await(k + 1);
                break;
            case 5:
                set(k);
                await(k - 1);
                break;
        }
        vs::point();
        conc::observe("end", {k});
    }

    Res exec(
            int,
            const Op& op)
    {
        const std::string& n = op.name;
        int64_t t0 = vs::now_ns();
        if (n == "slot")
        {
            int k = op.arg(0), b = op.arg(1);
            try
            {
                p->slot(k, [this, k, b]()
                        {
                            task(k, b);
                        });
            }
            catch (const ValueNotAllowedException&)
            {
                return Res("notallowed");
            }
        }
        else if (n == "emit")
        {
            return emit(op.arg(0));
        }
        else if (n == "enable")
        {
            p->enable();
        }
        else if (n == "disable")
        {
            p->disable();
        }
        else if (n == "del")
        {
            deleted = true;
            delete p;
        }
        else if (n == "wall")
        {
            int to = op.arg(0);
            AwakeReason r = p->wait_all_consumed(to);
            return r == AwakeReason::disabled ? Res("disabled") : r == AwakeReason::condition_met ? Res("met") :
                   to > 0 && vs::now_ns() - t0 >= (int64_t)to * 1000000 ? Res("timeout") : Res("early");
        }
        else if (n == "uid")
        {
            unsigned id = new_unique_task_id();
            vs::NoTrace nt;
            return Res(ids.insert(id).second ? "fresh" : "repeated");
        }
        else if (n == "flag")
        {
            set(op.arg(0));
        }
        else if (n == "await")
        {
            await(op.arg(0));
        }
        return Res();
    }

    void finish()
    {
        if (!deleted)
        {
            conc::event("C", 0, "del");
            delete p;
            conc::event("R", 0, "ok");
        }
    }

};

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
