// EventHandler, PeriodicEventHandler, MultipleEventHandler.
#include "conc.hpp"

#include <cpp_utils/event/EventHandler.hpp>
#include <cpp_utils/event/MultipleEventHandler.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
#include <cpp_utils/exception/InitializationException.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using conc::Op;
using conc::Res;

struct Inner : public EventHandler<int> {};

// a callback that notices if it is used after it has been destroyed (the captured data do not fit in std::function)
struct Payload
{
    int k, b, pad[14];
};

struct World
{
    EventHandler<int>* e = nullptr;
    PeriodicEventHandler* p = nullptr;
    MultipleEventHandler* m = nullptr;
    std::vector<int> per;
    std::vector<EventHandler<int>*> ie;
    std::vector<PeriodicEventHandler*> ip;
    bool deleted = false, dead_inner = false;
    bool flag[8] = {};
    int cur[64];            // program thread that each fiber runs

    // init: strict, period of the handler, period of each inner handler
    World(
            const conc::Program& pr)
    {
        vs::NoTrace nt;
        conc::clocked() = pr.kind != "ev";
        conc::inside_seen() = pr.kind == "ev";
        memset(cur, 0, sizeof cur);
        per.assign(pr.init.begin() + 1, pr.init.end());
        ie.resize(per.size());
        ip.resize(per.size());
        if (pr.kind == "ev")
        {
            e = new EventHandler<int>();
        }
        else if (pr.kind == "per")
        {
            p = new PeriodicEventHandler(per[0]);
        }
        else if (pr.kind == "multi")
        {
            m = new MultipleEventHandler();
            m->unset_callback();
            for (size_t h = 1; h < per.size(); h++)
            {
                if (per[h])
                {
                    ip[h] = new PeriodicEventHandler(per[h]);
                }
                else
                {
                    ie[h] = new Inner();
                }
            }
        }
        // "perl", "multil": created with their callback by the first set
    }

    bool quiet(
            const Op& op)
    {
        return op.name == "flag" || op.name == "await";
    }


    // behaviours: 0 nothing, 1 unset, 2 another event, 3 set another callback, 4 count, 5 takes 7 ms, 6 decrement,
    // 7 reset, 8 raises flag 1, 9 waits for flag 1
    void callback(
            const Payload& pl,
            int x)
    {
        int k = pl.k;
        conc::observe("cb", {k, x});
        vs::point();
        int b = x >= 100 ? 0 : pl.b;
        int t;
        {
            vs::NoTrace nt;
            t = 10 + cur[vs::self()];
        }
        switch (b)
        {
            case 1:
                conc::event("C", t, "unset");
                unset();
                conc::event("R", t, "ok");
                break;
            case 2:
                conc::event("C", t, "ev", {x + 100});
                e->simulate_event_occurred(x + 100);
                conc::event("R", t, "ok");
                break;
            case 3:
                conc::event("C", t, "set", {k + 10});
                set(k + 10, 0);
                conc::event("R", t, "ok");
                break;
            case 4:
            {
                conc::event("C", t, "count");
                int n = e->event_count();
                conc::event("R", t, "val", {n});
                break;
            }
            case 5:
            {
                int64_t until;
                {
                    vs::NoTrace nt;
                    until = vs::now_ns() / 1000000 + 7;
                }
                vs::sleep_until_ms(until);
                break;
            }
            case 6:
                conc::event("C", t, "decr");
                e->decrement_event_count();
                conc::event("R", t, "ok");
                break;
            case 7:
                conc::event("C", t, "reset");
                e->reset_event_count();
                conc::event("R", t, "ok");
                break;
            case 8:
                raise(1);
                break;
            case 9:
                await(1);
                break;
        }
        vs::point();
        // the captured data are used again
        conc::observe("cbe", {pl.k, x});
    }

    void raise(
            int i)
    {
        vs::NoTrace nt;
        flag[i] = true;
    }

    void await(
            int i)
    {
        bool* f = &flag[i];
        vs::block_until([f]()
                {
                    return *f;
                });
    }

    void set(
            int k,
            int b)
    {
        Payload pl{};
        pl.k = k;
        pl.b = b;
        auto f0 = [this, pl]()
                {
                    callback(pl, 0);
                };
        if (e)
        {
            e->set_callback([this, pl](int x)
                    {
                        callback(pl, x);
                    });
        }
        else if (p)
        {
            p->set_callback(f0);
        }
        else if (m)
        {
            m->set_callback(f0);
        }
        else
        {
            p = new PeriodicEventHandler(f0, per[0]);
        }
    }

    void unset()
    {
        if (e)
        {
            e->unset_callback();
        }
        else if (p)
        {
            p->unset_callback();
        }
        else
        {
            m->unset_callback();
        }
    }

    void del()
    {
        deleted = true;
        delete e;
        delete p;
        delete m;
    }

    template <typename H>
    Res counter(
            H& h,
            const Op& op)
    {
        const std::string& n = op.name;
        if (n == "wait")
        {
            return Res("val", h.wait_for_event(op.arg(0)) ? 1 : 0);
        }
        if (n == "count")
        {
            return Res("val", (int)h.event_count());
        }
        if (n == "reset")
        {
            h.reset_event_count();
        }
        else if (n == "decr")
        {
            h.decrement_event_count();
        }
        return Res();
    }

    Res exec(
            int t,
            const Op& op)
    {
        const std::string& n = op.name;
        {
            vs::NoTrace nt;
            cur[vs::self()] = t;
        }
        if (n == "set")
        {
            set(op.arg(0), op.arg(1));
        }
        else if (n == "unset")
        {
            unset();
        }
        else if (n == "ev")
        {
            if (e)
            {
                e->simulate_event_occurred(op.arg(0));
            }
            else if (p)
            {
                p->simulate_event_occurred();
            }
            else
            {
                m->simulate_event_occurred();
            }
        }
        else if (n == "iev")
        {
            int h = op.arg(1);
            if (ie[h])
            {
                ie[h]->simulate_event_occurred(op.arg(0));
            }
            else
            {
                ip[h]->simulate_event_occurred();
            }
        }
        else if (n == "icount")
        {
            int h = op.arg(0);
            return Res("val", (int)(ie[h] ? ie[h]->event_count() : ip[h]->event_count()));
        }
        else if (n == "reg")
        {
            int h = op.arg(0);
            if (ie[h])
            {
                m->register_event_handler<EventHandler<int>, int>(std::unique_ptr<EventHandler<int>>(ie[h]));
            }
            else
            {
                m->register_event_handler<EventHandler<>>(std::unique_ptr<EventHandler<>>(ip[h]));
            }
        }
        else if (n == "make")
        {
            try
            {
                PeriodicEventHandler x(op.arg(0));
            }
            catch (const InitializationException&)
            {
                return Res("rejected");
            }
        }
        else if (n == "del")
        {
            del();
        }
        else if (n == "flag")
        {
            raise(op.arg(0));
        }
        else if (n == "await")
        {
            await(op.arg(0));
        }
        else
        {
            return e ? counter(*e, op) : p ? counter(*p, op) : counter(*m, op);
        }
        return Res();
    }

    void finish()
    {
        if (!deleted)
        {
            conc::event("C", 0, "del");
            if (e)
            {
                e->unset_callback();
            }
            del();
            conc::event("R", 0, "ok");
        }
    }

};

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
