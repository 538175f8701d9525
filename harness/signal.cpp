// SignalManager and SignalEventHandler.  signal() is replaced: it records the function installed, and the harness
// delivers signals by calling it, in whatever thread and at whatever moment.
#include "conc.hpp"

#include <csignal>

static void (* installed[65])(
        int) = {};
static int last_installed = 0;

extern "C" void (* signal(
        int n,
        void (* f)(
            int)) noexcept)(
        int)
{
    auto old = installed[n];
    installed[n] = f;
    last_installed = n;
    return old;
}

#include <cpp_utils/event/SignalEventHandler.hpp>
#include <cpp_utils/event/SignalManager.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using conc::Op;
using conc::Res;

constexpr Signal SV = Signal::sigusr1;
using Handler = SignalEventHandler<SV>;

// a manager of its own for every execution
struct Manager : public SignalManager<SV>
{
    Manager()
    {
    }

    ~Manager()
    {
    }

    static void clear()
    {
        signals_received_ = 0;
    }

};

static Manager* manager = nullptr;

namespace eprosima { namespace utils { namespace event {
template <>
SignalManager<SV>& SignalManager<SV>::get_instance() noexcept
{
    return *manager;
}

} } }

struct World
{
    Handler* h[4] = {};
    UniqueCallbackId id[16] = {};
    std::set<UniqueCallbackId>* ids;
    bool deleted = false;
    std::atomic<bool> flag[8] = {};

    World(
            const conc::Program&)
    {
        {
            vs::NoTrace nt;
            Manager::clear();
            for (auto& x : id)
            {
                x = 9999;
            }
            ids = new std::set<UniqueCallbackId>();
            installed[(int)SV] = nullptr;
        }
        manager = new Manager();
    }

    bool quiet(
            const Op& op)
    {
        return op.name == "flag" || op.name == "await";
    }

    void raise(
            int i)
    {
        flag[i].store(true);
    }

    void await(
            int i)
    {
        std::atomic<bool>* f = &flag[i];
        vs::block_until([f]()
                {
                    vs::NoTrace nt;
                    return f->load();
                });
        f->load();      // ordered after the thread that raised it
    }

    void sig()
    {
        auto f = installed[(int)SV];
        if (f)
        {
            f((int)SV);
        }
    }

    // behaviours: 0 nothing, 1 a signal arrives, in this thread, while the callback runs, 2 waits for flag 1
    void callback(
            int k,
            int b,
            int x)
    {
        conc::observe("cb", {k, x});
        vs::point();
        if (b == 1)
        {
            conc::event("C", 50, "sig");
            sig();
            conc::event("R", 50, "ok");
        }
        else if (b == 2)
        {
            await(1);
        }
        vs::point();
        conc::observe("cbe", {k, x});
    }

    Res exec(
            int,
            const Op& op)
    {
        const std::string& n = op.name;
        int e = op.arg(0), k = op.arg(1), b = op.arg(2);
        if (n == "sig")
        {
            sig();
        }
        else if (n == "mk")
        {
            h[e] = new Handler();
        }
        else if (n == "set")
        {
            // the first signal only: the behaviour of a callback that sends signals must not repeat itself for ever
            bool* once;
            {
                vs::NoTrace nt;
                once = new bool(true);
            }
            std::function<void(Signal)> f = [this, k, b, once](Signal s)
                    {
                        int bb;
                        {
                            vs::NoTrace nt;
                            bb = *once ? b : 0;
                            *once = false;
                        }
                        callback(k, bb, (int)s);
                    };
            if (h[e])
            {
                h[e]->set_callback(f);
            }
            else
            {
                h[e] = new Handler(f);
            }
        }
        else if (n == "unset")
        {
            h[e]->unset_callback();
        }
        else if (n == "hdel")
        {
            delete h[e];
            h[e] = nullptr;
        }
        else if (n == "count")
        {
            return Res("val", (int)h[e]->event_count());
        }
        else if (n == "wait")
        {
            return Res("val", h[e]->wait_for_event(op.arg(1)) ? 1 : 0);
        }
        else if (n == "areg")
        {
            id[e] = manager->register_callback([this, k, b]()
                            {
                                callback(k, b, 0);
                            });
            vs::NoTrace nt;
            return Res(ids->insert(id[e]).second ? "fresh" : "repeated");
        }
        else if (n == "aunreg")
        {
            try
            {
                manager->unregister_callback(id[e]);
            }
            catch (const InconsistencyException&)
            {
                return Res("inconsistent");
            }
        }
        else if (n == "flag")
        {
            raise(op.arg(0));
        }
        else if (n == "await")
        {
            await(op.arg(0));
        }
        return Res();
    }

    void finish()
    {
        vs::sleep_until_ms(vs::now_ns() / 1000000 + 1000);
        conc::observe("settled");
        for (int e = 1; e <= 3; e++)
        {
            if (h[e])
            {
                conc::event("C", 0, "hdel", {e});
                delete h[e];
                conc::event("R", 0, "ok");
            }
        }
        conc::event("C", 0, "sig");     // no handler is registered
        sig();
        conc::event("R", 0, "ok");
        conc::event("C", 0, "del");
        delete manager;
        conc::event("R", 0, "ok");
    }

};

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
