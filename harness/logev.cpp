// LogEventHandler, LogSevereEventHandler, LogChecker.  The log is the stand-in of shim/: its queue, its thread and its
// list of consumers are here, with the locks that Fast DDS uses.
#include "conc.hpp"

#include <condition_variable>
#include <mutex>
#include <thread>

#include <cpp_utils/event/LogEventHandler.hpp>
#include <cpp_utils/event/LogSevereEventHandler.hpp>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/testing/LogChecker.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using conc::Op;
using conc::Res;

// number of the entry, in its message
static int number(
        const Log::Entry& e)
{
    vs::NoTrace nt;
    return atoi(e.message.c_str());
}

struct World
{
    LogEventHandler* h[4] = {};
    testing::LogChecker* chk[4] = {};

    std::mutex queue_mutex, config_mutex;
    std::condition_variable cv;
    std::vector<Log::Entry> queue;
    size_t taken = 0, done = 0;
    bool stop = false;
    std::vector<std::unique_ptr<LogConsumer>> consumers;
    std::thread thread;
    std::atomic<bool> flag[8] = {};

    World(
            const conc::Program&)
    {
        {
            vs::NoTrace nt;
            queue.reserve(64);
            Log::SetVerbosity(Log::Kind::Error);
            vshim::queue_hook = nullptr;
            vshim::register_hook = [this](std::unique_ptr<LogConsumer>&& c)
                    {
                        std::lock_guard<std::mutex> lock(config_mutex);
                        consumers.push_back(std::move(c));
                    };
            vshim::flush_hook = [this]()
                    {
                        std::unique_lock<std::mutex> lock(queue_mutex);
                        size_t n = queue.size();
                        cv.wait(lock, [this, n]()
                                {
                                    return done >= n;
                                });
                    };
        }
        thread = std::thread([this]()
                        {
                            loop();
                        });
    }

    void loop()
    {
        std::unique_lock<std::mutex> lock(queue_mutex);
        while (true)
        {
            cv.wait(lock, [this]()
                    {
                        return stop || taken < queue.size();
                    });
            if (taken == queue.size())
            {
                return;
            }
            Log::Entry e = queue[taken++];
            lock.unlock();
            {
                std::lock_guard<std::mutex> config(config_mutex);
                for (auto& c : consumers)
                {
                    c->Consume(e);
                }
            }
            lock.lock();
            done++;
            cv.notify_all();
        }
    }

    void log(
            int kind,
            int x)
    {
        if (Log::GetVerbosity() < kind)
        {
            return;
        }
        Log::Entry e;
        {
            vs::NoTrace nt;
            e.message = std::to_string(x);
            e.context = {"f", 1, "g", "c"};
            e.kind = (Log::Kind)kind;
        }
        std::lock_guard<std::mutex> lock(queue_mutex);
        queue.push_back(e);
        cv.notify_all();
    }

    bool quiet(
            const Op& op)
    {
        return op.name == "flag" || op.name == "await";
    }

    void await(
            int i)
    {
        std::atomic<bool>* f = &flag[i];
        vs::block_until([f]()
                {
                    vs::NoTrace nt;
                    return f->load();
                });
        f->load();
    }

    // behaviours: 0 nothing, 1 logs an error (once), 2 waits for flag 1, 3 unsets its callback, 4 counts
    std::function<void(Log::Entry)> callback(
            int e,
            int k,
            int b)
    {
        bool* once;
        {
            vs::NoTrace nt;
            once = new bool(true);
        }
        return [this, e, k, b, once](Log::Entry en)
               {
                   int x = number(en), bb;
                   conc::observe("cb", {k, x});
                   vs::point();
                   {
                       vs::NoTrace nt;
                       bb = *once ? b : 0;
                       *once = false;
                   }
                   if (bb == 1)
                   {
                       conc::event("C", 50, "log", {0, x + 100});
                       log(0, x + 100);
                       conc::event("R", 50, "ok");
                   }
                   else if (bb == 2)
                   {
                       await(1);
                   }
                   else if (bb == 3)
                   {
                       conc::event("C", 50, "unset", {e});
                       h[e]->unset_callback();
                       conc::event("R", 50, "ok");
                   }
                   else if (bb == 4)
                   {
                       conc::event("C", 50, "count", {e});
                       int c = h[e]->event_count();
                       conc::event("R", 50, "val", {c});
                   }
                   vs::point();
                   conc::observe("cbe", {k, x});
               };
    }

    Res exec(
            int,
            const Op& op)
    {
        const std::string& n = op.name;
        int e = op.arg(0);
        if (n == "log")
        {
            log(op.arg(0), op.arg(1));
        }
        else if (n == "verb")
        {
            Log::SetVerbosity((Log::Kind)op.arg(0));
        }
        else if (n == "flush")
        {
            Log::Flush();
        }
        else if (n == "mk")
        {
            h[e] = new LogEventHandler();
        }
        else if (n == "mkc")
        {
            h[e] = new LogEventHandler(callback(e, op.arg(1), op.arg(2)));
        }
        else if (n == "mks")
        {
            auto f = callback(e, op.arg(1), op.arg(3));
            h[e] = op.arg(2) == 1 ? new LogSevereEventHandler(f) :
                    new LogSevereEventHandler(f, (Log::Kind)op.arg(2));
        }
        else if (n == "chk")
        {
            chk[e] = new testing::LogChecker((Log::Kind)op.arg(1), op.arg(2), op.arg(3));
        }
        else if (n == "set")
        {
            h[e]->set_callback(callback(e, op.arg(1), op.arg(2)));
        }
        else if (n == "unset")
        {
            h[e]->unset_callback();
        }
        else if (n == "hdel")
        {
            // as their own class: the destructor of EventHandler is what is called otherwise
            if (auto s = dynamic_cast<LogSevereEventHandler*>(h[e]))
            {
                delete s;
            }
            else
            {
                delete h[e];
            }
            h[e] = nullptr;
            delete chk[e];
            chk[e] = nullptr;
        }
        else if (n == "count")
        {
            return Res("val", (int)h[e]->event_count());
        }
        else if (n == "wait")
        {
            return Res("val", h[e]->wait_for_event(op.arg(1)) ? 1 : 0);
        }
        else if (n == "valid")
        {
            return Res("val", chk[e]->check_valid() ? 1 : 0);
        }
        else if (n == "flag")
        {
            flag[op.arg(0)].store(true);
        }
        else if (n == "await")
        {
            await(op.arg(0));
        }
        return Res();
    }

    void run(
            const char* line)
    {
        for (auto& op : conc::parse_ops(line))
        {
            conc::event("C", 0, op.name, op.a);
            Res r = exec(0, op);
            conc::event("R", 0, r.tag, r.v);
        }
    }

    void finish()
    {
        run("flush");
        for (int e = 1; e <= 3; e++)
        {
            if (h[e] || chk[e])
            {
                char b[64];
                {
                    vs::NoTrace nt;
                    snprintf(b, sizeof b, h[e] ? "count:%d log:0:900 hdel:%d" : "valid:%d log:0:900 hdel:%d", e, e);
                }
                run(b);
            }
        }
        run("log:0:901 log:1:902 flush");
        {
            std::lock_guard<std::mutex> lock(queue_mutex);
            stop = true;
            cv.notify_all();
        }
        thread.join();
        consumers.clear();
        vs::NoTrace nt;
        vshim::register_hook = nullptr;
        vshim::flush_hook = nullptr;
    }

};

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
