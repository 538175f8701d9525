// Frame of the harnesses of the concurrent components: reads client programs, runs each of them on the real code
// under the schedules of vsched and prints the distinct histories (calls, returns, observations).
#pragma once
#include "../rt/vsched.hpp"

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace conc {

struct Op
{
    std::string name;
    std::vector<int> a;
    int arg(
            size_t i,
            int d = 0) const
    {
        return i < a.size() ? a[i] : d;
    }

};

struct Program
{
    int id = 0;
    int preempt = -1;                       // preemption budget, -1: default
    std::string kind;
    std::vector<int> init;
    std::vector<Op> post;                   // by the main thread when every other has ended
    std::vector<std::vector<Op>> th;
};

struct Res
{
    std::string tag = "ok";
    std::vector<int> v;
    Res()
    {
    }

    Res(
            const std::string& t)
        : tag(t)
    {
    }

    Res(
            const std::string& t,
            int x)
        : tag(t)
        , v{x}
    {
    }

    Res(
            const std::string& t,
            const std::vector<int>& x)
        : tag(t)
        , v(x)
    {
    }

};

inline std::vector<std::string> split(
        const std::string& s,
        char d)
{
    std::vector<std::string> r;
    std::string c;
    for (char x : s)
    {
        if (x == d)
        {
            r.push_back(c);
            c.clear();
        }
        else
        {
            c += x;
        }
    }
    r.push_back(c);
    return r;
}

inline std::vector<Op> parse_ops(
        const std::string& s)
{
    std::vector<Op> r;
    for (auto& w : split(s, ' '))
    {
        if (w.empty())
        {
            continue;
        }
        auto p = split(w, ':');
        Op o;
        o.name = p[0];
        for (size_t i = 1; i < p.size(); i++)
        {
            o.a.push_back(atoi(p[i].c_str()));
        }
        r.push_back(o);
    }
    return r;
}

// line: id \t preempt \t kind \t init \t post \t thread \t thread ...
inline Program parse_program(
        const std::string& line)
{
    auto f = split(line, '\t');
    Program p;
    p.id = atoi(f[0].c_str());
    p.preempt = atoi(f[1].c_str());
    p.kind = f[2];
    for (auto& x : split(f[3], ' '))
    {
        if (!x.empty())
        {
            p.init.push_back(atoi(x.c_str()));
        }
    }
    p.post = parse_ops(f[4]);
    for (size_t i = 5; i < f.size(); i++)
    {
        p.th.push_back(parse_ops(f[i]));
    }
    return p;
}

inline std::string ints(
        const std::vector<int>& v)
{
    std::string r;
    for (int x : v)
    {
        r += "," + std::to_string(x);
    }
    return r;
}

// whether the virtual clock is part of the history (an observation "now" before the first event at a new time)
inline bool& clocked()
{
    static bool b = false;
    return b;
}

// whether the threads that are in a condition wait after a sync are part of the history (an observation "inside")
inline bool& inside_seen()
{
    static bool b = false;
    return b;
}

// An event of the history: E,thread,name,ints...
inline void event(
        const std::string& e,
        int t,
        const std::string& o,
        const std::vector<int>& a = {})
{
    vs::NoTrace nt;
    if (clocked())
    {
        static int64_t last = 0;
        int64_t now = vs::now_ns() / 1000000;
        if (e == "I")
        {
            last = now;
        }
        if (now != last)
        {
            last = now;
            vs::log("O,0,now," + std::to_string(now));
        }
    }
    vs::log(e + "," + std::to_string(t) + "," + o + ints(a));
}

inline void observe(
        const std::string& o,
        const std::vector<int>& a = {})
{
    event("O", 0, o, a);
}

struct ThreadEnd {};    // thrown by a World to end the thread

template <typename World>
void run_ops(
        World& w,
        int t,
        const std::vector<Op>& ops)
{
    for (const Op& op : ops)
    {
        vs::progress();
        if (op.name == "sync")
        {
            // wait until n other program threads are (or have been) inside a condition wait, or ended
            vs::sync_waited(op.arg(0));
            if (inside_seen())
            {
                // which of them are in one at this moment: their call has begun to wait
                vs::NoTrace nt;
                for (const std::string& n : vs::inside_wait())
                {
                    observe("inside", {std::stoi(n.substr(1))});
                }
            }
            continue;
        }
        // (the names "sync" and "at" are not given to a World)
        if (op.name == "at")
        {
            // wait until the virtual time
            int64_t ms = op.arg(0);
            vs::sleep_until_ms(ms);
            continue;
        }
        bool quiet = w.quiet(op);
        if (!quiet)
        {
            event("C", t, op.name, op.a);
        }
        {
            vs::NoTrace nt;
            std::string l = "t" + std::to_string(t) + ":" + op.name + ints(op.a);
            vs::label(l);
        }
        Res r = w.exec(t, op);
        if (!quiet)
        {
            event("R", t, r.tag, r.v);
        }
    }
}

template <typename World>
void body(
        const Program& p)
{
    std::vector<int> init;
    {
        vs::NoTrace nt;
        init = p.init;
        init.insert(init.begin(), (int)p.th.size());
        event("I", 0, p.kind, init);
    }
    World* w;
    {
        w = new World(p);
    }
    for (size_t i = 0; i < p.th.size(); i++)
    {
        const std::vector<Op>* ops = &p.th[i];
        vs::go([w, i, ops]()
                {
                    run_ops(*w, (int)i + 1, *ops);
                }, "t" + std::to_string(i + 1));
    }
    vs::label("main");
    vs::join_all();
    run_ops(*w, 0, p.post);
    w->finish();
    {
        delete w;
    }
}

template <typename World>
int conc_main(
        int argc,
        char** argv)
{
    std::string progs, choices;
    int shard = 0, nshards = 1, only = -1;
    double secs = 1e9;
    vs::Options def;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--progs")
        {
            progs = v;
        }
        else if (a == "--shard")
        {
            sscanf(v.c_str(), "%d/%d", &shard, &nshards);
        }
        else if (a == "--dfs")
        {
            def.max_dfs = atol(v.c_str());
        }
        else if (a == "--random")
        {
            def.n_random = atol(v.c_str());
        }
        else if (a == "--preempt")
        {
            def.preempt = atoi(v.c_str());
        }
        else if (a == "--spurious")
        {
            def.spurious = atoi(v.c_str());
        }
        else if (a == "--early")
        {
            def.early_timeouts = atoi(v.c_str());
        }
        else if (a == "--seed")
        {
            def.seed = strtoull(v.c_str(), nullptr, 10);
        }
        else if (a == "--distinct")
        {
            def.max_distinct = atol(v.c_str());
        }
        else if (a == "--steps")
        {
            def.max_steps = atol(v.c_str());
        }
        else if (a == "--secs")
        {
            secs = atof(v.c_str());
        }
        else if (a == "--only")
        {
            only = atoi(v.c_str());
        }
        else if (a == "--choices")
        {
            choices = v;
        }
    }
    std::vector<Program> ps;
    std::ifstream in(progs);
    std::string line;
    while (std::getline(in, line))
    {
        if (!line.empty())
        {
            ps.push_back(parse_program(line));
        }
    }
    auto clock = []()
            {
                struct timespec ts;
                syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
                return ts.tv_sec + ts.tv_nsec * 1e-9;
            };
    double t0 = clock();
    long execs = 0, steps = 0, exhausted = 0, run = 0;
    static char obuf[1 << 16];
    setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    auto print = [](int id, const vs::Execution& e, const std::string& h)
            {
                std::string c;
                size_t n = e.choices.size();
                while (n > 0 && e.choices[n - 1] == 0)
                {
                    n--;
                }
                for (size_t i = 0; i < n; i++)
                {
                    c += (i ? "," : "") + std::to_string(e.choices[i]);
                }
                std::string b;
                for (auto& x : e.blocked)
                {
                    b += x + " ";
                }
                std::string d = e.detail;
                for (char& x : d)
                {
                    if (x == '\t' || x == '\n')
                    {
                        x = ' ';
                    }
                }
                printf("H\t%d\t%s\t%s\t%s\t%s\t%s\n", id, e.outcome.c_str(), d.c_str(), c.c_str(), b.c_str(), h.c_str());
            };
    auto hist = [](const vs::Execution& e)
            {
                std::string h;
                for (auto& x : e.log)
                {
                    h += x + ";";
                }
                return h;
            };
    if (only >= 0)
    {
        for (auto& p : ps)
        {
            if (p.id == only)
            {
                std::vector<int> cs;
                for (auto& x : split(choices, ','))
                {
                    if (!x.empty())
                    {
                        cs.push_back(atoi(x.c_str()));
                    }
                }
                auto e = vs::replay(def, [&p]()
                                {
                                    body<World>(p);
                                }, cs);
                print(p.id, e, hist(e));
                fflush(stdout);
                _exit(0);
            }
        }
        _exit(3);
    }
    for (size_t i = 0; i < ps.size(); i++)
    {
        if ((int)(i % nshards) != shard)
        {
            continue;
        }
        if (clock() - t0 > secs)
        {
            break;
        }
        run++;
        const Program& p = ps[i];
        vs::Options o = def;
        if (p.preempt >= 0)
        {
            o.preempt = p.preempt;
        }
        std::unordered_set<std::string> seen;
        long bad = 0;
        auto st = vs::explore(o, [&p]()
                        {
                            body<World>(p);
                        }, [&](const vs::Execution& e)
                        {
                            std::string h = hist(e);
                            std::string key = e.outcome + "|" + h;
                            if (seen.insert(key).second)
                            {
                                print(p.id, e, h);
                                if (e.outcome != "done" && e.outcome != "deadlock")
                                {
                                    bad++;
                                }
                            }
                            return bad < 5 && (long)seen.size() < o.max_distinct && clock() - t0 < secs;
                        });
        execs += st.executions;
        steps += st.steps;
        exhausted += st.exhausted;
    }
    printf("S\t%ld\t%ld\t%ld\t%ld\n", run, execs, steps, exhausted);
    fflush(stdout);
    _exit(0);
}

} // namespace conc
