// Sequential objects of cpp_utils: command history, unbounded pool, fuzzy values, log configuration and consumer,
// tree, timers.
#include "conc.hpp"

#include <chrono>
#include <list>
#include <thread>
#include <algorithm>
#include <type_traits>

#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/history/CommandHistoryHandler.hpp>
#include <cpp_utils/logging/BaseLogConfiguration.hpp>
#include <cpp_utils/logging/StdLogConsumer.hpp>
#include <cpp_utils/pool/UnboundedPool.hpp>
#include <cpp_utils/time/PausableTimer.hpp>
#include <cpp_utils/time/Timer.hpp>
#include <cpp_utils/types/Fuzzy.hpp>
#include <cpp_utils/types/Tree.hpp>

using namespace eprosima::utils;
using conc::Op;
using conc::Res;
using Ints = std::vector<int>;

struct Object
{
    virtual ~Object() = default;
    virtual Res exec(
            const Op& op) = 0;
};

static std::string plain(
        std::string s)
{
    for (char& c : s)
    {
        c = c == ',' ? '/' : c == ';' ? '|' : c == '\t' || c == '\n' ? '_' : c;
    }
    return s;
}

// ---------------------------------------------------------------------------- command history
struct Hist : Object
{
    history::CommandHistoryHandler h;
    // a command of number i; from 10000 on a long one, that ends with its number
    static std::string text(
            int i)
    {
        return i == 0 ? "" : i == 1 ? " " : (i < 10000 ? "cmd" : "cmd" + std::string(i / 10, 'x')) + std::to_string(i);
    }

    static Res of(
            const std::string& s)
    {
        size_t k = s.find_last_not_of("0123456789");
        int i = s.empty() ? 0 : s == " " ? 1 : k == std::string::npos || s.size() - k > 8 || k + 1 == s.size() ? -1 :
                std::stoi(s.substr(k + 1));
        return i < 0 || s != text(i) ? Res("garbage") : Res("val", i);
    }

    Res exec(
            const Op& op) override
    {
        if (op.name == "add")
        {
            h.add_command(text(op.arg(0)));
            return Res();
        }
        return of(op.name == "prev" ? h.get_previous_command() : h.get_next_command());
    }

};

// ---------------------------------------------------------------------------- pool
// Creation and destruction are observed, with whether they went through the hooks of the child pool.
struct Elem
{
    int id;
    int hook;
    static int& made()
    {
        static int n = 0;
        return n;
    }

    Elem(
            int h = 0)
        : id(++made())
        , hook(h)
    {
        conc::observe("new", {id, hook});
        hook = 0;
    }

    ~Elem()
    {
        conc::observe("del", {id, hook});
    }

};

// the hooks of IPool overridden
struct PoolA : UnboundedPool<Elem>
{
    PoolA(
            PoolConfiguration c)
        : UnboundedPool<Elem>(c)
    {
        this->initialize_vector_();
    }

    Elem* new_element_() override
    {
        return new Elem(1);
    }

    void delete_element_(
            Elem* e) override
    {
        e->hook = 1;
        delete e;
    }

    void reset_element_(
            Elem* e) override
    {
        conc::observe("reset", {e->id});
    }

};

// ... and that deletes its free elements itself, as the destructor of its base cannot use the hooks
struct PoolB : PoolA
{
    using PoolA::PoolA;
    ~PoolB()
    {
        for (auto e : this->elements_)
        {
            this->delete_element_(e);
        }
        this->elements_.clear();
    }

};

// the default hooks
struct PoolC : UnboundedPool<Elem>
{
    PoolC(
            PoolConfiguration c)
        : UnboundedPool<Elem>(c)
    {
        this->initialize_vector_();
    }

};

struct Pool : Object
{
    int k;
    IPool<Elem>* p = nullptr;
    std::vector<Elem*> lent;        // in the order they were lent

    Pool(
            int kind)
        : k(kind)
    {
        Elem::made() = 0;
    }

    Res exec(
            const Op& op) override
    {
        try
        {
            if (op.name == "mk")
            {
                PoolConfiguration pc(op.arg(0), op.arg(2), op.arg(1));
                p = k == 0 ? static_cast<IPool<Elem>*>(new PoolC(pc)) : k == 1 ? new PoolB(pc) : k == 2 ? new PoolA(pc) :
                        create_pool<Elem>(pc);
            }
            else if (op.name == "loan")
            {
                Elem* e = nullptr;
                if (!p->loan(e))
                {
                    return Res("no");
                }
                lent.push_back(e);
                return Res("val", e->id);
            }
            else if (op.name == "ret")
            {
                // the n-th element lent of those that have not been returned
                if (lent.empty())
                {
                    conc::event("C", 1, "ret", {0});
                    return Res(p->return_loan(nullptr) ? "ok" : "no");
                }
                size_t i = op.arg(0) % lent.size();
                Elem* e = lent[i];
                lent.erase(lent.begin() + i);
                conc::event("C", 1, "ret", {e->id});
                return Res(p->return_loan(e) ? "ok" : "no");
            }
            else if (op.name == "del")
            {
                delete p;
                p = nullptr;
            }
        }
        catch (const InconsistencyException&)
        {
            return Res("inconsistent");
        }
        catch (const InitializationException&)
        {
            return Res("initialization");
        }
        return Res();
    }

};

// ---------------------------------------------------------------------------- fuzzy
struct Fuzz : Object
{
    using F = Fuzzy<std::string>;
    F f[4];
    static std::string text(
            int i)
    {
        return i == 0 ? "" : "v" + std::to_string(i);
    }

    static int of(
            const std::string& s)
    {
        for (int i = 0; i < 40; i++)
        {
            if (s == text(i))
            {
                return i;
            }
        }
        return -1;
    }

    Res exec(
            const Op& op) override
    {
        const std::string& n = op.name;
        F& x = f[op.arg(0)];
        const F& cx = x;
        std::string v = text(op.arg(1));
        FuzzyLevelType l = op.arg(2);
        if (n == "new")
        {
            x = F();
        }
        else if (n == "mk")
        {
            F y(v, l);
            x = y;
        }
        else if (n == "mkd")
        {
            F y(v);
            x = std::move(y);
        }
        else if (n == "mkm")
        {
            x = F(std::move(v), l);
        }
        else if (n == "mkmd")
        {
            x = F(std::move(v));
        }
        else if (n == "asg")
        {
            x = v;
        }
        else if (n == "asgm")
        {
            x = std::move(v);
        }
        else if (n == "cp")
        {
            x = f[op.arg(1)];
        }
        else if (n == "cpc")
        {
            F y(f[op.arg(1)]);
            x = y;
        }
        else if (n == "setv")
        {
            x.set_value(v, l);
        }
        else if (n == "setvd")
        {
            x.set_value(v);
        }
        else if (n == "setl")
        {
            x.set_level(op.arg(1));
        }
        else if (n == "setld")
        {
            x.set_level();
        }
        else if (n == "unset")
        {
            x.unset();
        }
        else if (n == "ref")
        {
            x.get_reference() = v;
        }
        else if (n == "cast")
        {
            std::string& r = x;
            r = v;
        }
        else if (n == "arrow")
        {
            x->assign(v);
        }
        else if (n == "get")
        {
            std::string c = cx.operator std::string();
            return Res("val", Ints{x.is_valid(), x.is_set(), x.get_level(), of(x.get_value()), of(c), of(cx.get_reference()),
                                   of(std::string(cx->c_str()))});
        }
        else if (n == "eq")
        {
            const F& y = f[op.arg(1)];
            return Res("val", Ints{cx.operator ==(y), cx.operator !=(y)});
        }
        else if (n == "eqt")
        {
            return Res("val", Ints{cx.operator ==(v), cx.operator !=(v)});
        }
        else if (n == "lstr")
        {
            return Res("s" + cx.get_level_as_str());
        }
        else if (n == "str")
        {
            std::ostringstream os;
            os << cx;
            return Res(plain(os.str()));
        }
        else
        {
            return Res("garbage");
        }
        return Res();
    }

};

// ---------------------------------------------------------------------------- log configuration and consumer
static const char* WORDS[] = {"", "a", "b", "ab", "ba", "abc", "cab", "aab", "c\nab", "a\nb", "AB", "\nAa", "B\n\ncaab"};
static const char* PATTERNS[] = {"", "a", "ab", "^a", "b$", "^ab$", "a|c", "^b|c", "a.", "^$", "[bc]a", "^cab|^b$", "ca*b"};

static Log::Kind kind(
        int i)
{
    return i == 0 ? Log::Kind::Error : i == 1 ? Log::Kind::Warning : Log::Kind::Info;
}

struct LogCfg : Object
{
    BaseLogConfiguration c;
    std::unique_ptr<StdLogConsumer> consumer;

    static int pat(
            const std::string& s)
    {
        for (int i = 0; i < (int)(sizeof PATTERNS / sizeof *PATTERNS); i++)
        {
            if (s == PATTERNS[i])
            {
                return i;
            }
        }
        return -1;
    }

    Res exec(
            const Op& op) override
    {
        const std::string& n = op.name;
        if (n == "setv")
        {
            c.set(Fuzzy<VerbosityKind>(kind(op.arg(0)), op.arg(1)));
        }
        else if (n == "setf")
        {
            // pattern and level of Error, Warning and Info
            LogFilter f;
            for (int k = 0; k < 3; k++)
            {
                f[kind(k)] = Fuzzy<std::string>(PATTERNS[op.arg(2 * k)], op.arg(2 * k + 1));
            }
            c.set(f);
        }
        else if (n == "dump")
        {
            Ints r{(int)c.verbosity.get_value(), c.verbosity.get_level()};
            for (int k = 0; k < 3; k++)
            {
                r.push_back(pat(c.filter.at(kind(k)).get_value()));
                r.push_back(c.filter.at(kind(k)).get_level());
            }
            r.push_back(c.filter.size());
            Formatter e;
            r.push_back(c.is_valid(e));
            return Res("val", r);
        }
        else if (n == "str")
        {
            std::ostringstream os;
            os << c.filter;
            return Res(plain(os.str()));
        }
        else if (n == "strv")
        {
            std::ostringstream os;
            os << c.verbosity;
            return Res(plain(os.str()));
        }
        else if (n == "con")
        {
            consumer.reset(new StdLogConsumer(&c));
        }
        else if (n == "log")
        {
            Log::Entry e;
            e.kind = kind(op.arg(0));
            std::string cat = WORDS[op.arg(1)];
            e.message = WORDS[op.arg(2)];
            e.context.category = cat.c_str();
            e.context.function = "func";
            e.context.filename = "file";
            e.context.line = 7;
            e.timestamp = "stamp";
            std::ostringstream o, r;
            auto ob = std::cout.rdbuf(o.rdbuf());
            auto rb = std::cerr.rdbuf(r.rdbuf());
            consumer->Consume(e);
            std::cout.rdbuf(ob);
            std::cerr.rdbuf(rb);
            auto whole = [&](const std::string& s)
                    {
                        // number of lines of this entry, -1: something else
                        size_t lines = std::count(s.begin(), s.end(), '\n') - std::count(cat.begin(), cat.end(), '\n') -
                                std::count(e.message.begin(), e.message.end(), '\n');
                        if (s.empty())
                        {
                            return 0;
                        }
                        for (auto& w : {e.timestamp, cat, e.message, std::string("func")})
                        {
                            if (s.find(w) == std::string::npos)
                            {
                                return -1;
                            }
                        }
                        return s.back() == '\n' ? (int)lines : -1;
                    };
            return Res("val", Ints{whole(o.str()), whole(r.str())});
        }
        else
        {
            return Res("garbage");
        }
        return Res();
    }

};

// ---------------------------------------------------------------------------- tree
struct Info
{
    int v = 0;
    Info() = default;
    Info(
            int x)
        : v(x)
    {
    }

    Info(
            int x,
            int y)
        : v(x * 10 + y)
    {
    }

    Info(
            const Info& o) = default;
    Info& operator =(
            const Info& o) = default;
    Info(
            Info&& o)
        : v(o.v)
    {
        o.v = -1;
    }

    Info& operator =(
            Info&& o)
    {
        v = o.v;
        o.v = -1;
        return *this;
    }

};

struct Tree : Object
{
    using N = TreeNode<Info>;
    N n[4];
    static void dump(
            const N& x,
            Ints& r)
    {
        r.push_back(x.info.v);
        r.push_back(x.branches().size());
        for (auto& b : x.branches())
        {
            dump(b, r);
        }
    }

    Res exec(
            const Op& op) override
    {
        const std::string& o = op.name;
        N& x = n[op.arg(0)];
        const N& cx = x;
        Info i(op.arg(1));
        const Info ci(op.arg(1));
        if (o == "mk")
        {
            x = N(ci);
        }
        else if (o == "mkm")
        {
            N y(std::move(i));
            x = y;
        }
        else if (o == "mk2")
        {
            x = N(op.arg(1), op.arg(2));
        }
        else if (o == "mk0")
        {
            x = N();
        }
        else if (o == "addi")
        {
            x.add_branch(ci);
            if (ci.v != op.arg(1))
            {
                return Res("garbage");
            }
        }
        else if (o == "addim")
        {
            x.add_branch(std::move(i));
        }
        else if (o == "addn")
        {
            const N& y = n[op.arg(1)];
            x.add_branch(y);
        }
        else if (o == "addm")
        {
            x.add_branch(std::move(n[op.arg(1)]));
            n[op.arg(1)] = N();
        }
        else if (o == "cp")
        {
            const N& y = n[op.arg(1)];
            x = y;
        }
        else if (o == "seti")
        {
            x.info.v = op.arg(1);
        }
        else if (o == "dump")
        {
            Ints r;
            dump(cx, r);
            return Res("val", r);
        }
        else if (o == "leaf")
        {
            return Res("val", cx.leaf());
        }
        else if (o == "depth")
        {
            return Res("val", (int)cx.depth());
        }
        else if (o == "all")
        {
            // the descendants, each of them whole, in order
            std::vector<Ints> rs;
            for (auto& y : cx.all_nodes())
            {
                Ints r;
                dump(y, r);
                rs.push_back(r);
            }
            std::sort(rs.begin(), rs.end());
            Ints r{(int)rs.size()};
            for (auto& q : rs)
            {
                r.insert(r.end(), q.begin(), q.end());
            }
            return Res("val", r);
        }
        else
        {
            return Res("garbage");
        }
        return Res();
    }

};

// ---------------------------------------------------------------------------- timers
struct Time : Object
{
    std::unique_ptr<Timer> t;
    PausableTimer* p = nullptr;
    Time(
            int k)
    {
        if (k == 2)
        {
            t.reset(new Timer());
        }
        else
        {
            t.reset(p = new PausableTimer(k == 1));
        }
    }

    Res exec(
            const Op& op) override
    {
        const std::string& n = op.name;
        if (n == "sleep")
        {
            std::this_thread::sleep_for(std::chrono::microseconds(op.arg(0)));
        }
        else if (n == "play" && p)
        {
            p->play();
        }
        else if (n == "pause" && p)
        {
            p->pause();
        }
        else if (n == "playing" && p)
        {
            return Res("val", p->playing());
        }
        else if (n == "reset")
        {
            t->reset();
        }
        else if (n == "el")
        {
            return Res("val", (int)(t->elapsed() * 1000 + 0.5));
        }
        else if (n == "elms")
        {
            return Res("val", (int)t->elapsed_ms());
        }
        else
        {
            return Res("garbage");
        }
        return Res();
    }

};

struct World
{
    std::unique_ptr<Object> o;
    World(
            const conc::Program& p)
    {
        const std::string& k = p.kind;
        if (k == "hist")
        {
            o.reset(new Hist());
        }
        else if (k == "pool")
        {
            o.reset(new Pool(p.init[0]));
        }
        else if (k == "fuzzy")
        {
            o.reset(new Fuzz());
        }
        else if (k == "log")
        {
            o.reset(new LogCfg());
        }
        else if (k == "tree")
        {
            o.reset(new Tree());
        }
        else
        {
            o.reset(new Time(p.init[0]));
        }
    }

    bool quiet(
            const Op& op)
    {
        return dynamic_cast<Pool*>(o.get()) && op.name == "ret";
    }

    Res exec(
            int,
            const Op& op)
    {
        Res r = o->exec(op);
        if (quiet(op))
        {
            conc::event("R", 1, r.tag, r.v);
        }
        return r;
    }

    void finish()
    {
        if (dynamic_cast<Pool*>(o.get()))
        {
            conc::event("C", 0, "del");
            exec(0, Op{"del", {}});
            conc::event("R", 0, "ok");
        }
    }

};

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
