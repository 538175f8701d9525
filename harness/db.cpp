// SafeDatabase and its iterators.
#include "conc.hpp"

#include <algorithm>
#include <stdexcept>

#include <cpp_utils/collection/database/SafeDatabase.hpp>

using namespace eprosima::utils;
using conc::Op;
using conc::Res;

// an integer that shows when it has been moved from and when it has been destroyed
struct Int
{
    int* p;
    Int()
        : p(new int(-3))
    {
    }

    explicit Int(
            int x)
        : p(new int(x))
    {
    }

    Int(
            const Int& o)
        : p(new int(*o.p))
    {
    }

    Int(
            Int&& o)
        : p(o.p)
    {
        o.p = new int(-2);
    }

    Int& operator =(
            const Int& o)
    {
        *p = *o.p;
        return *this;
    }

    Int& operator =(
            Int&& o)
    {
        std::swap(p, o.p);
        return *this;
    }

    ~Int()
    {
        *p = -9;
        delete p;
    }

    bool operator <(
            const Int& o) const
    {
        return *p < *o.p;
    }

    operator int() const
    {
        return *p;
    }

};

struct World
{
    using Db = SafeDatabase<Int, Int>;
    using It = SafeDatabaseIterator<Int, Int>;
    Db* db = new Db();
    It* it[6] = {};
    std::atomic<bool> flag[8] = {};

    World(
            const conc::Program&)
    {
    }

    bool quiet(
            const Op& op)
    {
        return op.name == "flag" || op.name == "await";
    }

    void await(
            int i)
    {
        std::atomic<bool>* f = &flag[i];
        vs::block_until([f]()
                {
                    vs::NoTrace nt;
                    return f->load();
                });
        f->load();
    }

    void set(
            int i,
            It* x)
    {
        delete it[i];
        it[i] = x;
    }

    Res exec(
            int,
            const Op& op)
    {
        const std::string& n = op.name;
        int a = op.arg(0), b = op.arg(1);
        const Int ca(a), cb(b);
        if (n == "add")
        {
            return Res("val", db->add(Int(a), Int(b)));
        }
        else if (n == "addc")
        {
            bool r = db->add(ca, cb);
            return ca == a && cb == b ? Res("val", r) : Res("source changed");
        }
        else if (n == "mod")
        {
            return Res("val", db->modify(ca, Int(b)));
        }
        else if (n == "aom")
        {
            return Res("val", db->add_or_modify(Int(a), Int(b)));
        }
        else if (n == "aomc")
        {
            bool r = db->add_or_modify(ca, cb);
            return ca == a && cb == b ? Res("val", r) : Res("source changed");
        }
        else if (n == "erase")
        {
            return Res("val", db->erase(ca));
        }
        else if (n == "is")
        {
            return Res("val", db->is(ca));
        }
        else if (n == "val")
        {
            try
            {
                return Res("val", (int)db->at(ca));
            }
            catch (const std::out_of_range&)
            {
                return Res("range");
            }
        }
        else if (n == "size")
        {
            return Res("val", (int)db->size());
        }
        else if (n == "walk")
        {
            std::vector<int> r;
            if (a)
            {
                for (const auto& e : *db)
                {
                    r.push_back(e.first);
                    r.push_back(e.second);
                }
            }
            else
            {
                for (auto i = db->begin(); i != db->end(); ++i)
                {
                    r.push_back(i->first);
                    r.push_back(i->second);
                }
            }
            return Res("val", r);
        }
        else if (n == "count")
        {
            // (the algorithms of the standard library copy the iterators)
            It first = db->begin();
            It last = db->end();
            return Res("val", (int)std::count_if(first, last, [a](const std::pair<const Int, Int>& e)
                           {
                               return e.second >= a;
                           }));
        }
        else if (n == "begin")
        {
            set(a, new It(db->begin()));
        }
        else if (n == "end")
        {
            set(a, new It(db->end()));
        }
        else if (n == "find")
        {
            set(a, new It(db->find(cb)));
        }
        else if (n == "copy")
        {
            set(b, it[a] ? new It(*it[a]) : nullptr);
        }
        else if (n == "move")
        {
            set(b, it[a] ? new It(std::move(*it[a])) : nullptr);
        }
        else if (n == "drop")
        {
            set(a, nullptr);
        }
        else if (n == "next")
        {
            if (!it[a] || *it[a] == db->end())
            {
                return Res("none");
            }
            ++*it[a];
        }
        else if (n == "prev")
        {
            if (!it[a] || *it[a] == db->begin())
            {
                return Res("none");
            }
            --*it[a];
        }
        else if (n == "deref")
        {
            if (!it[a])
            {
                return Res("none");
            }
            if (*it[a] == db->end())
            {
                return Res("end");
            }
            const It& i = *it[a];
            return Res("val", std::vector<int>{i->first, (*i).second});
        }
        else if (n == "same")
        {
            return it[a] && it[b] ? Res("val", *it[a] == *it[b]) : Res("none");
        }
        else if (n == "flag")
        {
            flag[a].store(true);
        }
        else if (n == "await")
        {
            await(a);
        }
        return Res();
    }

    void finish()
    {
        for (int i = 0; i < 6; i++)
        {
            std::string n = "drop:" + std::to_string(i);
            run(n.c_str());
        }
        run("aom:9:9 walk");
        delete db;
    }

    void run(
            const char* line)
    {
        for (auto& op : conc::parse_ops(line))
        {
            conc::event("C", 0, op.name, op.a);
            Res r = exec(0, op);
            conc::event("R", 0, r.tag, r.v);
        }
    }

};

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
