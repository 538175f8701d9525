// RandomManager and TSafeRandomManager.
#include "conc.hpp"

#include <cpp_utils/math/random/RandomManager.hpp>
#include <cpp_utils/math/random/TSafeRandomManager.hpp>

using namespace eprosima::utils;
using conc::Op;
using conc::Res;

static unsigned seed_of(
        int s)
{
    return s == 9 ? 0xffffffffu : s == 8 ? 0x80000000u : s;
}

// the numbers of a manager that is asked for nothing else
struct Names
{
    std::map<unsigned, std::vector<int>> seq[10];
    unsigned seeded[10];
    Names()
    {
        for (int s = 0; s < 10; s++)
        {
            RandomManager m(seed_of(s));
            for (int i = 1; i <= 40; i++)
            {
                seq[s].insert({m.sequence_rand(), {s, i}});
            }
            RandomManager m2;
            seeded[s] = m2.seeded_rand(seed_of(s));
        }
    }

    Res of_seq(
            unsigned x)
    {
        for (auto& m : seq)
        {
            auto i = m.find(x);
            if (i != m.end())
            {
                return Res("val", i->second);
            }
        }
        return Res("unknown");
    }

    Res of_seeded(
            unsigned x,
            int s)
    {
        return x == seeded[s] ? Res("val", std::vector<int>{s, 0}) : Res("unknown");
    }

};

static Names& names()
{
    static Names* n = new Names();
    return *n;
}

struct World
{
    RandomManager* m = nullptr;
    TSafeRandomManager* s = nullptr;

    World(
            const conc::Program& p)
    {
        if (p.kind == "rm")
        {
            m = p.init.empty() ? new RandomManager() : new RandomManager(seed_of(p.init[0]));
        }
        else
        {
            s = p.init.empty() ? new TSafeRandomManager() : new TSafeRandomManager(seed_of(p.init[0]));
        }
    }

    bool quiet(
            const Op&)
    {
        return false;
    }

    template <typename M>
    Res call(
            M& m,
            const Op& op)
    {
        const std::string& n = op.name;
        int a = op.arg(0);
        if (n == "seq")
        {
            unsigned x = m.sequence_rand();
            vs::NoTrace nt;
            return names().of_seq(x);
        }
        else if (n == "rand")
        {
            unsigned x = m.template rand<>();
            vs::NoTrace nt;
            return names().of_seq(x);
        }
        else if (n == "seed")
        {
            m.seed(seed_of(a));
        }
        else if (n == "seeded" || n == "rands")
        {
            unsigned x = n == "seeded" ? m.seeded_rand(seed_of(a)) : m.rand(seed_of(a));
            vs::NoTrace nt;
            return names().of_seeded(x, a);
        }
        else if (n == "pure")
        {
            m.pure_rand();
        }
        else if (n == "randp")
        {
            m.template rand<true>();
        }
        return Res();
    }

    Res exec(
            int,
            const Op& op)
    {
        return m ? call(*m, op) : call(*s, op);
    }

    void finish()
    {
        delete m;
        delete s;
    }

};

int main(
        int argc,
        char** argv)
{
    names();
    return conc::conc_main<World>(argc, argv);
}
