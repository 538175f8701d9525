// CommandReader: the terminal is played by the harness.
#include "terminal.hpp"

#include <cpp_utils/user_interface/CommandReader.hpp>

using namespace eprosima::utils;
using conc::Op;
using conc::Res;

enum class Cmd
{
    none = 7,
    one = 1,
    two = 2,
    three = 3
};

static EnumBuilder<Cmd> builder(
        int b)
{
    using M = std::map<Cmd, std::set<std::string>>;
    switch (b)
    {
        case 0:
            return EnumBuilder<Cmd>(M{{Cmd::one, {"a"}}, {Cmd::two, {"b", "ab"}}});
        case 1:
            return EnumBuilder<Cmd>(M{{Cmd::one, {"", "a b"}}, {Cmd::two, {"bb"}}, {Cmd::three, {"A"}}});
        case 2:
            return EnumBuilder<Cmd>(M{});
        default:
            // (from the keywords to the commands)
            return EnumBuilder<Cmd>(std::map<std::string, Cmd>{{"aa", Cmd::one}, {"a", Cmd::two}, {"\"", Cmd::two},
                                                             {"b", Cmd::three}, {" ", Cmd::three}, {" a", Cmd::three}});
    }
}

struct World
{
    CommandReader<Cmd>* c = nullptr;
    bool deleted = false;

    // init: builder
    World(
            const conc::Program& p)
    {
        {
            vs::NoTrace nt;
            static NullBuf* nb = new NullBuf();
            std::cout.rdbuf(nb);
            delete keys;
            keys = new std::deque<int>();
            reading = false;
            width = 80;
            memset(&original, 0, sizeof original);
            original.c_lflag = ICANON | ECHO | ISIG | IEXTEN;
            terminal = original;
        }
        c = new CommandReader<Cmd>(builder(p.init[0]));
    }

    bool quiet(
            const Op&)
    {
        return false;
    }

    Res exec(
            int,
            const Op& op)
    {
        const std::string& n = op.name;
        if (n == "read")
        {
            Command<Cmd> x;
            x.command = Cmd::none;
            bool ok = c->read_next_command(x);
            vs::NoTrace nt;
            std::vector<int> v{ok ? (int)x.command : 0};
            for (auto& a : x.arguments)
            {
                v.push_back((int)a.size());
                for (unsigned char ch : a)
                {
                    v.push_back(ch);
                }
            }
            return Res("cmd", v);
        }
        else if (n == "more")
        {
            c->stdin_handler().read_one_more_line();
        }
        else if (n == "ign")
        {
            c->stdin_handler().set_ignore_input(op.arg(0));
        }
        else if (n == "key")
        {
            vs::NoTrace nt;
            for (int k : op.a)
            {
                keys->push_back(k);
            }
        }
        else if (n == "del")
        {
            deleted = true;
            delete c;
        }
        return Res();
    }

    void finish()
    {
        // if it is reading a line, it cannot be stopped before the line ends
        if (!deleted)
        {
            conc::event("C", 0, "key", {10});
            {
                vs::NoTrace nt;
                keys->push_back(10);
            }
            conc::event("R", 0, "ok");
            conc::event("C", 0, "del");
            delete c;
            conc::event("R", 0, "ok");
        }
    }

};

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
