// StdinEventHandler: the terminal (keys, width, modes) is played by the harness.
#include "terminal.hpp"

#include <cpp_utils/event/StdinEventHandler.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using conc::Op;
using conc::Res;

struct World
{
    StdinEventHandler* h = nullptr;
    bool deleted = false;
    int lines;

    // init: lines to read, width of the terminal (-1: none)
    World(
            const conc::Program& p)
    {
        vs::NoTrace nt;
        static NullBuf* nb = new NullBuf();
        std::cout.rdbuf(nb);
        delete keys;
        keys = new std::deque<int>();
        reading = false;
        lines = p.init[0];
        width = p.init[1];
        memset(&original, 0, sizeof original);
        original.c_lflag = ICANON | ECHO | ISIG | IEXTEN;
        original.c_iflag = ICRNL;
        terminal = original;
    }

    bool quiet(
            const Op&)
    {
        return false;
    }

    void callback(
            int k,
            const std::string& s)
    {
        {
            vs::NoTrace nt;
            std::vector<int> v{k};
            for (char c : s)
            {
                v.push_back((unsigned char)c);
            }
            conc::observe("line", v);
        }
        vs::point();
        conc::observe("end", {k});
    }

    Res exec(
            int,
            const Op& op)
    {
        const std::string& n = op.name;
        if (n == "set")
        {
            int k = op.arg(0);
            auto f = [this, k](std::string s)
                    {
                        callback(k, s);
                    };
            if (h)
            {
                h->set_callback(f);
            }
            else
            {
                h = new StdinEventHandler(f, true, lines);
            }
        }
        else if (n == "unset")
        {
            h->unset_callback();
        }
        else if (n == "more")
        {
            h->read_one_more_line();
        }
        else if (n == "ign")
        {
            h->set_ignore_input(op.arg(0));
        }
        else if (n == "isign")
        {
            return Res("val", h->is_ignoring_input() ? 1 : 0);
        }
        else if (n == "count")
        {
            return Res("val", (int)h->event_count());
        }
        else if (n == "key")
        {
            vs::NoTrace nt;
            for (int c : op.a)
            {
                keys->push_back(c);
            }
        }
        else if (n == "settle")
        {
            // until the thread of the handler has nothing to do
            vs::sleep_until_ms(vs::now_ns() / 1000000 + 10);
        }
        else if (n == "del")
        {
            deleted = true;
            delete h;
        }
        return Res();
    }

    void finish()
    {
        // if it is reading a line, it cannot be stopped before the line ends
        if (!deleted)
        {
            conc::event("C", 0, "key", {10});
            {
                vs::NoTrace nt;
                keys->push_back(10);
            }
            conc::event("R", 0, "ok");
        }
        if (!deleted && h)
        {
            conc::event("C", 0, "del");
            delete h;
            conc::event("R", 0, "ok");
        }
    }

};

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
