// FileWatcherHandler over the real FileWatch: the file system (stat, inotify) is played by the harness.
#include "conc.hpp"

#include <deque>
#include <fcntl.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <cpp_utils/event/FileWatcherHandler.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using conc::Op;
using conc::Res;

static const char* DIR = "/watched/";
static const int FD = 900000;

struct Ev
{
    uint32_t mask;
    std::string name;
    bool operator ==(
            const Ev& o) const
    {
        return mask == o.mask && name == o.name;
    }

};

struct Instance
{
    bool open = true, watch = false;
    uint32_t mask = 0;
    std::deque<Ev> q;
};

static std::deque<Instance>* fs = nullptr;      // inotify instances
static int path_kind = 0;                       // 0: a file, 1: a directory, 2: nothing
static std::atomic<int> kernel{0};              // orders what happened before a change and after it is read

static Instance* instance(
        int fd)
{
    return fs && fd >= FD && fd < FD + (int)fs->size() ? &(*fs)[fd - FD] : nullptr;
}

// a change in the directory
static void change(
        uint32_t mask,
        const std::string& name)
{
    kernel.fetch_add(1);
    vs::NoTrace nt;
    for (auto& i : *fs)
    {
        if (i.open && i.watch && (i.mask & mask))
        {
            Ev e{mask, name};
            if (i.q.empty() || !(i.q.back() == e))      // as the kernel does
            {
                i.q.push_back(e);
            }
        }
    }
}

extern "C" {

int stat(
        const char* p,
        struct stat* s) noexcept
{
    if (strncmp(p, DIR, strlen(DIR)))
    {
        return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
    }
    if (path_kind == 2)
    {
        errno = ENOENT;
        return -1;
    }
    memset(s, 0, sizeof *s);
    s->st_mode = path_kind == 1 ? S_IFDIR | 0755 : S_IFREG | 0644;
    return 0;
}

int inotify_init(
        void) noexcept
{
    vs::NoTrace nt;
    fs->emplace_back();
    return FD + (int)fs->size() - 1;
}

int inotify_init1(
        int) noexcept
{
    return inotify_init();
}

int inotify_add_watch(
        int fd,
        const char* p,
        uint32_t mask) noexcept
{
    {
        vs::NoTrace nt;
        Instance* i = instance(fd);
        // the directory, or the file itself
        if (!i || strncmp(p, DIR, strlen(DIR)))
        {
            errno = ENOENT;
            return -1;
        }
        i->watch = true;
        i->mask = mask;
    }
    vs::point();
    return 1;
}

int inotify_rm_watch(
        int fd,
        int) noexcept
{
    {
        vs::NoTrace nt;
        Instance* i = instance(fd);
        if (!i || !i->watch)
        {
            errno = EINVAL;
            return -1;
        }
        i->watch = false;
        i->q.push_back(Ev{IN_IGNORED, ""});
    }
    vs::point();
    return 0;
}

ssize_t read(
        int fd,
        void* b,
        size_t n)
{
    Instance* i = instance(fd);
    if (!i)
    {
        return syscall(SYS_read, fd, b, n);
    }
    vs::block_until([i]()
            {
                vs::NoTrace nt;
                return !i->q.empty() || !i->open;
            });
    kernel.load();
    vs::NoTrace nt;
    if (!i->open)
    {
        errno = EBADF;
        return -1;
    }
    char* p = (char*)b;
    size_t used = 0;
    while (!i->q.empty())
    {
        const Ev& e = i->q.front();
        size_t len = e.name.empty() ? 0 : (e.name.size() / 16 + 1) * 16;
        if (used + sizeof(inotify_event) + len > n)
        {
            break;
        }
        inotify_event x{};
        x.wd = 1;
        x.mask = e.mask;
        x.len = (uint32_t)len;
        memcpy(p + used, &x, sizeof x);
        memset(p + used + sizeof x, 0, len);
        memcpy(p + used + sizeof x, e.name.data(), e.name.size());
        used += sizeof x + len;
        i->q.pop_front();
    }
    return (ssize_t)used;
}

int close(
        int fd)
{
    Instance* i = instance(fd);
    if (!i)
    {
        return (int)syscall(SYS_close, fd);
    }
    vs::NoTrace nt;
    i->open = false;
    return 0;
}

}

// std::future waits with futexes of its own
namespace std {
struct __atomic_futex_unsigned_base_;
}
extern "C" bool futex_wait_(
        void*,
        unsigned* addr,
        unsigned val,
        bool,
        long,
        long) asm ("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool futex_wait_(
        void*,
        unsigned* addr,
        unsigned val,
        bool,
        long,
        long)
{
    vs::block_until([addr, val]()
            {
                vs::NoTrace nt;
                return *(volatile unsigned*)addr != val;
            });
    return true;
}

extern "C" void futex_notify_(
        unsigned*) asm ("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
void futex_notify_(
        unsigned*)
{
}

struct World
{
    FileWatcherHandler* h = nullptr;
    std::string* path;
    std::atomic<bool> flag[8] = {};

    // init: what the path names (0 a file, 1 a directory, 2 nothing)
    World(
            const conc::Program& p)
    {
        {
            vs::NoTrace nt;
            fs = new std::deque<Instance>();
            path_kind = p.init.empty() ? 0 : p.init[0];
            path = new std::string(path_kind == 1 ? "/watched/dir" : "/watched/f1");
        }
    }

    bool quiet(
            const Op& op)
    {
        return op.name == "flag" || op.name == "await";
    }

    void await(
            int i)
    {
        std::atomic<bool>* f = &flag[i];
        vs::block_until([f]()
                {
                    vs::NoTrace nt;
                    return f->load();
                });
        f->load();
    }

    // behaviours: 0 nothing, 2 waits for flag 1, 4 counts
    std::function<void(std::string)> callback(
            int k,
            int b)
    {
        return [this, k, b](std::string s)
               {
                   int x = 0;
                   {
                       vs::NoTrace nt;
                       auto p = s.rfind('/');
                       std::string base = p == std::string::npos ? s : s.substr(p + 1);
                       x = base.size() >= 2 && base[0] == 'f' ? atoi(base.c_str() + 1) : 0;
                   }
                   conc::observe("cb", {k, x});
                   vs::point();
                   if (b == 2)
                   {
                       await(1);
                   }
                   else if (b == 4)
                   {
                       conc::event("C", 50, "count");
                       int c = h->event_count();
                       conc::event("R", 50, "val", {c});
                   }
                   vs::point();
                   conc::observe("cbe", {k, x});
               };
    }

    Res exec(
            int,
            const Op& op)
    {
        const std::string& n = op.name;
        if (n == "mod" || n == "new" || n == "rm" || n == "touch" || n == "mv")
        {
            std::string f;
            {
                vs::NoTrace nt;
                f = op.arg(0) == 11 ? "f1x" : op.arg(0) == 12 ? "xf1" : "f" + std::to_string(op.arg(0));
            }
            change(n == "mod" ? IN_MODIFY : n == "new" ? IN_CREATE : n == "rm" ? IN_DELETE :
                    n == "mv" ? IN_MOVED_FROM : IN_ATTRIB, f);
            vs::point();
        }
        else if (n == "mk")
        {
            h = new FileWatcherHandler(*path);
        }
        else if (n == "mkc")
        {
            h = new FileWatcherHandler(callback(op.arg(0), op.arg(1)), *path);
        }
        else if (n == "set")
        {
            h->set_callback(callback(op.arg(0), op.arg(1)));
        }
        else if (n == "unset")
        {
            h->unset_callback();
        }
        else if (n == "hdel")
        {
            delete h;
            h = nullptr;
        }
        else if (n == "count")
        {
            return Res("val", (int)h->event_count());
        }
        else if (n == "wait")
        {
            return Res("val", h->wait_for_event(op.arg(0)) ? 1 : 0);
        }
        else if (n == "flag")
        {
            flag[op.arg(0)].store(true);
        }
        else if (n == "await")
        {
            await(op.arg(0));
        }
        return Res();
    }

    void run(
            const char* line)
    {
        for (auto& op : conc::parse_ops(line))
        {
            conc::event("C", 0, op.name, op.a);
            Res r = exec(0, op);
            conc::event("R", 0, r.tag, r.v);
        }
    }

    void finish()
    {
        vs::sleep_until_ms(vs::now_ns() / 1000000 + 1000);      // when nothing else can happen
        conc::observe("settled");
        if (h)
        {
            run("count hdel");
        }
        run("mod:1");
        vs::NoTrace nt;
        int open = 0;
        for (auto& i : *fs)
        {
            open += i.open && path_kind != 2;
        }
        conc::observe("open", {open});
    }

};

int main(
        int argc,
        char** argv)
{
    return conc::conc_main<World>(argc, argv);
}
