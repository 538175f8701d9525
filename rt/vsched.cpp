// See vsched.hpp.  This file is compiled WITHOUT -fsanitize=thread.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.hpp"

#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <map>
#include <new>
#include <malloc.h>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);

namespace vs {

// containers of the scheduler do not go through the checked operator new
template <typename T>
struct RtAlloc
{
    typedef T value_type;
    RtAlloc() = default;
    template <typename U>
    RtAlloc(
            const RtAlloc<U>&)
    {
    }

    T* allocate(
            size_t n)
    {
        return (T*)__libc_malloc(n * sizeof(T));
    }

    void deallocate(
            T* p,
            size_t)
    {
        __libc_free(p);
    }

    template <typename U>
    bool operator ==(
            const RtAlloc<U>&) const
    {
        return true;
    }

    template <typename U>
    bool operator !=(
            const RtAlloc<U>&) const
    {
        return false;
    }

};
template <typename T>
using Vec = std::vector<T, RtAlloc<T>>;
template <typename V>
using PMap = std::unordered_map<const void*, V, std::hash<const void*>, std::equal_to<const void*>,
                RtAlloc<std::pair<const void* const, V>>>;

// ------------------------------------------------------------------------------------------------ fibers
static const int MAXF = 40;
static const size_t STACK = 256 * 1024;

typedef Vec<uint32_t> VC;
static void join_vc(
        VC& a,
        const VC& b)
{
    if (a.size() < b.size())
    {
        a.resize(b.size(), 0);
    }
    for (size_t i = 0; i < b.size(); i++)
    {
        if (b[i] > a[i])
        {
            a[i] = b[i];
        }
    }
}

enum State { READY, BLOCKED, FINISHED };
enum Why { W_NONE, W_MUTEX, W_RD, W_WR, W_COND, W_JOIN, W_SLEEP, W_PRED, W_GUARD };

struct Fiber
{
    int id = 0;
    ucontext_t ctx;
    char* stack = nullptr;
    State st = FINISHED;
    Why why = W_NONE;
    const void* obj = nullptr;
    const void* obj2 = nullptr;     // mutex of a condition wait
    int64_t deadline = -1;          // -1: none
    bool timed_out = false;
    bool notified = false;
    std::function<bool()> pred;
    void* (*start)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    bool joined = false, detached = false;
    std::string label;
    VC vc;
    char eh[16];
    bool by_go = false;
    int notrace = 0;
    int cond_waits = 0;
    VC wait_vc;                     // clock when it entered its last condition wait
};

struct MutexS
{
    int owner = -1;
    int count = 0;
    VC vc;
};
struct RwS
{
    int writer = -1;
    std::map<int, int, std::less<int>, RtAlloc<std::pair<const int, int>>> readers;
    VC vc, rvc;
};
struct CondS
{
    Vec<int> waiters;       // FIFO
};
struct AtomS
{
    VC vc;
};
struct GuardS
{
    int owner = -1;
    VC vc;
};

struct Decision
{
    Vec<int> cost;          // cost of every option
    int chosen;
    int cost_before;
};

static Fiber F[MAXF];
static int nfib = 0;
static int cur = -1;                // -1: not inside an execution
static ucontext_t main_ctx;
static jmp_buf crash_jmp;
static bool in_run = false;
static bool stopping = false;
static int64_t vtime = 0;
static Options opt;
static Execution* ex = nullptr;
static long steps = 0, total_points = 0;
static long consecutive = 0;
static long alone = 0;
static long more_steps = 0;        // allowed for the operations begun
static int spurious_used = 0;

static PMap<MutexS>* mutexes;
static PMap<RwS>* rws;
static PMap<CondS>* conds;
static PMap<AtomS>* atoms;
static PMap<GuardS>* guards;
static PMap<VC>* misc_vc;

// strategy
enum Mode { DFS, RANDOM, REPLAY };
static Mode mode;
static Vec<Decision>* trail;    // DFS
static size_t pos;
static int cost_used;
static const std::vector<int>* script;
static std::mt19937_64* rng;
static double p_switch;

static int64_t REAL_BASE = 1700000000LL * 1000000000LL;   // virtual epoch

// ------------------------------------------------------------------------------------------------ shadow memory
struct Rec
{
    uint8_t tid, mask, write, used;
    uint32_t clk;
};
struct Cell
{
    uintptr_t g;        // granule address, 0 = empty
    uint32_t gen;
    uint8_t freed, next;
    Rec r[4];
};
static Cell* cells;
static size_t NCELL = 1 << 16;
static uint32_t gen = 1;
static size_t ncell_used = 0;

static Cell* cell(
        uintptr_t g,
        bool create)
{
    for (;;)
    {
        size_t h = (g * 0x9E3779B97F4A7C15ull) >> 40;
        size_t i = h & (NCELL - 1);
        for (;;)
        {
            Cell& c = cells[i];
            if (c.gen != gen)
            {
                if (!create)
                {
                    return nullptr;
                }
                if (ncell_used * 2 > NCELL)
                {
                    break;
                }
                ncell_used++;
                memset(&c, 0, sizeof(c));
                c.gen = gen;
                c.g = g;
                return &c;
            }
            if (c.g == g)
            {
                return &c;
            }
            i = (i + 1) & (NCELL - 1);
        }
        // grow
        size_t old = NCELL;
        Cell* oc = cells;
        NCELL *= 2;
        cells = (Cell*)calloc(NCELL, sizeof(Cell));
        for (size_t k = 0; k < old; k++)
        {
            if (oc[k].gen == gen)
            {
                size_t j = ((oc[k].g * 0x9E3779B97F4A7C15ull) >> 40) & (NCELL - 1);
                while (cells[j].gen == gen)
                {
                    j = (j + 1) & (NCELL - 1);
                }
                cells[j] = oc[k];
            }
        }
        free(oc);
    }
}

static void switch_to_main_forever()
{
    stopping = true;
    swapcontext(&F[cur].ctx, &main_ctx);
    abort();
}

void fail(
        const std::string& kind,
        const std::string& detail)
{
    if (!in_run || stopping)
    {
        fprintf(stderr, "vs::fail outside: %s %s\n", kind.c_str(), detail.c_str());
        _exit(97);
    }
    ex->outcome = kind;
    ex->detail = detail;
    switch_to_main_forever();
}

static void range_clear(
        const void* p,
        size_t n)
{
    uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + n;
    for (; a < e; a += 8)
    {
        Cell* c = cell(a, false);
        if (c)
        {
            memset(c->r, 0, sizeof(c->r));
            c->freed = 0;
        }
    }
}

static inline bool tracing()
{
    return in_run && cur >= 0 && !stopping && F[cur].notrace == 0;
}

static void access(
        const void* p,
        size_t n,
        bool write,
        bool is_free = false)
{
    if (!tracing())
    {
        return;
    }
    uintptr_t a = (uintptr_t)p;
    uintptr_t end = a + n;
    Fiber& f = F[cur];
    while (a < end)
    {
        uintptr_t g = a & ~7ull;
        uintptr_t ge = std::min(end, g + 8);
        uint8_t mask = 0;
        for (uintptr_t x = a; x < ge; x++)
        {
            mask |= 1u << (x - g);
        }
        Cell* c = cell(g, true);
        if (c->freed)
        {
            fail("uaf", std::string(write ? "write to" : "read of") + " freed memory by thread " +
                    std::to_string(cur) + " (" + f.label + ")");
        }
        if (opt.detect_races)
        {
            int same = -1;
            for (int i = 0; i < 4; i++)
            {
                Rec& r = c->r[i];
                if (!r.used || !(r.mask & mask))
                {
                    continue;
                }
                if (r.tid == cur)
                {
                    if (r.mask == mask && r.write == (write ? 1 : 0))
                    {
                        same = i;
                    }
                    continue;
                }
                if ((r.write || write) && (r.tid >= f.vc.size() || f.vc[r.tid] < r.clk))
                {
                    fail("race", std::string(is_free ? "free" : write ? "write" : "read") + " by thread " +
                            std::to_string(cur) + " (" + f.label + ") unordered with " +
                            (r.write ? "write" : "read") + " by thread " + std::to_string(r.tid) +
                            " (" + F[r.tid].label + ")");
                }
            }
            if (same < 0)
            {
                for (int i = 0; i < 4 && same < 0; i++)
                {
                    if (!c->r[i].used)
                    {
                        same = i;
                    }
                }
                if (same < 0)
                {
                    // evict a record of this thread or ordered before; else round robin
                    for (int i = 0; i < 4 && same < 0; i++)
                    {
                        Rec& r = c->r[i];
                        if (r.tid == cur && !(r.write && !write))
                        {
                            same = i;
                        }
                    }
                    for (int i = 0; i < 4 && same < 0; i++)
                    {
                        Rec& r = c->r[i];
                        if (!r.write && r.tid < f.vc.size() && f.vc[r.tid] >= r.clk)
                        {
                            same = i;
                        }
                    }
                    if (same < 0)
                    {
                        same = c->next++ & 3;
                    }
                }
            }
            Rec& r = c->r[same];
            r.tid = (uint8_t)cur;
            r.mask = mask;
            r.write = write;
            r.used = 1;
            r.clk = f.vc[cur];
        }
        a = ge;
    }
}

// ------------------------------------------------------------------------------------------------ scheduling
struct Opt
{
    int kind;   // 0 run, 1 fire timeout (then run when possible), 2 spurious wake-up
    int fib;
};
static Vec<Opt> o;

static void eh_swap(
        Fiber* from,
        Fiber* to)
{
    void* g = abi::__cxa_get_globals();
    if (from)
    {
        memcpy(from->eh, g, 16);
    }
    if (to)
    {
        memcpy(g, to->eh, 16);
    }
}

static Vec<int> z, cost, others;

static int pick(
        const Vec<int>& cost)
{
    // cost.size() > 1
    total_points++;
    int n = (int)cost.size();
    int c = 0;
    if (mode == DFS)
    {
        if (pos < trail->size())
        {
            c = (*trail)[pos].chosen;
            if ((*trail)[pos].cost.size() != cost.size())
            {
                if (getenv("VSCHED_STRICT"))
                {
                    fprintf(stderr, "vsched: nondeterministic execution (options %zu, were %zu at %zu)\n", cost.size(),
                            (*trail)[pos].cost.size(), pos);
                    _exit(96);
                }
                // the code depends on something outside the schedule: go on from here with new decisions
                trail->resize(pos);
                return pick(cost);
            }
        }
        else
        {
            // first option within the budget (option with cost 0 always exists)
            for (int i = 0; i < n; i++)
            {
                if (cost[i] == 0)
                {
                    c = i;
                    break;
                }
            }
            // DFS tries the options in index order: start with the first affordable
            for (int i = 0; i < n; i++)
            {
                if (cost_used + cost[i] <= opt.preempt)
                {
                    c = i;
                    break;
                }
            }
            trail->push_back({cost, c, cost_used});
        }
        pos++;
        cost_used += cost[c];
    }
    else if (mode == RANDOM)
    {
        bool sw = std::uniform_real_distribution<double>(0, 1)(*rng) < p_switch;
        z.clear();
        for (int i = 0; i < n; i++)
        {
            if (sw || cost[i] == 0)
            {
                z.push_back(i);
            }
        }
        c = z[(*rng)() % z.size()];
    }
    else
    {
        c = pos < script->size() ? (*script)[pos] : 0;
        if (c >= n)
        {
            c = 0;
        }
        pos++;
    }
    ex->choices.push_back(c);
    return c;
}

static bool can_lock(
        int t,
        const void* m)
{
    auto& s = (*mutexes)[m];
    (void)t;
    return s.owner < 0;
}

static bool enabled(
        Fiber& f)
{
    if (f.st == FINISHED)
    {
        return false;
    }
    if (f.st == READY)
    {
        return true;
    }
    switch (f.why)
    {
        case W_MUTEX:
            return can_lock(f.id, f.obj);
        case W_RD:
        {
            auto& s = (*rws)[f.obj];
            return s.writer < 0;
        }
        case W_WR:
        {
            auto& s = (*rws)[f.obj];
            return s.writer < 0 && s.readers.empty();
        }
        case W_COND:
            return f.notified && can_lock(f.id, f.obj2);
        case W_JOIN:
            return F[(intptr_t)f.obj].st == FINISHED;
        case W_PRED:
            return f.pred();
        case W_GUARD:
            return (*guards)[f.obj].owner < 0;
        default:
            return false;
    }
}

static bool can_fire(
        Fiber& f)
{
    return f.st == BLOCKED && f.deadline >= 0 && !(f.why == W_COND && f.notified) && !enabled(f);
}

static void fire(
        Fiber& f)
{
    if (f.deadline > vtime)
    {
        vtime = f.deadline;
    }
    f.timed_out = true;
    if (f.why == W_COND)
    {
        auto& w = (*conds)[f.obj].waiters;
        w.erase(std::remove(w.begin(), w.end(), f.id), w.end());
        f.notified = true;     // now it has to get the mutex back
    }
    else
    {
        f.st = READY;
    }
}


static void resume(
        int n)
{
    if (n == cur)
    {
        return;
    }
    int old = cur;
    eh_swap(&F[old], &F[n]);
    cur = n;
    swapcontext(&F[old].ctx, &F[n].ctx);
}

// Called by the current fiber: READY (may go on) or BLOCKED (has just blocked) or FINISHED.
static void schedule(
        bool yield = false)
{
    for (;;)
    {
        if (++steps > opt.max_steps + more_steps)
        {
            for (int i = 0; i < nfib; i++)
            {
                if (F[i].st != FINISHED)
                {
                    ex->blocked.push_back(F[i].label);
                }
            }
            fail("livelock", "no termination within the step bound");
        }
        Fiber& me = F[cur];
        bool me_ok = enabled(me);
        o.clear();
        cost.clear();
        others.clear();
        for (int k = 1; k <= nfib; k++)
        {
            int i = (cur + k) % nfib;
            if (i != cur && enabled(F[i]))
            {
                others.push_back(i);
            }
        }
        bool forced = me_ok && !others.empty() && (yield || consecutive > 24);
        if (me_ok && !forced)
        {
            o.push_back({0, cur});
            cost.push_back(0);
        }
        for (int i : others)
        {
            o.push_back({0, i});
            cost.push_back(me_ok && !forced ? 1 : 0);
        }
        bool runnable = !o.empty();
        if (me_ok && others.empty())
        {
            alone++;
        }
        else
        {
            alone = 0;
        }
        if (runnable && alone > 3000 + more_steps / 5)
        {
            // a thread that spins on its own: let time pass, or give up
            int best = -1;
            for (int i = 0; i < nfib; i++)
            {
                if (can_fire(F[i]) && (best < 0 || F[i].deadline < F[best].deadline))
                {
                    best = i;
                }
            }
            alone = 0;
            if (best < 0)
            {
                for (int i = 0; i < nfib; i++)
                {
                    if (F[i].st != FINISHED)
                    {
                        ex->blocked.push_back(F[i].label);
                    }
                }
                fail("livelock", "a thread spins while every other thread is blocked");
            }
            fire(F[best]);
            continue;
        }
        if (runnable)
        {
            for (int i = 0; i < nfib; i++)
            {
                if ((opt.early_timeouts || F[i].deadline <= vtime) && can_fire(F[i]))
                {
                    o.push_back({1, i});
                    cost.push_back(1);
                }
            }
            if (spurious_used < opt.spurious)
            {
                for (int i = 0; i < nfib; i++)
                {
                    if (F[i].st == BLOCKED && F[i].why == W_COND && !F[i].notified)
                    {
                        o.push_back({2, i});
                        cost.push_back(1);
                    }
                }
            }
        }
        else
        {
            // nobody can run: the earliest deadline expires (ties: any order)
            int64_t best = -1;
            for (int i = 0; i < nfib; i++)
            {
                if (can_fire(F[i]) && (best < 0 || F[i].deadline < best))
                {
                    best = F[i].deadline;
                }
            }
            if (best >= 0)
            {
                for (int i = 0; i < nfib; i++)
                {
                    if (can_fire(F[i]) && F[i].deadline == best)
                    {
                        o.push_back({1, i});
                        cost.push_back(0);
                    }
                }
            }
        }
        if (o.empty())
        {
            bool all = true;
            for (int i = 0; i < nfib; i++)
            {
                if (F[i].st != FINISHED)
                {
                    all = false;
                    ex->blocked.push_back(F[i].label);
                }
            }
            ex->outcome = all ? "done" : "deadlock";
            switch_to_main_forever();
        }
        int c = o.size() > 1 ? pick(cost) : 0;
        Opt ch = o[c];
        if (ch.kind == 1)
        {
            fire(F[ch.fib]);
            consecutive = 0;
            continue;
        }
        if (ch.kind == 2)
        {
            spurious_used++;
            Fiber& f = F[ch.fib];
            auto& w = (*conds)[f.obj].waiters;
            w.erase(std::remove(w.begin(), w.end(), f.id), w.end());
            f.notified = true;
            continue;
        }
        if (ch.fib == cur)
        {
            consecutive++;
        }
        else
        {
            consecutive = 0;
        }
        resume(ch.fib);
        return;     // either we kept running or somebody resumed us: enabled(me) held at that moment
    }
}

static void tick()
{
    F[cur].vc[cur]++;
}

static void sched_point()
{
    if (!tracing())
    {
        return;
    }
    schedule();
}

static void block(
        Why why,
        const void* obj,
        int64_t deadline = -1)
{
    Fiber& f = F[cur];
    f.st = BLOCKED;
    f.why = why;
    f.obj = obj;
    f.deadline = deadline;
    f.timed_out = false;
    schedule();
    F[cur].st = READY;
    F[cur].why = W_NONE;
    F[cur].deadline = -1;
}

static int64_t to_vt(
        clockid_t,
        const struct timespec* ts)
{
    // saturating
    if (ts->tv_sec < 0)
    {
        return 0;
    }
    if (ts->tv_sec > 9000000000LL)
    {
        return -1;      // never
    }
    int64_t ns = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec - REAL_BASE;
    if (ns > 300LL * 86400 * 1000000000LL)
    {
        return -1;      // never, for a program that lasts for hours at most
    }
    return ns < 0 ? 0 : ns;
}

static void trampoline()
{
    Fiber& f = F[cur];
    f.ret = f.start(f.arg);
    Fiber& g = F[cur];
    g.st = FINISHED;
    g.vc[cur]++;
    schedule();
    abort();
}

static int new_fiber(
        void* (*start)(void*),
        void* arg,
        const std::string& label)
{
    if (nfib >= MAXF)
    {
        fail("misuse", "too many threads");
    }
    int id = nfib++;
    Fiber& f = F[id];
    f.id = id;
    if (!f.stack)
    {
        f.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(f.stack, 4096, PROT_NONE);
    }
    f.st = READY;
    f.why = W_NONE;
    f.deadline = -1;
    f.timed_out = f.notified = false;
    f.start = start;
    f.arg = arg;
    f.joined = f.detached = false;
    f.by_go = false;
    f.notrace = 0;
    f.cond_waits = 0;
    f.label = label;
    memset(f.eh, 0, 16);
    f.vc.assign(MAXF, 0);
    if (cur >= 0)
    {
        f.vc = F[cur].vc;
        F[cur].vc[cur]++;
        f.label = label.empty() ? F[cur].label + "+" + std::to_string(id) : label;
    }
    f.vc[id] = 1;
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack;
    f.ctx.uc_stack.ss_size = STACK;
    f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, trampoline, 0);
    return id;
}

// ------------------------------------------------------------------------------------------------ allocation
struct Hdr
{
    size_t size;
    uint64_t magic;
};
static const uint64_t MAGIC = 0x5eedb10c5eedb10cull, DEAD = 0xdeadb10cdeadb10cull;
static Vec<Hdr*>* quarantine;

static void* do_new(
        size_t n)
{
    Hdr* h = (Hdr*)__libc_malloc(n + sizeof(Hdr));
    if (!h)
    {
        abort();
    }
    h->size = n;
    h->magic = MAGIC;
    if (in_run)
    {
        range_clear(h + 1, n);
    }
    return h + 1;
}

static void do_delete(
        void* p)
{
    if (!p)
    {
        return;
    }
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == DEAD)
    {
        if (in_run && cur >= 0 && !stopping)
        {
            fail("uaf", "double delete by thread " + std::to_string(cur) + " (" + F[cur].label + ")");
        }
        abort();
    }
    if (h->magic != MAGIC)
    {
        if (in_run && cur >= 0 && !stopping)
        {
            fail("uaf", "delete of a pointer that was not allocated by new");
        }
        abort();
    }
    if (in_run && cur >= 0 && !stopping)
    {
        if (tracing())
        {
            access(p, h->size, true, true);
            for (int i = 0; i < nfib; i++)
            {
                Fiber& f = F[i];
                if (f.st == BLOCKED && f.why != W_JOIN && f.why != W_SLEEP && f.why != W_PRED)
                {
                    const char* a = (const char*)f.obj;
                    const char* b = (const char*)f.obj2;
                    if ((a >= (char*)p && a < (char*)p + h->size) ||
                            (f.why == W_COND && b >= (char*)p && b < (char*)p + h->size))
                    {
                        fail("uaf", "object destroyed while thread " + std::to_string(i) + " (" + f.label +
                                ") is blocked in it");
                    }
                }
            }
            uintptr_t a = (uintptr_t)p & ~7ull;
            // only granules fully inside the block
            for (; a + 8 <= (uintptr_t)p + h->size; a += 8)
            {
                cell(a, true)->freed = 1;
            }
        }
        h->magic = DEAD;
        quarantine->push_back(h);
    }
    else if (in_run)
    {
        h->magic = DEAD;
        quarantine->push_back(h);
    }
    else
    {
        h->magic = 0;
        __libc_free(h);
    }
}

// ------------------------------------------------------------------------------------------------ running
static void (*old_term)();
static void on_terminate()
{
    if (in_run && !stopping && cur >= 0)
    {
        std::string d = "std::terminate";
        std::type_info* t = abi::__cxa_current_exception_type();
        if (t)
        {
            d += std::string(" after ") + t->name();
        }
        F[cur].notrace++;
        fail("terminate", d + " in thread " + std::to_string(cur) + " (" + F[cur].label + ")");
    }
    _exit(98);
}

static volatile sig_atomic_t crash_sig = 0;
static void on_signal(
        int s)
{
    if (in_run)
    {
        crash_sig = s;
        siglongjmp(crash_jmp, 1);
    }
    _exit(95);
}

static void setup_once()
{
    static bool done = false;
    if (done)
    {
        return;
    }
    done = true;
    __libc_single_threaded = 0;
    cells = (Cell*)calloc(NCELL, sizeof(Cell));
    mutexes = new PMap<MutexS>;
    rws = new PMap<RwS>;
    conds = new PMap<CondS>;
    atoms = new PMap<AtomS>;
    guards = new PMap<GuardS>;
    misc_vc = new PMap<VC>;
    quarantine = new Vec<Hdr*>;
    trail = new Vec<Decision>;
    rng = new std::mt19937_64;
    old_term = (void (*)())std::set_terminate(on_terminate);
    stack_t ss;
    ss.ss_sp = malloc(64 * 1024);
    ss.ss_size = 64 * 1024;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM})
    {
        sigaction(s, &sa, nullptr);
    }
}

static const std::function<void()>* the_body;
static void* body_start(
        void*)
{
    (*the_body)();
    return nullptr;
}

static void run_one(
        const std::function<void()>& body,
        Execution& e)
{
    ex = &e;
    gen++;
    ncell_used = 0;
    mutexes->clear();
    rws->clear();
    conds->clear();
    atoms->clear();
    guards->clear();
    misc_vc->clear();
    nfib = 0;
    cur = -1;
    vtime = 0;
    steps = 0;
    more_steps = 0;
    consecutive = 0;
    alone = 0;
    spurious_used = 0;
    pos = 0;
    cost_used = 0;
    stopping = false;
    the_body = &body;
    new_fiber(body_start, nullptr, "main");
    char eh_saved[16];
    memcpy(eh_saved, abi::__cxa_get_globals(), 16);
    memset(abi::__cxa_get_globals(), 0, 16);
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = 10;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    in_run = true;
    cur = 0;
    if (sigsetjmp(crash_jmp, 1) == 0)
    {
        swapcontext(&main_ctx, &F[0].ctx);
    }
    else
    {
        e.outcome = crash_sig == SIGVTALRM ? "hang" : "crash";
        e.detail = "signal " + std::to_string((int)crash_sig) + " in thread " + std::to_string(cur) + " (" +
                F[cur].label + ")";
    }
    in_run = false;
    stopping = false;
    memset(&it, 0, sizeof it);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    memcpy(abi::__cxa_get_globals(), eh_saved, 16);
    cur = -1;
    for (Hdr* h : *quarantine)
    {
        h->magic = 0;
        __libc_free(h);
    }
    quarantine->clear();
    for (int i = 0; i < nfib; i++)
    {
        F[i].pred = nullptr;
    }
}

Stats explore(
        const Options& op,
        const std::function<void()>& body,
        const std::function<bool(const Execution&)>& on_exec)
{
    setup_once();
    opt = op;
    Stats st;
    mode = DFS;
    trail->clear();
    long n = 0;
    bool more = true, go_on = true;
    while (more && go_on && n < op.max_dfs)
    {
        Execution e;
        run_one(body, e);
        n++;
        st.executions++;
        st.steps += steps;
        go_on = on_exec(e);
        // backtrack
        more = false;
        while (!trail->empty())
        {
            Decision& d = trail->back();
            int c = d.chosen + 1;
            while (c < (int)d.cost.size() && d.cost_before + d.cost[c] > op.preempt)
            {
                c++;
            }
            if (c < (int)d.cost.size())
            {
                d.chosen = c;
                more = true;
                break;
            }
            trail->pop_back();
        }
    }
    st.exhausted = !more;
    st.points = total_points;
    if (more && go_on)
    {
        mode = RANDOM;
        static const double ps[] = {0.02, 0.1, 0.3, 0.6};
        for (long i = 0; i < op.n_random && go_on; i++)
        {
            rng->seed(op.seed * 1000003 + i);
            p_switch = ps[i % 4];
            Execution e;
            run_one(body, e);
            st.executions++;
            st.steps += steps;
            go_on = on_exec(e);
        }
    }
    return st;
}

Execution replay(
        const Options& op,
        const std::function<void()>& body,
        const std::vector<int>& choices)
{
    setup_once();
    opt = op;
    mode = REPLAY;
    script = &choices;
    Execution e;
    run_one(body, e);
    return e;
}

// ------------------------------------------------------------------------------------------------ harness API
void log(
        const std::string& ev)
{
    if (in_run && !stopping)
    {
        ex->log.push_back(ev);
    }
}

void label(
        const std::string& l)
{
    if (in_run && cur >= 0)
    {
        F[cur].label = l;
    }
}

void point()
{
    sched_point();
}

int choose(
        int n)
{
    if (!tracing() || n < 2)
    {
        return 0;
    }
    return pick(Vec<int>(n, 0));
}

int self()
{
    return cur;
}

void block_until(
        std::function<bool()> f);

int waited_count(
        int except)
{
    int n = 0;
    for (int i = 0; i < nfib; i++)
    {
        if (i != except && F[i].by_go && (F[i].cond_waits > 0 || F[i].st == FINISHED))
        {
            n++;
        }
    }
    return n;
}

void sync_waited(
        int n)
{
    int me = cur;
    block_until([n, me]()
            {
                return waited_count(me) >= n;
            });
    // what those threads did before they waited happened before this
    for (int i = 0; i < nfib; i++)
    {
        if (i != me && F[i].by_go)
        {
            if (F[i].st == FINISHED)
            {
                join_vc(F[me].vc, F[i].vc);
            }
            else if (F[i].cond_waits > 0)
            {
                join_vc(F[me].vc, F[i].wait_vc);
            }
        }
    }
}

std::vector<std::string> inside_wait()
{
    std::vector<std::string> r;
    for (int i = 0; i < nfib; i++)
    {
        if (i != cur && F[i].by_go && F[i].st == BLOCKED && F[i].why == W_COND)
        {
            r.push_back(F[i].label);
        }
    }
    return r;
}

bool running()
{
    return in_run && cur >= 0;
}

static void* go_start(
        void* a)
{
    std::function<void()>* f = (std::function<void()>*)a;
    (*f)();
    F[cur].notrace++;
    delete f;
    F[cur].notrace--;
    return nullptr;
}

void go(
        std::function<void()> f,
        const std::string& l)
{
    F[cur].notrace++;
    auto* p = new std::function<void()>(std::move(f));
    int id = new_fiber(go_start, p, l);
    F[id].by_go = true;
    F[cur].notrace--;
}

void join_all()
{
    for (int i = 0; i < nfib; i++)
    {
        if (i != cur && F[i].by_go && !F[i].joined)
        {
            if (F[i].st != FINISHED)
            {
                block(W_JOIN, (void*)(intptr_t)i);
            }
            F[i].joined = true;
            join_vc(F[cur].vc, F[i].vc);
        }
    }
}

int64_t now_ns()
{
    return vtime;
}

void block_until(
        std::function<bool()> f)
{
    if (!in_run)
    {
        return;
    }
    if (f())
    {
        return;
    }
    F[cur].pred = f;
    block(W_PRED, nullptr);
    F[cur].pred = nullptr;
}

NoTrace::NoTrace()
{
    if (in_run && cur >= 0)
    {
        F[cur].notrace++;
    }
}

NoTrace::~NoTrace()
{
    if (in_run && cur >= 0)
    {
        F[cur].notrace--;
    }
}

// HB helpers
static void acquire(
        VC& v)
{
    join_vc(F[cur].vc, v);
}

static void release(
        VC& v)
{
    join_vc(v, F[cur].vc);
    tick();
}

static void check_obj(
        const void* p)
{
    Cell* c = cell((uintptr_t)p & ~7ull, false);
    if (c && c->freed && tracing())
    {
        fail("uaf", "synchronisation object used after it was destroyed by thread " + std::to_string(cur) +
                " (" + F[cur].label + ")");
    }
}

static inline bool active()
{
    return in_run && cur >= 0 && !stopping;
}

} // namespace vs

using namespace vs;

// ================================================================================================ pthread
extern "C" {

int pthread_mutex_init(
        pthread_mutex_t* m,
        const pthread_mutexattr_t* a)
{
    memset(m, 0, sizeof *m);
    if (a)
    {
        int k = 0;
        pthread_mutexattr_gettype(a, &k);
        m->__data.__kind = k;
    }
    return 0;
}

int pthread_mutex_destroy(
        pthread_mutex_t* m)
{
    if (active())
    {
        check_obj(m);
        auto& s = (*mutexes)[m];
        if (s.owner >= 0 && tracing())
        {
            fail("misuse", "mutex destroyed while locked");
        }
        mutexes->erase(m);
    }
    return 0;
}

static int lock_impl(
        pthread_mutex_t* m,
        int64_t deadline,
        bool timed,
        bool try_only)
{
    if (!active())
    {
        return 0;
    }
    if (F[cur].notrace)
    {
        // no scheduling inside NoTrace: the lock must be free
        auto& s = (*mutexes)[m];
        if (s.owner >= 0 && s.owner != cur)
        {
            block(W_MUTEX, m);
        }
        s.owner = cur;
        s.count++;
        acquire(s.vc);
        return 0;
    }
    check_obj(m);
    sched_point();
    check_obj(m);
    MutexS* s = &(*mutexes)[m];
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (s->owner == cur && rec)
    {
        s->count++;
        return 0;
    }
    if (s->owner >= 0)
    {
        if (try_only)
        {
            return EBUSY;
        }
        block(W_MUTEX, m, timed ? deadline : -1);
        if (F[cur].timed_out)
        {
            F[cur].timed_out = false;
            return ETIMEDOUT;
        }
        check_obj(m);
        s = &(*mutexes)[m];
    }
    s->owner = cur;
    s->count = 1;
    acquire(s->vc);
    return 0;
}

int pthread_mutex_lock(
        pthread_mutex_t* m)
{
    return lock_impl(m, -1, false, false);
}

int pthread_mutex_trylock(
        pthread_mutex_t* m)
{
    return lock_impl(m, -1, false, true);
}

int pthread_mutex_timedlock(
        pthread_mutex_t* m,
        const struct timespec* t)
{
    return lock_impl(m, to_vt(CLOCK_REALTIME, t), true, false);
}

int pthread_mutex_clocklock(
        pthread_mutex_t* m,
        clockid_t c,
        const struct timespec* t)
{
    return lock_impl(m, to_vt(c, t), true, false);
}

int pthread_mutex_unlock(
        pthread_mutex_t* m)
{
    if (!active())
    {
        return 0;
    }
    check_obj(m);
    auto& s = (*mutexes)[m];
    if (s.owner != cur)
    {
        if (!tracing())
        {
            return 0;
        }
        fail("misuse", "unlock of a mutex the thread does not own");
    }
    if (--s.count == 0)
    {
        s.owner = -1;
        release(s.vc);
    }
    return 0;
}

int pthread_cond_init(
        pthread_cond_t* c,
        const pthread_condattr_t*)
{
    memset(c, 0, sizeof *c);
    return 0;
}

int pthread_cond_destroy(
        pthread_cond_t* c)
{
    if (active() && tracing())
    {
        check_obj(c);
        for (int i = 0; i < nfib; i++)
        {
            if (F[i].st == BLOCKED && F[i].why == W_COND && F[i].obj == c && !F[i].notified)
            {
                fail("uaf", "condition variable destroyed while thread " + std::to_string(i) + " (" + F[i].label +
                        ") waits in it");
            }
        }
        conds->erase(c);
    }
    return 0;
}

static int cond_wait_impl(
        pthread_cond_t* c,
        pthread_mutex_t* m,
        int64_t deadline)
{
    if (!active())
    {
        fprintf(stderr, "vsched: condition wait outside an execution\n");
        _exit(94);
    }
    check_obj(c);
    sched_point();
    check_obj(c);
    auto& s = (*mutexes)[m];
    if (s.owner != cur)
    {
        fail("misuse", "condition wait without owning the mutex");
    }
    int saved = s.count;
    F[cur].wait_vc = F[cur].vc;
    s.owner = -1;
    s.count = 0;
    release(s.vc);
    (*conds)[c].waiters.push_back(cur);
    F[cur].obj2 = m;
    F[cur].notified = false;
    F[cur].cond_waits++;
    block(W_COND, c, deadline);
    bool to = F[cur].timed_out;
    F[cur].timed_out = F[cur].notified = false;
    check_obj(m);
    auto& s2 = (*mutexes)[m];
    s2.owner = cur;
    s2.count = saved;
    acquire(s2.vc);
    return to ? ETIMEDOUT : 0;
}

int pthread_cond_wait(
        pthread_cond_t* c,
        pthread_mutex_t* m)
{
    return cond_wait_impl(c, m, -1);
}

int pthread_cond_timedwait(
        pthread_cond_t* c,
        pthread_mutex_t* m,
        const struct timespec* t)
{
    return cond_wait_impl(c, m, to_vt(CLOCK_REALTIME, t));
}

int pthread_cond_clockwait(
        pthread_cond_t* c,
        pthread_mutex_t* m,
        clockid_t k,
        const struct timespec* t)
{
    return cond_wait_impl(c, m, to_vt(k, t));
}

int pthread_cond_signal(
        pthread_cond_t* c)
{
    if (!active())
    {
        return 0;
    }
    check_obj(c);
    sched_point();
    check_obj(c);
    auto& w = (*conds)[c].waiters;
    if (!w.empty())
    {
        int k = w.size() > 1 && tracing() ? pick(Vec<int>(w.size(), 0)) : 0;
        int t = w[k];
        w.erase(w.begin() + k);
        F[t].notified = true;
    }
    return 0;
}

int pthread_cond_broadcast(
        pthread_cond_t* c)
{
    if (!active())
    {
        return 0;
    }
    check_obj(c);
    sched_point();
    check_obj(c);
    auto& w = (*conds)[c].waiters;
    for (int t : w)
    {
        F[t].notified = true;
    }
    w.clear();
    return 0;
}

// ---- rwlock
int pthread_rwlock_init(
        pthread_rwlock_t* m,
        const pthread_rwlockattr_t*)
{
    memset(m, 0, sizeof *m);
    return 0;
}

int pthread_rwlock_destroy(
        pthread_rwlock_t* m)
{
    if (active() && tracing())
    {
        check_obj(m);
        auto& s = (*rws)[m];
        if (s.writer >= 0 || !s.readers.empty())
        {
            fail("misuse", "rwlock destroyed while locked");
        }
        rws->erase(m);
    }
    return 0;
}

static int rw_impl(
        pthread_rwlock_t* m,
        bool write,
        bool try_only,
        int64_t deadline)
{
    if (!active())
    {
        return 0;
    }
    check_obj(m);
    sched_point();
    check_obj(m);
    RwS* s = &(*rws)[m];
    if (s->writer == cur)
    {
        return try_only ? EBUSY : EDEADLK;
    }
    bool ok = s->writer < 0 && (!write || s->readers.empty());
    if (!ok)
    {
        if (try_only)
        {
            return EBUSY;
        }
        block(write ? W_WR : W_RD, m, deadline);
        if (F[cur].timed_out)
        {
            F[cur].timed_out = false;
            return ETIMEDOUT;
        }
        check_obj(m);
        s = &(*rws)[m];
    }
    if (write)
    {
        s->writer = cur;
        acquire(s->vc);
        acquire(s->rvc);
    }
    else
    {
        s->readers[cur]++;
        acquire(s->vc);
    }
    return 0;
}

int pthread_rwlock_rdlock(
        pthread_rwlock_t* m)
{
    return rw_impl(m, false, false, -1);
}

int pthread_rwlock_wrlock(
        pthread_rwlock_t* m)
{
    return rw_impl(m, true, false, -1);
}

int pthread_rwlock_tryrdlock(
        pthread_rwlock_t* m)
{
    return rw_impl(m, false, true, -1);
}

int pthread_rwlock_trywrlock(
        pthread_rwlock_t* m)
{
    return rw_impl(m, true, true, -1);
}

int pthread_rwlock_timedrdlock(
        pthread_rwlock_t* m,
        const struct timespec* t)
{
    return rw_impl(m, false, false, to_vt(CLOCK_REALTIME, t));
}

int pthread_rwlock_timedwrlock(
        pthread_rwlock_t* m,
        const struct timespec* t)
{
    return rw_impl(m, true, false, to_vt(CLOCK_REALTIME, t));
}

int pthread_rwlock_clockrdlock(
        pthread_rwlock_t* m,
        clockid_t k,
        const struct timespec* t)
{
    return rw_impl(m, false, false, to_vt(k, t));
}

int pthread_rwlock_clockwrlock(
        pthread_rwlock_t* m,
        clockid_t k,
        const struct timespec* t)
{
    return rw_impl(m, true, false, to_vt(k, t));
}

int pthread_rwlock_unlock(
        pthread_rwlock_t* m)
{
    if (!active())
    {
        return 0;
    }
    check_obj(m);
    auto& s = (*rws)[m];
    if (s.writer == cur)
    {
        s.writer = -1;
        release(s.vc);
    }
    else
    {
        // glibc does not record who the readers are: any thread may release a read lock
        auto it = s.readers.find(cur);
        if (it == s.readers.end())
        {
            it = s.readers.begin();
        }
        if (it == s.readers.end())
        {
            if (!tracing())
            {
                return 0;
            }
            fail("misuse", "unlock of a rwlock that is not locked");
        }
        if (--it->second == 0)
        {
            s.readers.erase(it);
        }
        release(s.rvc);
    }
    return 0;
}

// ---- threads
int pthread_create(
        pthread_t* t,
        const pthread_attr_t*,
        void* (*start)(void*),
        void* arg)
{
    if (!active())
    {
        fprintf(stderr, "vsched: thread created outside an execution\n");
        _exit(93);
    }
    sched_point();
    int id = new_fiber(start, arg, "");
    *t = (pthread_t)(id + 1000);
    return 0;
}

int pthread_join(
        pthread_t t,
        void** ret)
{
    if (!active())
    {
        return 0;
    }
    int id = (int)t - 1000;
    if (id < 0 || id >= nfib)
    {
        return ESRCH;
    }
    if (id == cur)
    {
        return EDEADLK;
    }
    sched_point();
    if (F[id].st != FINISHED)
    {
        block(W_JOIN, (void*)(intptr_t)id);
    }
    F[id].joined = true;
    join_vc(F[cur].vc, F[id].vc);
    if (ret)
    {
        *ret = F[id].ret;
    }
    return 0;
}

int pthread_detach(
        pthread_t t)
{
    if (active())
    {
        F[(int)t - 1000].detached = true;
    }
    return 0;
}

pthread_t pthread_self(
        void)
{
    return (pthread_t)((cur < 0 ? 0 : cur) + 1000);
}

int pthread_equal(
        pthread_t a,
        pthread_t b)
{
    return a == b;
}

int sched_yield(
        void)
{
    if (active() && tracing())
    {
        schedule(true);
    }
    return 0;
}

// ---- time
int clock_gettime(
        clockid_t c,
        struct timespec* ts)
{
    if (!in_run)
    {
        return (int)syscall(SYS_clock_gettime, c, ts);
    }
    int64_t v = REAL_BASE + vtime;
    ts->tv_sec = v / 1000000000LL;
    ts->tv_nsec = v % 1000000000LL;
    return 0;
}

int gettimeofday(
        struct timeval* tv,
        void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(
        time_t* t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
    {
        *t = ts.tv_sec;
    }
    return ts.tv_sec;
}

static void vsleep(
        int64_t ns)
{
    if (!active())
    {
        return;
    }
    block(W_SLEEP, nullptr, vtime + (ns < 0 ? 0 : ns));
    F[cur].timed_out = false;
}

} // extern "C"
void vs::progress()
{
    alone = 0;
    more_steps += 1000;
}

void vs::sleep_until_ms(
        int64_t ms)
{
    if (ms * 1000000 > vtime)
    {
        vsleep(ms * 1000000 - vtime);
    }
}
extern "C" {

int nanosleep(
        const struct timespec* a,
        struct timespec*)
{
    vsleep(a->tv_sec * 1000000000LL + a->tv_nsec);
    return 0;
}

int clock_nanosleep(
        clockid_t c,
        int flags,
        const struct timespec* a,
        struct timespec*)
{
    if (flags & TIMER_ABSTIME)
    {
        int64_t d = to_vt(c, a);
        vsleep(d - vtime);
    }
    else
    {
        vsleep(a->tv_sec * 1000000000LL + a->tv_nsec);
    }
    return 0;
}

int usleep(
        useconds_t u)
{
    vsleep((int64_t)u * 1000);
    return 0;
}

unsigned sleep(
        unsigned s)
{
    vsleep((int64_t)s * 1000000000LL);
    return 0;
}

// ---- function-local statics
int __cxa_guard_acquire(
        long long* g)
{
    char* b = (char*)g;
    if (*b)
    {
        if (active())
        {
            acquire((*guards)[g].vc);
        }
        return 0;
    }
    if (!active())
    {
        return 1;
    }
    sched_point();
    GuardS* s = &(*guards)[g];
    if (s->owner == cur)
    {
        fail("terminate", "recursive initialisation of a static");
    }
    if (s->owner >= 0)
    {
        block(W_GUARD, g);
        s = &(*guards)[g];
    }
    acquire(s->vc);
    if (*b)
    {
        return 0;
    }
    s->owner = cur;
    return 1;
}

void __cxa_guard_release(
        long long* g)
{
    *(char*)g = 1;
    if (active())
    {
        auto& s = (*guards)[g];
        s.owner = -1;
        release(s.vc);
        release((*atoms)[g].vc);
    }
}

void __cxa_guard_abort(
        long long* g)
{
    if (active())
    {
        auto& s = (*guards)[g];
        s.owner = -1;
        release(s.vc);
    }
}

int pthread_once(
        pthread_once_t* o,
        void (* f)(void))
{
    if (*(int*)o == 2)
    {
        if (active())
        {
            acquire((*guards)[o].vc);
        }
        return 0;
    }
    if (!active())
    {
        *(int*)o = 2;
        f();
        return 0;
    }
    sched_point();
    if ((*guards)[o].owner >= 0)
    {
        block(W_GUARD, o);
    }
    acquire((*guards)[o].vc);
    if (*(int*)o == 2)
    {
        return 0;
    }
    (*guards)[o].owner = cur;
    f();
    *(int*)o = 2;
    (*guards)[o].owner = -1;
    release((*guards)[o].vc);
    return 0;
}

// ---- malloc: only forget the shadow of what is freed
void free(
        void* p)
{
    if (p && in_run)
    {
        range_clear(p, malloc_usable_size(p));
    }
    __libc_free(p);
}

// ================================================================================================ tsan ABI
void __tsan_init() {
}

void __tsan_func_entry(
        void*) {
}

void __tsan_func_exit() {
}

#define ACC(n) \
    void __tsan_read ## n(void* p) { access(p, n, false); } \
    void __tsan_write ## n(void* p) { access(p, n, true); } \
    void __tsan_volatile_read ## n(void* p) { access(p, n, false); } \
    void __tsan_volatile_write ## n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_read ## n(void* p) { access(p, n, false); } \
    void __tsan_unaligned_write ## n(void* p) { access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)

void __tsan_read_range(
        void* p,
        size_t n)
{
    access(p, n, false);
}

void __tsan_write_range(
        void* p,
        size_t n)
{
    access(p, n, true);
}

void __tsan_vptr_update(
        void** p,
        void* v)
{
    if (*p != v)
    {
        access(p, 8, true);
    }
}

void __tsan_vptr_read(
        void** p)
{
    access(p, 8, false);
}

// atomics
static void at_pre(
        const volatile void* p,
        int order,
        bool rmw_count)
{
    if (!active())
    {
        return;
    }
    if (tracing())
    {
        Cell* c = cell((uintptr_t)p & ~7ull, false);
        if (c && c->freed)
        {
            fail("uaf", "atomic access to freed memory by thread " + std::to_string(cur) + " (" + F[cur].label + ")");
        }
        // reference counters (acq_rel / relaxed read-modify-write) are not scheduling points
        if (!(rmw_count && order != 5))
        {
            sched_point();
            c = cell((uintptr_t)p & ~7ull, false);
            if (c && c->freed)
            {
                fail("uaf", "atomic access to freed memory by thread " + std::to_string(cur) + " (" + F[cur].label +
                        ")");
            }
        }
    }
}

static void at_acq(
        const volatile void* p,
        int order)
{
    if (active() && order != 0 && order != 3)
    {
        acquire((*atoms)[(const void*)p].vc);
    }
}

static void at_rel(
        const volatile void* p,
        int order)
{
    if (active() && order >= 3)
    {
        release((*atoms)[(const void*)p].vc);
    }
}

static void at_store(
        const volatile void* p,
        int order)
{
    if (active())
    {
        auto& v = (*atoms)[(const void*)p].vc;
        if (order >= 3)
        {
            v.clear();
            release(v);
        }
        else
        {
            v.clear();     // a relaxed store breaks the release sequence
        }
    }
}

#define ATOM(bits, T) \
    T __tsan_atomic ## bits ## _load(const volatile T* p, int o) \
    { at_pre(p, o, false); T v = *p; at_acq(p, o); return v; } \
    void __tsan_atomic ## bits ## _store(volatile T* p, T v, int o) \
    { at_pre(p, o, false); *p = v; at_store(p, o); } \
    T __tsan_atomic ## bits ## _exchange(volatile T* p, T v, int o) \
    { at_pre(p, o, false); T r = *p; *p = v; at_acq(p, o); at_rel(p, o); return r; } \
    T __tsan_atomic ## bits ## _fetch_add(volatile T* p, T v, int o) \
    { at_pre(p, o, true); T r = *p; *p = (T)(r + v); at_acq(p, o); at_rel(p, o); return r; } \
    T __tsan_atomic ## bits ## _fetch_sub(volatile T* p, T v, int o) \
    { at_pre(p, o, true); T r = *p; *p = (T)(r - v); at_acq(p, o); at_rel(p, o); return r; } \
    T __tsan_atomic ## bits ## _fetch_and(volatile T* p, T v, int o) \
    { at_pre(p, o, false); T r = *p; *p = (T)(r & v); at_acq(p, o); at_rel(p, o); return r; } \
    T __tsan_atomic ## bits ## _fetch_or(volatile T* p, T v, int o) \
    { at_pre(p, o, false); T r = *p; *p = (T)(r | v); at_acq(p, o); at_rel(p, o); return r; } \
    T __tsan_atomic ## bits ## _fetch_xor(volatile T* p, T v, int o) \
    { at_pre(p, o, false); T r = *p; *p = (T)(r ^ v); at_acq(p, o); at_rel(p, o); return r; } \
    T __tsan_atomic ## bits ## _fetch_nand(volatile T* p, T v, int o) \
    { at_pre(p, o, false); T r = *p; *p = (T) ~(r & v); at_acq(p, o); at_rel(p, o); return r; } \
    int __tsan_atomic ## bits ## _compare_exchange_strong(volatile T* p, T* e, T v, int o, int fo) \
    { at_pre(p, o, false); if (*p == *e){ *p = v; at_acq(p, o); at_rel(p, o); return 1; } \
      *e = *p; at_acq(p, fo); return 0; } \
    int __tsan_atomic ## bits ## _compare_exchange_weak(volatile T* p, T* e, T v, int o, int fo) \
    { return __tsan_atomic ## bits ## _compare_exchange_strong(p, e, v, o, fo); } \
    T __tsan_atomic ## bits ## _compare_exchange_val(volatile T* p, T e, T v, int o, int fo) \
    { __tsan_atomic ## bits ## _compare_exchange_strong(p, &e, v, o, fo); return e; }

ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)

void __tsan_atomic_thread_fence(
        int)
{
    if (active())
    {
        VC& v = (*misc_vc)[(const void*)1];
        acquire(v);
        release(v);
    }
}

void __tsan_atomic_signal_fence(
        int) {
}

} // extern "C"

// ================================================================================================ new / delete
void* operator new(
        size_t n)
{
    return do_new(n);
}

void* operator new[](
        size_t n)
{
    return do_new(n);
}

void* operator new(
        size_t n,
        const std::nothrow_t&) noexcept
{
    return do_new(n);
}

void* operator new[](
        size_t n,
        const std::nothrow_t&) noexcept
{
    return do_new(n);
}

void operator delete(
        void* p) noexcept
{
    do_delete(p);
}

void operator delete[](
        void* p) noexcept
{
    do_delete(p);
}

void operator delete(
        void* p,
        size_t) noexcept
{
    do_delete(p);
}

void operator delete[](
        void* p,
        size_t) noexcept
{
    do_delete(p);
}
