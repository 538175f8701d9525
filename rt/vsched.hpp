// Deterministic scheduler under which the real code of the repository is executed.
//
// Code compiled with "-fsanitize=thread" (compile step only) calls the __tsan_* functions for its memory
// accesses and atomics; those, the pthread_* synchronisation functions, the clocks and operator new/delete are
// defined by vsched.cpp.  Threads are fibers of one OS thread; at every visible operation the strategy decides
// which fiber goes on, so that an execution is a function of its list of choices.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vs {

struct Options
{
    int preempt = 2;              // budget of preemptions / early timeouts / spurious wake-ups of one schedule
    int spurious = 1;             // how many of them may be spurious wake-ups
    bool early_timeouts = true;   // a timed wait may expire although other threads can run
    long max_dfs = 2000;          // executions of the systematic exploration
    long n_random = 0;            // random executions after it, if it did not finish
    uint64_t seed = 1;
    long max_steps = 20000;       // visible operations per execution
    bool detect_races = true;
    long max_distinct = 1000000;  // stop exploring after this number of distinct histories
};

struct Execution
{
    std::string outcome;          // done | deadlock | livelock | race | uaf | crash | hang | terminate | misuse
    std::string detail;
    std::vector<std::string> log;
    std::vector<std::string> blocked;  // labels of the fibers blocked at the end (deadlock/livelock)
    std::vector<int> choices;
};

struct Stats
{
    long executions = 0, steps = 0, points = 0;
    bool exhausted = false;       // every schedule within the preemption budget was run
};

// Run body (as the first fiber) under the schedules of opt; on_exec gets every execution, returns false to stop.
Stats explore(
        const Options& opt,
        const std::function<void()>& body,
        const std::function<bool(const Execution&)>& on_exec);

// Run body once following choices (0s afterwards).
Execution replay(
        const Options& opt,
        const std::function<void()>& body,
        const std::vector<int>& choices);

// ---- usable inside an execution
void log(
        const std::string& ev);
void label(
        const std::string& l);    // label of the current fiber, reported when it is blocked at the end
void progress();                  // the program goes on: an endless loop is one between two of these
void point();                     // explicit scheduling point
int choose(
        int n);                   // nondeterministic choice of the harness
int self();                       // id of the current fiber (0 = body)
void go(
        std::function<void()> f,
        const std::string& l = "");   // start a fiber
void join_all();                  // wait until every other fiber that was started with go() ended
int64_t now_ns();                 // virtual time since the beginning of the execution
void fail(
        const std::string& kind,
        const std::string& detail);   // ends the execution with this outcome
// Blocks the calling fiber until f() is true (re-evaluated when other fibers take steps).
void block_until(
        std::function<bool()> f);
bool running();
int waited_count(
        int except);              // go() fibers other than except that entered a condition wait or have ended
void sync_waited(
        int n);                   // block until n other go() fibers have entered a condition wait or ended
std::vector<std::string> inside_wait();   // labels of the other go() fibers that are in a condition wait right now
void sleep_until_ms(
        int64_t ms);              // sleep until this virtual time
struct NoTrace { NoTrace(); ~NoTrace(); };   // no scheduling points and no race detection in this scope

} // namespace vs
