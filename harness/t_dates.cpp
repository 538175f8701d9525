// C02: instants and their text, with a clock and zones under control
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

// the clocks: moved by hand, and by sleeping
static bool fake_ = false;
static long long fake_ns_ = 0;      // what the calendar clock shows
static long long slept_ns_ = 0;     // added to every clock

extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (fake_ && id == CLOCK_REALTIME)
    {
        long long t = fake_ns_ + slept_ns_;
        long long s = t / 1000000000, n = t % 1000000000;
        if (n < 0)
        {
            n += 1000000000;
            s--;
        }
        ts->tv_sec = s;
        ts->tv_nsec = n;
        return 0;
    }
    int r = (int)syscall(SYS_clock_gettime, id, ts);
    if (r == 0)
    {
        ts->tv_sec += slept_ns_ / 1000000000;
        ts->tv_nsec += slept_ns_ % 1000000000;
        if (ts->tv_nsec >= 1000000000)
        {
            ts->tv_nsec -= 1000000000;
            ts->tv_sec++;
        }
    }
    return r;
}
extern "C" time_t time(time_t* t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
    {
        *t = ts.tv_sec;
    }
    return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" int nanosleep(const struct timespec* req, struct timespec* rem)
{
    slept_ns_ += req->tv_sec * 1000000000LL + req->tv_nsec;
    return 0;
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const struct timespec* req, struct timespec* rem)
{
    long long d = req->tv_sec * 1000000000LL + req->tv_nsec;
    if (flags & TIMER_ABSTIME)
    {
        struct timespec ts;
        clock_gettime(id, &ts);
        d -= ts.tv_sec * 1000000000LL + ts.tv_nsec;
    }
    if (d > 0)
    {
        slept_ns_ += d;
    }
    return 0;
}
extern "C" int usleep(useconds_t us)
{
    slept_ns_ += us * 1000LL;
    return 0;
}

#include "table.hpp"
#include <cpp_utils/time/time_utils.hpp>
namespace eu = eprosima::utils;

static void fake(long long day, long long sec, long long ns)
{
    fake_ = true;
    fake_ns_ = (day * 86400 + sec) * 1000000000LL + ns;
    slept_ns_ = 0;
}
static void zone(int k)
{
    static const char* z[] = {"UTC0", "IST-5:30", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3",
                              "XXX12"};
    setenv("TZ", z[k], 1);
    tzset();
}
static eu::Timestamp instant(long long day, long long sec, long long ns = 0)
{
    return eu::Timestamp(std::chrono::nanoseconds((day * 86400 + sec) * 1000000000LL + ns));
}
static void put(table::Row& r, const eu::Timestamp& t)
{
    long long n = std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count();
    long long ns = n % 1000000000;
    if (ns < 0)
    {
        ns += 1000000000;
    }
    long long s = (n - ns) / 1000000000;
    long long sod = s % 86400;
    if (sod < 0)
    {
        sod += 86400;
    }
    r.I((s - sod) / 86400);
    r.I(sod);
    r.I(ns);
}

FN(date_to_timestamp)
{
    zone((int)r.i(6));
    put(r, eu::date_to_timestamp(r.i(0), r.i(1), r.i(2), r.i(3), r.i(4), r.i(5)));
}
FN(date_to_timestamp_short)
{
    zone(0);
    put(r, eu::date_to_timestamp(r.i(0), r.i(1), r.i(2)));
}
FN(time_to_timestamp)
{
    zone((int)r.i(5));
    fake(r.i(0), r.i(1), 5);
    put(r, eu::time_to_timestamp(r.i(2), r.i(3), r.i(4)));
}
FN(now)
{
    fake(r.i(0), r.i(1), r.i(2));
    put(r, eu::now());
}
FN(timestamp_to_string)
{
    zone((int)r.i(4));
    r.S(eu::timestamp_to_string(instant(r.i(0), r.i(1), r.i(2)), r.s(3), r.i(5)));
}
FN(timestamp_to_string_default)
{
    zone(4);
    r.S(eu::timestamp_to_string(instant(r.i(0), r.i(1))));
}
FN(string_to_timestamp)
{
    zone((int)r.i(2));
    put(r, eu::string_to_timestamp(r.s(0), r.s(1), r.i(3)));
}
FN(both)
{
    zone((int)r.i(3));
    auto t = instant(r.i(0), r.i(1));
    put(r, r.i(5) ? eu::string_to_timestamp(eu::timestamp_to_string(t, r.s(2), r.i(4)), r.s(2), r.i(4)) :
            eu::string_to_timestamp(eu::timestamp_to_string(t)));
}
FN(duration_to_ms) { r.D((unsigned long long)eu::duration_to_ms((eu::Duration_ms)r.u(0)).count()); }
FN(ends)
{
    auto e = eu::the_end_of_time(), b = eu::the_beginning_of_time();
    fake(20000, 0, 0);
    auto n = eu::now();
    r.I(b < n && n < e);
    r.I(e == eu::Timestamp::max());
    r.I(b == eu::Timestamp::min());
}
FN(normalize)
{
    time_t t = (time_t)(r.i(0) * 86400 + r.i(1));
    put(r, eu::Timestamp(std::chrono::seconds(0)) + std::chrono::seconds(eu::normalize(t)));
    r.out = r.out.substr(0, r.out.rfind('\t'));
}
FN(sleep_for)
{
    slept_ns_ = 0;
    struct timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    eu::sleep_for((eu::Duration_ms)r.u(0));
    clock_gettime(CLOCK_MONOTONIC, &b);
    long long ms = ((b.tv_sec - a.tv_sec) * 1000000000LL + b.tv_nsec - a.tv_nsec) / 1000000;
    r.I(ms >= (long long)r.u(0) && ms < (long long)r.u(0) + 2000);
    r.D((unsigned long long)ms);
}

int main(int argc, char** argv) { return table::main_(argc, argv); }
