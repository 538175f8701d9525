// A terminal (keys, width, modes) played by the harness.
#pragma once
#include "conc.hpp"

#include <cstdarg>
#include <deque>
#include <sys/ioctl.h>
#include <termios.h>
#include <unistd.h>

static std::deque<int>* keys = nullptr;
static int width = 80;
static struct termios terminal, original;
static bool reading = false;

static int next_key()
{
    {
        vs::NoTrace nt;
        reading = true;
    }
    vs::block_until([]()
            {
                vs::NoTrace nt;
                return !keys->empty();
            });
    vs::NoTrace nt;
    reading = false;
    int c = keys->front();
    if (c >= 0)
    {
        keys->pop_front();
        vs::progress();
    }
    return c;
}

extern "C" {

int getc(
        FILE*)
{
    return next_key();
}

int fgetc(
        FILE*)
{
    return next_key();
}

int tcgetattr(
        int,
        struct termios* t) noexcept
{
    *t = terminal;
    return 0;
}

int tcsetattr(
        int,
        int,
        const struct termios* t) noexcept
{
    vs::NoTrace nt;
    terminal = *t;
    bool raw = !(t->c_lflag & ICANON) && !(t->c_lflag & ECHO) && !(t->c_lflag & ISIG);
    bool same = !memcmp(t, &original, sizeof original);
    conc::observe(raw ? "raw" : same ? "cooked" : "other");
    return 0;
}

int ioctl(
        int,
        unsigned long req,
        ...) noexcept
{
    va_list l;
    va_start(l, req);
    void* p = va_arg(l, void*);
    va_end(l);
    if (req == TIOCGWINSZ && width >= 0)
    {
        struct winsize* w = (struct winsize*)p;
        memset(w, 0, sizeof *w);
        w->ws_col = width;
        w->ws_row = 24;
        return 0;
    }
    errno = ENOTTY;
    return -1;
}

}

struct NullBuf : public std::streambuf
{
    int overflow(
            int c) override
    {
        return c;
    }

};

