// Rows of a table: the functions of the library are called with the arguments of each row and what they answer is
// written down.  Row: id \t function \t argument...   with arguments i<integer> and s<hexadecimal>, l+<hexadecimal>+<hexadecimal>...
// Answer: "B id" before, "R id \t kind \t result..." after, with kind ok or the name of the exception;
// results i<integer>, d<decimal digits>, s<hexadecimal>, l+<hexadecimal>+<hexadecimal>...
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>

#include <cpp_utils/exception/Exception.hpp>
#include <cpp_utils/exception/ConfigurationException.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/exception/UnsupportedException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>

namespace table {

inline std::string hex(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s)
    {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}

inline std::string unhex(const std::string& s)
{
    std::string r;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2)
    {
        r += (char)(v(s[i]) * 16 + v(s[i + 1]));
    }
    return r;
}

struct Row
{
    std::vector<std::string> a;
    std::string out;

    long long i(size_t n) const { return std::stoll(a.at(n).substr(1)); }
    unsigned long long u(size_t n) const { return std::stoull(a.at(n).substr(1)); }
    std::string s(size_t n) const { return unhex(a.at(n).substr(1)); }
    bool has(size_t n) const { return n < a.size(); }

    std::vector<std::string> l(size_t n) const
    {
        std::vector<std::string> r;
        std::string x = a.at(n).substr(1);
        if (x.empty())
        {
            return r;
        }
        size_t b = 1;
        while (true)
        {
            size_t e = x.find('+', b);
            r.push_back(unhex(x.substr(b, e == std::string::npos ? e : e - b)));
            if (e == std::string::npos)
            {
                return r;
            }
            b = e + 1;
        }
    }

    void I(long long v) { out += "\ti" + std::to_string(v); }
    void D(unsigned long long v) { out += "\td" + std::to_string(v); }
    void S(const std::string& v) { out += "\ts" + hex(v); }

    template <typename C>
    void L(const C& c)
    {
        // (each element after a "+", so that no elements and one empty element differ)
        out += "\tl";
        for (const auto& x : c)
        {
            out += "+" + hex(x);
        }
    }
};

inline std::map<std::string, std::function<void(Row&)>>& functions()
{
    static std::map<std::string, std::function<void(Row&)>> f;
    return f;
}

struct Def
{
    Def(const char* name, std::function<void(Row&)> f) { functions()[name] = f; }
};

#define TABLE_CAT2(a, b) a ## b
#define TABLE_CAT(a, b) TABLE_CAT2(a, b)
#define FN(name) static void TABLE_CAT(fn_, name)(table::Row&); \
    static table::Def TABLE_CAT(def_, name)(#name, TABLE_CAT(fn_, name)); \
    static void TABLE_CAT(fn_, name)(table::Row& r)

inline int main_(int argc, char** argv)
{
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "a");
    std::string line;
    while (std::getline(in, line))
    {
        std::vector<std::string> f;
        size_t b = 0;
        while (true)
        {
            size_t e = line.find('\t', b);
            f.push_back(line.substr(b, e == std::string::npos ? e : e - b));
            if (e == std::string::npos)
            {
                break;
            }
            b = e + 1;
        }
        Row r;
        std::string id = f[0], fn = f[1];
        r.a.assign(f.begin() + 2, f.end());
        fprintf(out, "B %s\n", id.c_str());
        fflush(out);
        alarm(5);
        std::string kind = "ok";
        auto it = functions().find(fn);
        if (it == functions().end())
        {
            fprintf(stderr, "no function %s\n", fn.c_str());
            return 3;
        }
        using namespace eprosima::utils;
        try
        {
            it->second(r);
        }
#define K(x) catch (const x&) { kind = #x; }
        K(ConfigurationException)
        K(InconsistencyException)
        K(InitializationException)
        K(PreconditionNotMet)
        K(UnsupportedException)
        K(ValueAccessException)
        K(ValueNotAllowedException)
        K(Exception)
        K(std::invalid_argument)
        K(std::out_of_range)
        K(std::bad_alloc)
        K(std::exception)
        alarm(0);
        fprintf(out, "R %s\t%s%s\n", id.c_str(), kind.c_str(), kind == "ok" ? r.out.c_str() : "");
        fflush(out);
    }
    fprintf(out, "E\n");
    fclose(out);
    _exit(0);
}

} // namespace table
