// F01: files, as a user that is not root
#include "table.hpp"
#include <sys/stat.h>
#include <cpp_utils/file/file_utils.hpp>
#include <cpp_utils/utils.hpp>
namespace eu = eprosima::utils;

static const std::string& dir()
{
    static std::string d;
    if (d.empty())
    {
        // (permissions mean nothing to root)
        if (getuid() == 0 && (setgid(65534) || setuid(65534)))
        {
            fprintf(stderr, "could not become an ordinary user\n");
            _exit(4);
        }
        char t[] = "/tmp/vf-files-XXXXXX";
        if (!mkdtemp(t))
        {
            fprintf(stderr, "no directory\n");
            _exit(4);
        }
        d = t;
    }
    return d;
}
struct Put
{
    std::string p;
    Put(const std::string& content, mode_t mode = 0600)
        : p(dir() + "/f")
    {
        std::ofstream o(p, std::ios::binary);
        o.write(content.data(), content.size());
        o.close();
        chmod(p.c_str(), mode);
    }
    ~Put()
    {
        ::unlink(p.c_str());
        ::rmdir(dir().c_str());
        // (made again for the next row)
        const_cast<std::string&>(dir()).clear();
    }
};

FN(file_to_strings)
{
    Put f(r.s(0));
    r.L(eu::file_to_strings(f.p.c_str(), r.i(1), r.i(2)));
}
FN(file_to_strings_default)
{
    Put f(r.s(0));
    r.L(eu::file_to_strings(f.p.c_str()));
}
FN(file_to_string)
{
    Put f(r.s(0));
    r.S(eu::file_to_string(f.p.c_str(), r.i(1)));
}
FN(file_to_string_default)
{
    Put f(r.s(0));
    r.S(eu::file_to_string(f.p.c_str()));
}
static std::string times(const std::string& s, long n)
{
    std::string t;
    for (long k = 0; k < n; k++)
    {
        t += s;
    }
    return t;
}
FN(file_many)
{
    Put f(times(r.s(0) + "\n", r.i(1)));
    auto ls = eu::file_to_strings(f.p.c_str(), r.i(2));
    size_t n = 0, other = 0;
    for (auto& l : ls)
    {
        n += l.size();
        other += l != ls[0];
    }
    r.I(ls.size());
    r.I(n);
    r.I(other);
}
FN(file_long)
{
    std::string p = r.s(0);
    Put f(times(p, r.i(1)));
    auto ls = eu::file_to_strings(f.p.c_str());
    size_t other = 0;
    std::string l = ls.empty() ? "" : ls[0];
    for (size_t k = 0; k < l.size(); k++)
    {
        other += l[k] != p[k % p.size()];
    }
    r.I(ls.size());
    r.I(l.size());
    r.I(other);
}
FN(file_missing)
{
    long k = r.i(0);
    if (k == 0)
    {
        eu::file_to_strings((dir() + "/none").c_str());
    }
    else if (k == 1)
    {
        eu::file_to_string((dir() + "/none/none").c_str());
    }
    else if (k == 2)
    {
        Put f("x\n", 0200);
        eu::file_to_strings(f.p.c_str());
    }
    else if (k == 3)
    {
        Put f("x\n", 0000);
        eu::file_to_string(f.p.c_str(), false);
    }
    else
    {
        eu::file_to_strings("");
    }
}
FN(is_file_accessible)
{
    long perm = r.i(0), mode = r.i(1), kind = r.i(2);
    // (what others may do is the contrary of what the owner may)
    mode_t m = (mode_t)(perm << 6 | (7 - perm) << 3 | (7 - perm));
    std::string p = dir() + "/a", l = dir() + "/l", ask = p;
    if (kind == 1 || kind == 3)
    {
        std::ofstream(p) << "x";
        chmod(p.c_str(), m);
    }
    if (kind == 2)
    {
        mkdir(p.c_str(), 0700);
        chmod(p.c_str(), m);
    }
    if (kind >= 3 && symlink(p.c_str(), l.c_str()) == 0)
    {
        ask = l;
    }
    bool b = eu::is_file_accessible(ask.c_str(), (eu::FileAccessMode)mode);
    ::unlink(l.c_str());
    kind == 2 ? ::rmdir(p.c_str()) : ::unlink(p.c_str());
    ::rmdir(dir().c_str());
    const_cast<std::string&>(dir()).clear();
    r.I(b);
}

int main(int argc, char** argv) { return table::main_(argc, argv); }
