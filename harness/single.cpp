// Singleton, SafeInitializableSingleton, InitializableSingleton.
#include "conc.hpp"

#include <elf.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>

#include <cpp_utils/types/InitializableSingleton.hpp>
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
#include <cpp_utils/types/Singleton.hpp>

using namespace eprosima::utils;
using conc::Op;
using conc::Res;

static int next_id;
static bool muted;      // the execution is over

template <int Type>
struct SngProbe
{
    int v;
    int id;
    int check;

    SngProbe(
            int x = 7)
        : v(x)
    {
        vs::point();
        {
            vs::NoTrace nt;
            id = ++next_id;
        }
        conc::observe("ctor", {id, v});
        vs::point();
        check = id;
    }

    ~SngProbe()
    {
        if (!muted)
        {
            conc::observe("dtor", {id});
        }
        check = -1;
    }

};

// Every variable of the program whose name says that it belongs to a singleton of SngProbe is put back to what it was
// at the beginning, so that every execution is the first one.
struct Statics
{
    std::vector<std::pair<char*, std::string>> vars;
    Statics()
    {
        int fd = open("/proc/self/exe", O_RDONLY);
        struct stat st;
        fstat(fd, &st);
        char* p = (char*)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
        auto eh = (Elf64_Ehdr*)p;
        auto sh = (Elf64_Shdr*)(p + eh->e_shoff);
        intptr_t base = 0;
        for (int pass = 0; pass < 2; pass++)
        {
            for (int i = 0; i < eh->e_shnum; i++)
            {
                if (sh[i].sh_type != SHT_SYMTAB)
                {
                    continue;
                }
                auto sy = (Elf64_Sym*)(p + sh[i].sh_offset);
                const char* str = p + sh[sh[i].sh_link].sh_offset;
                for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); k++)
                {
                    const char* n = str + sy[k].st_name;
                    if (pass == 0 && !strcmp(n, "main"))
                    {
                        base = (intptr_t)main_address() - (intptr_t)sy[k].st_value;
                    }
                    if (pass == 1 && ELF64_ST_TYPE(sy[k].st_info) == STT_OBJECT && strstr(n, "SngProbe") && sy[k].st_size &&
                            sy[k].st_shndx < eh->e_shnum && (sh[sy[k].st_shndx].sh_flags & SHF_WRITE) && strncmp(n, "_ZT", 3))
                    {
                        char* a = (char*)(base + sy[k].st_value);
                        vars.push_back({a, std::string(a, sy[k].st_size)});
                    }
                }
            }
        }
        if (vars.empty())
        {
            fprintf(stderr, "no variables of singletons\n");
            _exit(4);
        }
    }

    static void* main_address();

    void reset()
    {
        for (auto& v : vars)
        {
            memcpy(v.first, v.second.data(), v.second.size());
        }
    }

};

static Statics& statics()
{
    static Statics* s = new Statics();
    return *s;
}

// one singleton of each kind for three pairs of type and index
template <typename T, int I>
struct Sg
{
    using S = Singleton<T, I>;
    static T* get(
            bool)
    {
        return S::get_instance();
    }

    static std::shared_ptr<T> gets(
            bool)
    {
        return S::get_shared_instance();
    }

    static bool init(
            int)
    {
        return false;
    }

};

template <typename T, int I>
struct Sf
{
    using S = SafeInitializableSingleton<T, I>;
    static T* get(
            bool create)
    {
        return create ? S::get_instance() : S::get_instance(false);
    }

    static std::shared_ptr<T> gets(
            bool create)
    {
        return create ? S::get_shared_instance() : S::get_shared_instance(false);
    }

    static bool init(
            int v)
    {
        return S::initialize(v);
    }

};

template <typename T, int I>
struct In
{
    using S = InitializableSingleton<T, I>;
    static T* get(
            bool)
    {
        return S::get_instance();
    }

    static std::shared_ptr<T> gets(
            bool)
    {
        return S::get_shared_instance();
    }

    static bool init(
            int v)
    {
        return S::template initialize<int>(v);
    }

};

struct World
{
    char kind;
    std::shared_ptr<void> ref[4];
    int reft[4] = {};

    World(
            const conc::Program& p)
    {
        vs::NoTrace nt;
        statics().reset();
        next_id = 0;
        muted = false;
        kind = p.kind[1];
    }

    bool quiet(
            const Op&)
    {
        return false;
    }

    template <typename T>
    static int id(
            T* p)
    {
        if (!p)
        {
            return 0;
        }
        return p->check == p->id ? p->id : -1;
    }

    template <typename S, int Type>
    Res call(
            const Op& op)
    {
        const std::string& n = op.name;
        if (n == "get" || n == "getn")
        {
            return Res("val", id(S::get(n == "get")));
        }
        else if (n == "gets" || n == "getsn")
        {
            std::shared_ptr<SngProbe<Type>> x = S::gets(n == "gets");
            ref[op.arg(1)] = x;
            reft[op.arg(1)] = Type;
            return Res("val", id(x.get()));
        }
        return Res("val", S::init(op.arg(1)));
    }

    template <template <typename, int> class K>
    Res on(
            const Op& op)
    {
        return op.arg(0) == 0 ? call<K<SngProbe<1>, 0>, 1>(op) : op.arg(0) == 1 ? call<K<SngProbe<1>, 1>, 1>(op) :
               call<K<SngProbe<2>, 0>, 2>(op);
    }

    template <int T>
    static Res see(
            std::shared_ptr<void>& r)
    {
        auto p = (SngProbe<T>*)r.get();
        return Res("val", std::vector<int>{id(p), p->v});
    }

    Res exec(
            int,
            const Op& op)
    {
        if (op.name == "see")
        {
            auto& r = ref[op.arg(0)];
            return !r ? Res("val", 0) : reft[op.arg(0)] == 1 ? see<1>(r) : see<2>(r);
        }
        if (op.name == "drop")
        {
            ref[op.arg(0)].reset();
            return Res();
        }
        return kind == 'g' ? on<Sg>(op) : kind == 'f' ? on<Sf>(op) : on<In>(op);
    }

    void finish()
    {
        muted = true;
    }

};

int main(
        int argc,
        char** argv)
{
    statics();
    return conc::conc_main<World>(argc, argv);
}

void* Statics::main_address()
{
    return (void*)&main;
}
