// Which basic blocks were executed: the return addresses of __sanitizer_cov_trace_pc, written to $VF_COV/<program>.<pid>.
#include <fcntl.h>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
extern "C" {
extern char __executable_start, etext;
void __real__exit(int) __attribute__((noreturn));
static unsigned char* bits;
static void dump()
{
    const char* d = getenv("VF_COV");
    if (!bits || !d)
    {
        return;
    }
    char exe[4096], f[8192];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n < 0 ? 0 : n] = 0;
    const char* b = strrchr(exe, '/');
    snprintf(f, sizeof f, "%s/%s.%d", d, b ? b + 1 : exe, (int)getpid());
    int fd = open(f, O_CREAT | O_WRONLY | O_TRUNC, 0644);
    size_t size = &etext - &__executable_start;
    for (size_t i = 0; i < size; i++)
    {
        if (bits[i])
        {
            char l[32];
            int k = snprintf(l, sizeof l, "%zx\n", i);
            if (write(fd, l, k) != k)
            {
                break;
            }
        }
    }
    close(fd);
}
__attribute__((constructor)) static void init()
{
    bits = (unsigned char*)calloc(1, &etext - &__executable_start + 16);
}
__attribute__((destructor)) static void fini()
{
    dump();
}
void __wrap__exit(int c)
{
    dump();
    __real__exit(c);
}
void __sanitizer_cov_trace_pc()
{
    if (bits)
    {
        bits[(char*)__builtin_return_address(0) - &__executable_start] = 1;
    }
}
}
