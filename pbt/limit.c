/* limit CPU_S MEM_BYTES FSIZE_BYTES cmd args...: exec under limits. */
#include <sys/resource.h>
#include <stdlib.h>
#include <unistd.h>
static void set(int what, unsigned long soft, unsigned long hard)
{
    struct rlimit r;
    r.rlim_cur = soft; r.rlim_max = hard;
    setrlimit(what, &r);
}
int main(int argc, char **argv)
{
    unsigned long cpu, mem, fs;
    if (argc < 5) return 126;
    cpu = strtoul(argv[1], 0, 10); mem = strtoul(argv[2], 0, 10); fs = strtoul(argv[3], 0, 10);
    set(RLIMIT_CPU, cpu, cpu + 1);
    if (mem) set(RLIMIT_AS, mem, mem);
    set(RLIMIT_FSIZE, fs, fs);
    set(RLIMIT_CORE, 0, 0);
    execvp(argv[4], argv + 4);
    return 127;
}
