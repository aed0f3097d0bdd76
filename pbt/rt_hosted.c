/* Hosted stand-in for rt.c, for runs under sanitizers. Output is dropped, but
 * every value reported is branched on, so that MemorySanitizer checks it. */
static volatile int sink;
void oi(int id, long v) { if (v) sink = 1; }
void of(int id, float f) { if (f != 0) sink = 1; }
void od(int id, double f) { if (f != 0) sink = 1; }
void ol(int id, long double f) { if (f != 0) sink = 1; }
void om(int id, const void *p, unsigned long n)
{
    const unsigned char *s = p;
    while (n--) if (*s++) sink = 1;
}
void os(const char *s) { while (*s) if (*s++ == 1) sink = 1; }
void rt_scramble(void) {}
void (*rt_target)(void);
__asm__(".pushsection .text\n.globl rt_tramp\n.type rt_tramp, @function\nrt_tramp: jmp *rt_target(%rip)\n.popsection\n");
void rt_calls(void) {}
void rt_frame(void *p) {}
