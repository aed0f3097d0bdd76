/* Minimal runtime for generated programs: no libc, static linking. */
typedef unsigned long u64;
static char buf[1 << 16];
static int len;
static u64 total;

static long sys3(long n, long a, long b, long c)
{
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c)
                     : "rcx", "r11", "memory");
    return r;
}

void rt_flush(void)
{
    int off = 0;
    while (off < len) {
        long n = sys3(1, 1, (long) (buf + off), len - off);
        if (n <= 0) break;
        off += n;
    }
    len = 0;
}

void rt_exit(int code)
{
    rt_flush();
    for (;;) sys3(231, code, 0, 0);
}

static void ch(int c)
{
    if (len == sizeof(buf)) rt_flush();
    buf[len++] = c;
    if (++total > (4u << 20)) rt_exit(99);
}

static void hex(u64 v)
{
    char t[16];
    int n = 0;
    do t[n++] = "0123456789abcdef"[v & 15]; while (v >>= 4);
    while (n) ch(t[--n]);
}

static void dec(int v)
{
    char t[12];
    int n = 0;
    unsigned u = v;
    if (v < 0) { ch('-'); u = -u; }
    do t[n++] = '0' + u % 10; while (u /= 10);
    while (n) ch(t[--n]);
}

/* Overwrite caller-saved registers and the stack below with a pattern, so
 * that code relying on leftovers shows. */
void rt_scramble(void)
{
    volatile u64 a[64];
    int i;
    for (i = 0; i < 64; ++i) a[i] = 0xA5A5A5A5DEADBEEFul + i;
    __asm__ volatile(
        "mov %0, %%rax\n mov %0, %%rcx\n mov %0, %%rdx\n mov %0, %%rsi\n"
        "mov %0, %%rdi\n mov %0, %%r8\n mov %0, %%r9\n mov %0, %%r10\n"
        "mov %0, %%r11\n"
        "movq %%rax, %%xmm0\n movq %%rax, %%xmm1\n movq %%rax, %%xmm2\n"
        "movq %%rax, %%xmm3\n movq %%rax, %%xmm4\n movq %%rax, %%xmm5\n"
        "movq %%rax, %%xmm6\n movq %%rax, %%xmm7\n movq %%rax, %%xmm8\n"
        "movq %%rax, %%xmm9\n movq %%rax, %%xmm10\n movq %%rax, %%xmm11\n"
        "movq %%rax, %%xmm12\n movq %%rax, %%xmm13\n movq %%rax, %%xmm14\n"
        "movq %%rax, %%xmm15\n"
        :: "i"(0xDEADBEEF) : "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9",
           "r10", "r11", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5",
           "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12",
           "xmm13", "xmm14", "xmm15", "memory");
}

/* Report an integer. */
void oi(int id, long v) { dec(id); ch(' '); hex(v); ch('\n'); rt_scramble(); }
/* Report a float, double, long double by representation; all NaN are equal. */
void of(int id, float f)
{
    union { float f; unsigned u; } x;
    x.f = f; dec(id); ch('f'); if (f != f) ch('n'); else hex(x.u); ch('\n');
    rt_scramble();
}
void od(int id, double f)
{
    union { double f; u64 u; } x;
    x.f = f; dec(id); ch('d'); if (f != f) ch('n'); else hex(x.u); ch('\n');
    rt_scramble();
}
void ol(int id, long double f)
{
    union { long double f; struct { u64 a; unsigned short b; } u; } x;
    x.f = f; dec(id); ch('l');
    if (f != f) ch('n'); else { hex(x.u.b); ch(','); hex(x.u.a); }
    ch('\n');
    rt_scramble();
}
/* Report bytes. */
void om(int id, const void *p, unsigned long n)
{
    const unsigned char *s = p;
    u64 i;
    dec(id); ch(' ');
    for (i = 0; i < n; ++i) {
        ch("0123456789abcdef"[s[i] >> 4]); ch("0123456789abcdef"[s[i] & 15]);
    }
    ch('\n');
    rt_scramble();
}
void os(const char *s) { while (*s) ch(*s++); ch('\n'); }

void *memcpy(void *d, const void *s, unsigned long n)
{
    char *a = d; const char *b = s;
    while (n--) { *a++ = *b++; __asm__ volatile("" ::: "memory"); }
    return d;
}
void *memset(void *d, int c, unsigned long n)
{
    char *a = d;
    while (n--) { *a++ = c; __asm__ volatile("" ::: "memory"); }
    return d;
}
int memcmp(const void *a, const void *b, unsigned long n)
{
    const unsigned char *x = a, *y = b;
    for (; n; --n, ++x, ++y) if (*x != *y) return *x - *y;
    return 0;
}
unsigned long strlen(const char *s)
{
    unsigned long n = 0;
    while (s[n]) { n++; __asm__ volatile("" ::: "memory"); }
    return n;
}
int main(int, char **);
void rt_start(long *sp) { rt_scramble(); rt_exit(main(sp[0], (char **) (sp + 1))); }
__asm__(".globl _start\n_start:\n xor %ebp, %ebp\n mov %rsp, %rdi\n"
        " and $-16, %rsp\n call rt_start\n hlt\n");

/* Trampoline: jumps to rt_target with all arguments intact, and checks on
 * return that the callee preserved what the calling convention says it must:
 * rbx, rbp, r12-r15, rsp, direction flag, x87 and SSE control. Also checks
 * that the caller aligned the stack. Violations are counted by kind. */
void (*rt_target)(void);
unsigned long rt_bad[8];
static unsigned long shadow[64 * 16];
unsigned long *rt_shadow = shadow;
unsigned rt_csr[2];
__asm__(
    ".globl rt_tramp\n"
    "rt_tramp:\n"
    " movq rt_shadow(%rip), %r11\n"
    " movq %rbx, (%r11)\n movq %rbp, 8(%r11)\n movq %r12, 16(%r11)\n"
    " movq %r13, 24(%r11)\n movq %r14, 32(%r11)\n movq %r15, 40(%r11)\n"
    " popq 48(%r11)\n movq %rsp, 56(%r11)\n"
    " addq $64, %r11\n movq %r11, rt_shadow(%rip)\n"
    " testb $15, %spl\n jz 1f\n incq rt_bad(%rip)\n"
    "1: movabsq $0x1111222233334444, %rbx\n"
    " movabsq $0x5111222233334445, %rbp\n movabsq $0x6111222233334446, %r12\n"
    " movabsq $0x7111222233334447, %r13\n movabsq $0x8111222233334448, %r14\n"
    " movabsq $0x9111222233334449, %r15\n"
    " pushfq\n testl $0x400, (%rsp)\n jz 2f\n incq rt_bad+40(%rip)\n2: popfq\n"
    " call *rt_target(%rip)\n"
    " pushfq\n testl $0x400, (%rsp)\n jz 2f\n incq rt_bad+48(%rip)\n2: popfq\n"
    " stmxcsr rt_csr(%rip)\n fnstcw rt_csr+4(%rip)\n"
    " movl rt_csr(%rip), %r11d\n andl $0xffc0, %r11d\n cmpl $0x1f80, %r11d\n je 2f\n incq rt_bad+32(%rip)\n"
    "2: cmpw $0x37f, rt_csr+4(%rip)\n je 2f\n incq rt_bad+24(%rip)\n"
    "2: movabsq $0x1111222233334444, %r11\n cmpq %r11, %rbx\n jne 3f\n"
    " movabsq $0x5111222233334445, %r11\n cmpq %r11, %rbp\n jne 3f\n"
    " movabsq $0x6111222233334446, %r11\n cmpq %r11, %r12\n jne 3f\n"
    " movabsq $0x7111222233334447, %r11\n cmpq %r11, %r13\n jne 3f\n"
    " movabsq $0x8111222233334448, %r11\n cmpq %r11, %r14\n jne 3f\n"
    " movabsq $0x9111222233334449, %r11\n cmpq %r11, %r15\n je 4f\n"
    "3: incq rt_bad+8(%rip)\n"
    "4: movq rt_shadow(%rip), %r11\n subq $64, %r11\n movq %r11, rt_shadow(%rip)\n"
    " cmpq 56(%r11), %rsp\n je 5f\n incq rt_bad+16(%rip)\n movq 56(%r11), %rsp\n"
    "5: movq (%r11), %rbx\n movq 8(%r11), %rbp\n movq 16(%r11), %r12\n"
    " movq 24(%r11), %r13\n movq 32(%r11), %r14\n movq 40(%r11), %r15\n"
    " pushq 48(%r11)\n ret\n");

/* Report the violations counted, and whether the x87 stack is empty. */
void rt_calls(void)
{
    static const char *const what[] = {"stack misaligned at call",
        "callee-saved register changed", "stack pointer changed",
        "x87 control word changed", "mxcsr changed",
        "direction flag set at call", "direction flag set at return"};
    unsigned env[7];
    int i;
    for (i = 0; i < 7; ++i) {
        if (rt_bad[i]) os(what[i]);
        rt_bad[i] = 0;
    }
    __asm__ volatile("fnstenv %0\n fldenv %0" : "+m"(env));
    if ((env[2] & 0xffff) != 0xffff) {
        os("x87 stack not empty");
        __asm__ volatile("fninit");
    }
}
/* Is this frame address (after push rbp) one of an aligned call? */
void rt_frame(void *p) { if ((unsigned long) p & 15) rt_bad[0]++; }
