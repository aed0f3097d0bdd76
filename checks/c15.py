"""C15: invalid programs are rejected. A violation is planted in a random place
of a random valid program: nested statements, after any layout of lines, in an
included file, in an inactive group. lacc has to fail with an error at that
line, accept the twin with the violation repaired, and never crash or hang,
also on programs with randomly changed tokens."""
import os
import re
import shutil

from pbt.engine import Property, Case, Fail, Skip, OK
from pbt.toolchain import run, write

# scope (b: in a function body, f: at file scope) ### violation ### valid twin
# ### flags. Flags: g gcc does not reject it (pedantic-errors), n the error is
# seen at the next token, e at the end of the function, L not in a loop, S not
# in a switch, d a directive, q not lexically valid.
TEMPLATES = """
b ### y = undeclared; ### y = x;
b ### undeclared_f(1)->a; ### pre(1);
b ### y = s.nomember; ### y = s.a;
b ### y = q->a; ### y = *q;
b ### y = x.a; ### y = s.a;
b ### y = *x; ### y = *q;
b ### y = *d; ### y = d;
b ### y = &5; ### q = &y;
b ### 5 = y; ### y = 5;
b ### x + 1 = 2; ### x = 2;
b ### pre = 0; ### y = 0;
b ### y = s; ### y = s.a;
b ### s = y; ### s.a = y;
b ### s = s + 1; ### s.a = s.a + 1;
b ### y = q * 2; ### y = *q * 2;
b ### y = d % 2; ### y = x % 2;
b ### y = d & 1; ### y = x & 1;
b ### y = d << 1; ### y = x << 1;
b ### y = ~d; ### y = ~x;
b ### y = -s; ### y = -s.a;
b ### y = !s; ### y = !s.a;
b ### y = -q; ### y = -*q;
b ### if (s) y = 1; ### if (s.a) y = 1;
b ### while (s) y = 1; ### while (s.a) y = 1;
b ### for (; s;) y = 1; ### for (; s.a;) y = 1;
b ### do y = 1; while (s); ### do y = 1; while (s.a);
b ### switch (d) { default: ; } ### switch (x) { default: ; }
b ### switch (s) { default: ; } ### switch (s.a) { default: ; }
b ### switch (x) { case 1: case 1: ; } ### switch (x) { case 1: case 2: ; }
b ### switch (x) { default: default: ; } ### switch (x) { default: ; }
b ### switch (x) { case y: ; } ### switch (x) { case 4: ; }
b ### case 1: ; ### L1: ; ### S
b ### default: ; ### L2: ; ### S
b ### break; ### while (0) break; ### LS
b ### continue; ### while (0) continue; ### L
b ### goto nowhere; ### goto L3; L3: ; ### e
b ### L4: ; L4: ; ### L4: ; L5: ;
b ### int y2; int y2; ### int y2; int y3;
b ### int y2; char y2; ### int y2; char y3;
b ### void v; ### void *v;
b ### int z[-1]; ### int z[1];
b ### struct U u; ### struct U *u;
b ### struct T { int a; int a; }; ### struct T { int a; int b; };
b ### struct T { int a : 33; }; ### struct T { int a : 32; };
b ### struct T { int a : -1; }; ### struct T { int a : 1; };
b ### struct T { int a : 0; }; ### struct T { int : 0; int b; };
b ### struct T { double a : 3; }; ### struct T { int a : 3; };
b ### struct T { void a; }; ### struct T { int a; };
b ### struct T { int f(void); }; ### struct T { int (*f)(void); };
b ### y = sizeof(struct U); ### y = sizeof(struct S);
b ### y = sizeof(void ()); ### y = sizeof(void (*)()); ### g
b ### pre(); ### pre(1);
b ### pre(1, 2); ### pre(1);
b ### pre(s); ### pre(s.a);
b ### y = x(1); ### y = pre(1);
b ### y = (struct S) x; ### y = (int) x;
b ### y = (int) s; ### y = (int) s.a;
b ### y = x ? s : 1; ### y = x ? s.a : 1;
b ### y = s ? 1 : 2; ### y = s.a ? 1 : 2;
b ### y = s && 1; ### y = s.a && 1;
b ### y = s == s; ### y = s.a == s.a;
b ### s++; ### s.a++;
b ### 5++; ### y++;
b ### --pre(1); ### --y;
b ### y = 1 +; ### y = 1 + 1;
b ### y = (1; ### y = (1);
b ### y = 1); ### y = (1);
b ### y = q[1; ### y = q[1];
b ### y = x y; ### y = x + y;
b ### y = ; ### y = 0;
b ### if y = 1; ### if (y) y = 1;
b ### if (y y = 1; ### if (y) y = 1;
b ### else y = 1; ### if (y) y = 2; else y = 1;
b ### while () y = 1; ### while (0) y = 1;
b ### for (;) y = 1; ### for (;;) break;
b ### do y = 1; ### do y = 1; while (0); ### n
b ### do y = 1; while (0) y = 3; ### do y = 1; while (0); y = 3;
b ### return y ### return y; ### n
b ### y = 1 ### y = 1; ### n
b ### int 5z; ### int z5;
b ### int a b; ### int a, b;
b ### y = 0x; ### y = 0x1;
b ### y = 08; ### y = 07;
b ### y = 1.5.5; ### y = 1.5;
b ### y = 12abc; ### y = 12;
b ### y = 'a; ### y = 'a'; ### q
b ### y = ''; ### y = 'b';
b ### y = "abc; ### y = *"abc"; ### q
b ### y = '\\q'; ### y = '\\n'; ### g
b ### y = @; ### y = 1; ### q
b ### y = `; ### y = 1; ### q
b ### y = #; ### y = 1;
b ### y = 1 } ### y = 1;
b ### { y = 1; ### { y = 1; } ### e
b ### static extern int z; ### extern int z;
b ### typedef static int z; ### typedef int z;
b ### unsigned float z; ### unsigned int z;
b ### long long long z; ### long long z;
b ### short long z; ### long z;
b ### signed unsigned z; ### signed z;
b ### int char z; ### char z;
b ### int struct S z; ### struct S z;
b ### const z const; ### const int z;
b ### enum E { A, A }; ### enum E { A, B };
b ### enum E { A = x }; ### enum E { A = 1 };
b ### enum E { }; ### enum E { A };
b ### enum E e = {1, 2}; ### enum E { A } e = {1};
b ### int z[2] = {1, 2, 3}; ### int z[2] = {1, 2}; ### g
b ### int z = {1, 2}; ### int z = {1}; ### g
b ### int z[] ; ### int z[1];
b ### char z[2] = "abc"; ### char z[4] = "abc"; ### g
b ### struct S z = {1, 2, 3}; ### struct S z = {1, 2}; ### g
b ### struct S z = {.c = 1}; ### struct S z = {.a = 1};
b ### int z[2] = {[2] = 1}; ### int z[2] = {[1] = 1};
b ### int z[2] = {.a = 1}; ### int z[2] = {[0] = 1};
b ### struct S z = {[0] = 1}; ### struct S z = {.a = 1};
b ### static int z = x; ### static int z = 3;
b ### static int *z = &x; ### static int *z = 0;
b ### static int z[x]; ### static int z[3];
b ### static int z = 1 / 0; ### static int z = 1 / 1;
b ### extern int z = 1; ### int z = 1;
b ### int f2(void) { return 0; } ### int f2(void); ### g
b ### int z(void)[3]; ### int (*z(void))[3];
b ### int z[3](void); ### int (*z[3])(void);
b ### int (*z)(void)(void); ### int (*(*z)(void))(void);
b ### struct { int b : 3; } z; q = &z.b; ### struct { int b; } z; q = &z.b;
b ### return; ### return 0; ### g
b ### return s; ### return s.a;
b ### q = s; ### q = &s.a;
b ### q = 5.0; ### q = 0;
b ### q = q + q; ### y = q - q;
b ### q = 1 - q; ### q = q - 1;
b ### q = q + 1.0; ### q = q + 1;
b ### y = q[1.0]; ### y = q[1];
b ### y = x[1]; ### y = 1[q];
b ### y = (int *) d; ### y = (int) d;
b ### d = (double) q; ### d = (double) *q;
b ### y = s.; ### y = s.a;
b ### y = s.5; ### y = s.a;
b ### y = s->a; ### y = (&s)->a;
b ### struct S { int zz; } ; struct S { int yy; }; ### struct S { int zz; } ; { struct S { int yy; } k; }
b ### struct Q1 { int a; }; union Q1 u; ### struct Q1 { int a; }; struct Q1 u;
b ### enum Q2 { QA }; struct Q2 *u; ### enum Q2 { QA }; enum Q2 *u;
b ### struct Q3 { int n; struct Q3 m; }; ### struct Q3 { int n; struct Q3 *m; };
b ### _Static_assert(0, "no"); ### _Static_assert(1, "no");
b ### _Static_assert(x, "no"); ### _Static_assert(2 > 1, "no");
b ### typedef int T1; T1 = 5; ### typedef int T1; T1 z = 5;
b ### typedef int T3; T3 T3 T3; ### typedef int T3; T3 T4;
b ### int z = int; ### int z = 1;
b ### y = sizeof int; ### y = sizeof(int);
b ### y = sizeof; ### y = sizeof y;
b ### y = (int) ; ### y = (int) 1;
b ### int; ; ) ### int z; ;
b ### void g(int a, int a); ### void g(int a, int b);
b ### void g(void, int); ### void g(int);
b ### void g(int, ...,); ### void g(int, ...);
b ### void g(...); ### void g(int, ...); ### g
b ### int g(int) int h; ### int g(int), h;
b ### y = &&L9; ### y = 1;
b ### y = x ? 1; ### y = x ? 1 : 2;
b ### y = x ? : ; ### y = x ? 1 : 2;
b ### y =! = 3; ### y = !3;
b ### #error no ### #pragma no ### d
b ### #foo ### # ### d
b ### #else ### #pragma x ### d
b ### #endif ### #pragma x ### d
b ### #elif 1 ### #pragma x ### d
b ### #include "nofile.h" ### #include <stddef.h> ### d
b ### #include nofile ### #include <stddef.h> ### d
b ### #define ### #define AA ### d
b ### #define 5 ### #define BB 5 ### d
b ### #define FF(a,a) 1 ### #define FF(a,b) 1 ### d
b ### #define FF(a 1 ### #define FF(a) 1 ### d
b ### #define FF(a) #b ### #define FF(a) #a ### d
b ### #define FF ## a ### #define FF a ### d
b ### #define FF a ## ### #define FF a ## b ### d
b ### #undef ### #undef A ### d
b ### #ifdef ### #pragma x ### d
b ### #if 1 / 0 ### #pragma x ### d
b ### #if (1 ### #pragma x ### d
f ### int v = 1; int v = 2; ### int v = 1; int v;
f ### int v; char v; ### int v; char w;
f ### int f(int); int f(char); ### int f(int); int f(int x);
f ### int f(void); char *f(void); ### int f(void); char *g(void);
f ### int f; int f(void); ### int f; int g(void);
f ### static int v; int v; ### static int v; static int v;
f ### int v; static int v; ### static int v; extern int v;
f ### int v[n]; ### int v[4];
f ### int v = undeclared; ### int v = 2;
f ### int *p = undeclared; ### int v; int *p = &v;
f ### int w; int v = w; ### int w; int *v = &w;
f ### return 1; ### int z;
f ### v = 1; z = 3 + ; ### int v = 1;
f ### int f(void) { ### int f(void) { return 0; } ### e
f ### } ### ;int z;
f ### if (1) ; ### int z;
f ### int f(int x) int y; { return x; } ### int f(x) int x; { return x; }
f ### int f(a, b) { return 0; } int z z; ### int f(a, b) { return 0; }
f ### struct S; struct S s; int k = sizeof s; ### struct S { int a; }; struct S s; int k = sizeof s;
f ### struct S { int a; }; struct S { int a; }; ### struct S { int a; }; struct T { int a; };
f ### struct S { int a; } ; enum S e; ### struct S { int a; } ; struct S e;
f ### int f(void) { return 0; } = 1; ### int f(void) { return 0; }
f ### int f() = 1; ### int f();
f ### int f(x, y) int x; int z; { return 0; } ### int f(x, y) int x; int y; { return 0; }
f ### typedef int T; int T; ### typedef int T; int U;
f ### typedef int T = 1; ### typedef int T;
f ### enum E { A }; int A; ### enum E { A }; int B;
f ### int x : 3; ### struct { int x : 3; } v;
f ### void f(void) { return 1; } ### void f(void) { return; } ### g
f ### int f(int) { return 0; } ### int f(int v) { return 0; } ### g
f ### int v[2] = {1,2,3}; ### int v[2] = {1,2}; ### g
f ### int v[][]; ### int v[][3];
f ### int f(void)(void); ### int f(void);
f ### foo bar; ### int bar;
f ### int 3; ### int v3;
f ### int v = (1; ### int v = (1);
f ### int v = 1 int w; ### int v = 1; int w;
f ### _Static_assert(sizeof(int) == 8, "x"); ### _Static_assert(sizeof(int) == 4, "x");
f ### struct { int a } v; ### struct { int a; } v; ### g
f ### struct { int a; v; ### struct { int a; } v; ### n
f ### union U { int a; } union V { int b; }; ### union U { int a; }; union V { int b; };
f ### extern int v = 1; int v = 2; ### extern int v; int v = 2;
f ### ??? ### int v;
f ### struct U f(void) { } ### struct U f(void);
f ### struct U f(void); int g(void) { f(); return 0; } ### struct U f(void); int g(void) { f; return 0; }
f ### struct U f(int); struct U *g(void) { return &f(1); } ### struct U *f(int); struct U *g(void) { return f(1); }
f ### void f(struct U x); struct U *p; int g(void) { f(*p); return 0; } ### void f(struct U *x); struct U *p; int g(void) { f(p); return 0; }
f ### int g(struct U x) { return 0; } ### int g(struct U *x) { return 0; }
f ### static struct U v; ### static struct U { int a; } v; ### e
f ### struct U v; ### extern struct U v; ### e
b ### struct U *u; u++; ### struct S *u; u++;
b ### struct U *u; x = u[1].a; ### struct S *u; x = u[1].a;
b ### void *u; y = u - u; ### char *u; y = u - u;
b ### y = ((void) 1) + 1; ### y = ((int) 1) + 1;
b ### y = (1, s) ; ### y = (1, s.a) ;
b ### int z[2]; z = q; ### int *z; z = q;
b ### int z[2]; z++; ### int *z; z++;
b ### for (struct S z = 1; ;) break; ### for (struct S z = {1}; ;) break;
b ### for (y = undeclared; ;) break; ### for (y = 1; ;) break;
b ### for (; ; undeclared++) break; ### for (; ; y++) break;
b ### if (undeclared) ; ### if (y) ;
b ### switch (undeclared) { case 1: ; } ### switch (y) { case 1: ; }
b ### return undeclared; ### return y;
b ### { { { y = undeclared; } } } ### { { { y = x; } } }
b ### { int inner; } inner = 1; ### { int inner; inner = 1; }
b ### for (int inner = 0; inner < 2; inner++) ; inner = 1; ### int inner; for (inner = 0; inner < 2; inner++) ; inner = 1;
b ### y = sizeof(undeclared); ### y = sizeof(y);
b ### y = pre(undeclared); ### y = pre(y);
b ### y = q[undeclared]; ### y = q[1];
b ### y = x ? undeclared : 1; ### y = x ? y : 1;
b ### y = 0 && undeclared; ### y = 0 && y;
b ### int z[] = { 1, undeclared }; ### int z[] = { 1, y };
b ### struct S z = { .a = undeclared }; ### struct S z = { .a = y };
b ### static int z = pre(1); ### int z = pre(1);
b ### static int *z = q; ### static int *z = (int *) 8;
b ### static const char *z = "a" + x; ### static const char *z = "a" + 1;
b ### enum { E1 = 1.5 }; ### enum { E1 = 1 };
b ### int z[1.5]; ### int z[1];
b ### struct { int w : x; } z; ### struct { int w : 3; } z;
b ### switch (x) { case 1: ; case 2: ; case 0x1: ; } ### switch (x) { case 1: ; case 2: ; case 0x3: ; }
b ### switch (x) { case 'a': ; case 97: ; } ### switch (x) { case 'a': ; case 98: ; }
b ### switch (x) { case 1.0: ; } ### switch (x) { case 1: ; }
b ### switch (x) { default: switch (y) { default: ; } default: ; } ### switch (x) { default: switch (y) { default: ; } case 9: ; }
b ### y = x / q; ### y = x / *q;
b ### y = s / x; ### y = s.a / (x | 1);
b ### y = x % q; ### y = x % (*q | 1);
b ### y = x | d; ### y = x | 1;
b ### y = q | 1; ### y = *q | 1;
b ### y = x ^ d; ### y = x ^ 1;
b ### y = x >> d; ### y = x >> 1;
b ### y = s >> 1; ### y = s.a >> 1;
b ### y = +s; ### y = +s.a;
b ### y = +q; ### y = +*q;
b ### y = ~q; ### y = ~*q;
b ### y = x < s; ### y = x < s.a;
b ### y = s >= x; ### y = s.a >= x;
b ### y = q < d; ### y = x < d;
b ### y = q - d; ### y = x - 1;
b ### y = q - s; ### y = q - q;
b ### y = s - 1; ### y = s.a - 1;
b ### struct U *u = 0; y = u - u; ### struct S *u = &s; y = u - u;
b ### struct U *u = 0; u = u - 1; ### struct S *u = &s; u = u - 1;
b ### struct U *u = 0; u -= 1; ### struct S *u = &s; u -= 1;
b ### struct U *u = 0; u = 1 + u; ### struct S *u = &s; u = 1 + u;
b ### struct U *u = 0; y = (*u).a; ### struct S *u = &s; y = (*u).a;
b ### y = __builtin_va_arg(x, int); ### __builtin_va_list ap;
b ### q = &(x + 1); ### q = &(x);
b ### q = &pre(1); ### q = &y;
b ### q = &x++; ### q = &x;
b ### int z[4] = "abc"; ### char z[4] = "abc";
b ### short z[] = "abc"; ### signed char z[] = "abc";
b ### y = x ? q : &d; ### q = x ? q : &y;
b ### y = x ? (void) 1 : 2; ### y = x ? 1 : 2;
b ### y = pre; ### y = pre(2); ### g
b ### int g(inline int a); ### int g(int a);
b ### int g(static int a); ### int g(register int a);
b ### int g(int a, void); ### int g(int a);
b ### int g(int z[static]); ### int g(int z[static 2]);
b ### y = (int zz) x; ### y = (int) x;
b ### y = sizeof(int zz); ### y = sizeof(int *);
b ### struct Q5 { int a; }; enum Q5 { Q5A }; ### struct Q5 { int a; }; enum Q6 { Q5A };
b ### enum Q7 { Q7A }; enum Q7 { Q7B }; ### enum Q7 { Q7A }; enum Q8 { Q7B };
b ### unsigned signed z; ### unsigned z;
b ### signed signed z; ### signed z;
b ### unsigned unsigned z; ### unsigned z;
b ### struct { inline int a; } z; ### struct { int a; } z;
b ### struct { _Noreturn int a; } z; ### struct { int a; } z;
b ### struct { register int a; } z; ### struct { int a; } z;
b ### struct { static int a; } z; ### struct { int a; } z;
b ### struct { typedef int a; } z; ### struct { int a; } z;
b ### register register int z; ### register int z;
b ### auto static int z; ### static int z;
b ### y = (static int) x; ### y = (const int) x;
b ### y = sizeof(extern int); ### y = sizeof(const int);
b ### extern int z[x]; ### int z[x + 1];
b ### int z[x] = {1}; ### int z[1] = {1};
b ### int z = (void) 1; ### int z = ((void) 1, 2);
b ### y = (void) 1; ### (void) 1;
b ### int z[2] = {[1.0] = 1}; ### int z[2] = {[1] = 1};
b ### int z[2] = {[x] = 1}; ### int z[2] = {[1] = 1};
b ### int z[2] = {[-1] = 1}; ### int z[2] = {[0] = 1};
b ### y = (&s)->nomember; ### y = (&s)->b;
b ### y = _Alignof(int (void)); ### y = _Alignof(int (*)(void)); ### g
b ### y = _Alignof(struct U); ### y = _Alignof(struct S);
b ### y = _Alignof(void ()); ### y = _Alignof(void *); ### g
b ### struct { int a; struct U b; } z; ### struct { int a; struct U *b; } z;
b ### struct { struct U b; int a; } z; ### struct { struct U *b; int a; } z;
b ### struct { int b; int z[]; } w = {1, {2}}; ### struct { int b; int z[]; } w = {1};
b ### restrict int z; ### int *volatile z;
b ### int restrict z; ### int *volatile z;
b ### struct { int : 0; int z : 0; } w; ### struct { int : 0; int z : 1; } w;
b ### struct { int *z : 3; } w; ### struct { int z : 3; } w;
b ### struct { int a : 3.0; } w; ### struct { int a : 3; } w;
b ### struct { struct S z : 3; } w; ### struct { int z : 3; } w;
b ### struct { char z : 9; } w; ### struct { char z : 8; } w; ### g
b ### struct { int z; struct { int z; }; } w; ### struct { int z; struct { int v; }; } w;
b ### _Pragma 1; ### _Pragma("x");
b ### _Pragma(1); ### _Pragma("x");
b ### _Pragma("x"; ### _Pragma("x");
b ### y = '\\x'; ### y = '\\x1';
b ### y = *"\\xg"; ### y = *"\\x1g";
b ### y = 99999999999999999999; ### y = 9999; ### g
b ### y = 0xfffffffffffffffff; ### y = 0xff; ### g
b ### y = 1uu; ### y = 1u;
b ### y = 1lul; ### y = 1lu;
b ### y = 1.0u; ### y = 1.0f;
b ### y = 1e; ### y = 1e1;
b ### y = 0xg; ### y = 0xa;
b ### y = 1e+; ### y = 1e+0;
b ### __asm__("" : : "+r"(x)); ### __asm__("" : : "r"(x));
b ### __asm__("" : "=r"(5)); ### __asm__("" : "=r"(y));
b ### __asm__("" : "=r"(x + 1)); ### __asm__("" : "=r"(x));
b ### __asm__("" : "r"(y)); ### __asm__("" : "+r"(y));
b ### __asm__("frobnicate %rax" : "=r"(y) : "r"(x)); ### __asm__("mov %1, %0" : "=r"(y) : "r"(x)); ### gn
b ### __asm__("mov %%rax" : "=r"(y) : "r"(x)); ### __asm__("mov %1, %0" : "=r"(y) : "r"(x)); ### gn
b ### __asm__("movl %9, %0" : "=r"(y) : "r"(x)); ### __asm__("mov %1, %0" : "=r"(y) : "r"(x)); ### gn
b ### __asm__("movl %[no], %0" : "=r"(y) : "r"(x)); ### __asm__("mov %1, %0" : "=r"(y) : "r"(x)); ### gn
b ### __asm__("movl %%eqx, %%eax" : "=r"(y) : "r"(x)); ### __asm__("mov %1, %0" : "=r"(y) : "r"(x)); ### gn
b ### __asm__("movl %%eax, %%ecx %%edx" : "=r"(y) : "r"(x)); ### __asm__("mov %1, %0" : "=r"(y) : "r"(x)); ### gn
b ### __asm__(x : "=r"(y) : "r"(x)); ### __asm__("mov %1, %0" : "=r"(y) : "r"(x));
b ### goto x + 1; ### goto L6; L6: ;
b ### goto 5; ### goto L6; L6: ;
b ### sizeof(int) = 1; ### (void) sizeof(int);
b ### "abc" = 0; ### "abc"[0];
b ### pre(1)++; ### pre(1);
b ### (x, y) = 1; ### (x, y);
b ### (x ? x : y) = 1; ### (x ? x : y);
b ### (int) x = 1; ### x = 1;
b ### -x = 1; ### x = -1;
b ### &x = q; ### q = &x;
b ### &&x; ### &x;
b ### y = x.; ### y = x;
b ### y = x->; ### y = x;
b ### y = q->a; ### y = (&s)->a;
b ### y = s[0]; ### y = q[0];
b ### y = d[q]; ### y = 0[q];
b ### *s; ### *q;
b ### *pre(1) = 1; ### pre(1);
b ### const int k = 1; int z[2] = {[k] = 1}; ### enum { k = 1 }; int z[2] = {[k] = 1};
b ### enum { E2 = x }; ### enum { E2 = 2 };
b ### struct S z = x; ### struct S z = s;
b ### struct S z = {s, s, 1}; ### struct S z = {1, 2};
b ### struct K { int a; } k; s = k; ### struct K { int a; } k; k = k;
b ### struct K { int a; } k; k = s; ### struct S k; k = s;
b ### struct K { int a; } k; pre(k); ### struct K { int a; } k; pre(k.a);
b ### while (x) else ; ### while (x) break; ### L
b ### { if (x) ; else ; else ; } ### { if (x) ; else ; }
b ### do ; until (x); ### do ; while (0); ### L
b ### switch x { default: ; } ### switch (x) { default: ; }
b ### for (y = 0, y < 2; y++) ; ### for (y = 0; y < 2; y++) ;
b ### for (y = 0; y < 2) ; ### for (y = 0; y < 2;) break;
b ### for (y = 0; y < 2; y++; y++) ; ### for (y = 0; y < 2; y++, y++) ;
b ### L7: } ### L7: ;
b ### switch (x) { case : ; } ### switch (x) { case 1: ; }
b ### switch (x) { case 1 ; } ### switch (x) { case 1: ; }
b ### switch (x) { default ; } ### switch (x) { default: ; }
b ### switch (q) { default: ; } ### switch (*q) { default: ; }
b ### int z[2][]; ### int z[2][2];
b ### int z[][2]; ### int (*z)[2];
b ### struct U z[2]; ### struct U *z[2];
b ### int f9(void)(void); ### int (*f9(void))(void);
b ### extern int x9[3]; extern int x9[4]; ### extern int x9[3]; extern int x9[];
b ### extern int x9; extern char x9; ### extern int x9; extern int x9;
b ### typedef int T5; int T5; ### typedef int T5; { int T5; }
b ### enum { EA }; int EA; ### enum { EA }; { int EA; }
b ### enum { EA }; EA = 3; ### enum { EA }; y = EA;
b ### enum { EA, EB = EA, EA }; ### enum { EA, EB = EA, EC };
b ### int y5; static int y5; ### static int y5;
b ### int y5; extern int y5; ### extern int y5;
b ### static int f9(void); ### int f9(void);
b ### int f9(int a, int a); ### int f9(int a, int b);
b ### int f9(int a, char *a); ### int f9(int a, char *b);
b ### #if 1.5 ### #if 1<NL>#endif ### d
b ### #if 1 % 0 ### #if 1 % 1<NL>#endif ### d
b ### #if 'a ### #if 'a'<NL>#endif ### d
b ### #if ### #if 1<NL>#endif ### d
b ### #if 1 + ### #if 1 + 1<NL>#endif ### d
b ### #if "a" ### #if 1<NL>#endif ### d
b ### #if defined ### #if defined x<NL>#endif ### d
b ### #if defined + ### #if defined x<NL>#endif ### d
b ### #if defined(x ### #if defined(x)<NL>#endif ### d
b ### #if 0x ### #if 0x0<NL>#endif ### d
b ### #if 1z ### #if 1u<NL>#endif ### d
b ### #ifndef ### #ifndef x<NL>#endif ### d
b ### #ifndef 5 ### #ifndef x5<NL>#endif ### d
b ### #undef 5 ### #undef x5 ### d
b ### #include ### #include <stddef.h> ### d
b ### #include 5 ### #include <stddef.h> ### d
b ### #include <stddef.h ### #include <stddef.h> ### d
b ### #define FF(a) a # ### #define FF(a) a # a ### d
b ### #define FF(a) # ### #define FF(a) #a ### d
b ### #define FF(a) ##a ### #define FF(a) a ### d
b ### #define FF(1) 1 ### #define FF(a) 1 ### d
b ### #define FF(a b) 1 ### #define FF(a,b) 1 ### d
b ### #define FF(...,a) 1 ### #define FF(a,...) 1 ### d
b ### #line foo ### #line 7777<NL>#line 1 ### d
b ### #line -1 ### #line 7777<NL>#line 1 ### d
b ### #line "foo" ### #line 7777<NL>#line 1 ### d
b ### #define FM(a) a<NL>y = FM(1, 2); ### #define FM(a) a<NL>y = FM(1); ### n
b ### #define FM(a, b) a b<NL>y = FM(1); ### #define FM(a, b) a b<NL>y = FM(1,); ### n
b ### #define FM() 1<NL>y = FM(2); ### #define FM() 1<NL>y = FM(); ### n
b ### #define FM(a) 1<NL>#if FM(2 ### #define FM(a) 1<NL>#if FM(2)<NL>#endif ### dn
b ### #define FM(a, b) a ## b<NL>y = FM(x, +); ### #define FM(a, b) a ## b<NL>y = FM(x,); ### n
b ### #define FN 1<NL>#define FN 2 ### #define FN 1<NL>#define FN 1 ### dn
b ### #define FN(a) a<NL>#define FN a ### #define FN(a) a<NL>#define FN(a) a ### dn
b ### #if 1<NL>y = 1; ### #if 1<NL>y = 1;<NL>#endif ### e
f ### int n; int v[n]; ### enum { n = 3 }; int v[n];
f ### int n; struct { int v[n]; } w; ### struct { int v[4]; } w;
f ### int f(void) { return 0; } int f(void) { return 0; } ### int f(void) { return 0; } int f(void);
f ### int v[3]; int v; ### int v[3]; int w;
f ### int v[3]; char v[3]; ### int v[3]; int v[3];
f ### extern int v[3]; int v[4]; ### extern int v[3]; int v[3];
f ### extern int v[]; char v[3]; ### extern int v[]; int v[3];
f ### int v[2][3]; extern int v[3][3]; ### int v[2][3]; extern int v[][3];
f ### int v[2][3]; extern int v[][4]; ### int v[2][3]; extern int v[2][3];
f ### int *v; char *v; ### int *v; int *v;
f ### int v; const int v; ### const int v; const int v;
f ### int f(int); int *f; ### int f(int); int *g;
f ### int f(int); int f(int, int); ### int f(int); int f(int);
f ### int f(int *); int f(char *); ### int f(int *); int f(int[]);
f ### int f(int (*)(int)); int f(int (*)(char)); ### int f(int (*)(int)); int f(int (int));
f ### void f(void); int f(void); ### void f(void); void f();
f ### enum A { A1 } ; struct A; ### enum A { A1 } ; struct B;
f ### struct A { int a; }; union A; ### struct A { int a; }; union B;
f ### int T; typedef int T; ### int T; typedef int U1;
f ### enum { A }; typedef int A; ### enum { A }; typedef int B;
f ### enum { A }; int A(void); ### enum { A }; int B(void);
f ### typedef int T; typedef char T; ### typedef int T; typedef char V;
f ### typedef int T; int T(void) { return 0; } ### typedef int T; int V(void) { return 0; }
f ### static int f(void); int f; ### static int f(void); int g;
f ### int f(void); static int f(void) { return 0; } ### static int f(void); int f(void) { return 0; }
f ### extern int v; static int v; ### static int v; extern int v;
f ### int f(a, int); ### int f(int a, int);
f ### int f(x) { return x; } int x x; ### int f(x) int x; { return x; }
f ### restrict int v; ### int *volatile v;
f ### int v = {}; int w = ; ### int v = {1}; int w;
f ### int *v = 5.0; ### int *v = 0;
f ### struct A { int a; } v = 3; ### struct A { int a; } v = {3};
f ### int x1, *v = &x1 + x1; ### int x1, *v = &x1 + 1;
f ### int *v = &*(int *) undeclared; ### int *v = &*(int *) 8;
f ### int x1; int v = x1; ### int x1; int *v = &x1;
f ### int x1; int v = x1 + 1; ### int x1; int *v = &x1 + 1;
f ### int g1(void); int v = g1(); ### int g1(void); int (*v)(void) = g1;
f ### int x1[2]; int v = x1[0]; ### int x1[2]; int *v = &x1[0];
f ### int x1; _Static_assert(x1, "x"); ### int x1; _Static_assert(sizeof x1, "x");
f ### _Static_assert(1.0, "x"); ### _Static_assert(1, "x");
f ### _Static_assert(1, 2); ### _Static_assert(1, "2");
f ### struct A { int a; struct A b; }; ### struct A { int a; struct A *b; };
f ### struct A { struct A b[2]; }; ### struct A { struct A *b[2]; };
f ### struct A { int f(void); }; ### struct A { int (*f)(void); };
f ### struct A { int a[]; }; ### struct A { int b; int a[]; };
f ### int f(void) int x; { return 0; } ### int f(x) int x; { return 0; }
f ### int (f)(x) char y; { return 0; } ### int (f)(x) char x; { return 0; }
f ### char v[0x7fffffffffffffff][4]; ### char v[7][4];
f ### int f(void) { return 0; } ; } ### int f(void) { return 0; } int w;
f ### { int v; } ### struct { int v; } w;
f ### for (;;) ; ### int v;
f ### goto x; ### int x;
f ### x: int v; ### int v;
f ### int v w; ### int v, w;
f ### int v[; ### int v[1];
f ### int v(; ### int v();
f ### int (v; ### int (v);
f ### struct { ; ### struct Z2 { int z; };
f ### enum { A B }; ### enum { A, B };
f ### enum { A = }; ### enum { A = 1 };
f ### enum { 5 }; ### enum { A5 };
f ### struct 5; ### struct A5;
f ### enum; ### enum { A };
f ### struct; ### struct A5;
"""

TEMPLATES = [tuple((l.replace("<NL>", "\n").split(" ### ") + [""])[:4]) for l in TEMPLATES.strip("\n").split("\n")]

TYPES = ["int", "long", "short", "unsigned", "char", "unsigned long", "unsigned char"]
ERR = re.compile(rb"^\((.*), (\d+)\) error: ", re.M)


class Gen:
    def __init__(self, src):
        self.src = src
        self.n = 0

    def filler(self, scope):
        """Valid lines without effect on what follows."""
        src = self.src
        self.n += 1
        n = self.n
        k = src.draw(14)
        if k == 0:
            return [""] * src.int(1, 4)
        if k == 1:
            return ["/* comment"] + [" ' \" ??/ \\"] * src.draw(3) + ["*/"]
        if k == 2:
            return ["#define M%d(a, b) \\" % n] + ["    a + \\"] * src.draw(3) + ["    b"]
        if k == 3:
            return ["#if 0", "bad ] text {", "#else /* other */", "#endif"]
        if k == 4:
            return ["#ifndef NOTDEF%d" % n] + (["#define D%d" % n] if src.chance(50) else []) + ["#endif"]
        if k == 5:
            return ["// line comment \\" if src.chance(30) else "// line comment", "// more"]
        if k == 6:
            return ["#pragma something %d" % n]
        if scope == "f":
            if k == 7:
                return ["struct F%d {" % n, "    int a;", "    char *b;", "};"]
            if k == 8:
                return ["static int g%d(int a) {" % n, "    return a + \\", "        1;", "}"]
            if k == 9:
                return ["enum { E%d_A," % n, "  E%d_B };" % n]
            if k == 10:
                return ['char t%d[] = "abc" \\' % n, '    "def"', "    ;"]
            if k == 11:
                return ["typedef", "    int", "    T%d_t;" % n]
            return ["int v%d = %d;" % (n, n)]
        if k == 7:
            return ["y +=", "    x;"]
        if k == 8:
            return ["if (y)", "    y++;", "else", "    y--;"]
        if k == 9:
            return ["{ int y = 1; y++;", "}"]
        if k == 10:
            return ['y += *"abc\\', 'def";']
        if k == 11:
            return ["for (y = 0; y < 2; y++)", "    x += y;"]
        return ["y = y + %d;" % n]

    def fillers(self, scope, most):
        out = []
        for _ in range(self.src.draw(most + 1)):
            out += self.filler(scope)
        return out

    def wrap(self, flags):
        """Statements around the place: (opening lines, closing lines)."""
        src = self.src
        pre, post = [], []
        for _ in range(src.weighted([(3, 0), (3, 1), (2, 2), (1, 3), (1, 6)])):
            k = src.draw(8)
            if k == 0:
                a, b = ["{"], ["}"]
            elif k == 1:
                a, b = ["if (x) {"], ["}"]
            elif k == 2:
                a, b = ["if (x) y = 2;", "else {"], ["}"]
            elif k == 3 and "L" not in flags:
                a, b = ["while (x--) {"], ["}"]
            elif k == 4 and "L" not in flags:
                a, b = ["do {"], ["} while (x--);"]
            elif k == 5 and "S" not in flags:
                a, b = ["switch (x) {", "case 7: ;"], ["}"]
            elif k == 6 and "L" not in flags:
                a, b = ["for (x = 0; x < 3; x++) {"], ["}"]
            else:
                self.n += 1
                a, b = ["lab%d: {" % self.n], ["}"]
            pre += a + self.fillers("b", 1)
            post = self.fillers("b", 1) + b + post
        return pre, post


class P(Property):
    id = "C15"
    rule = ("a violation planted at a place gcc confirms as invalid (or listed as one gcc only warns of) with a "
            "twin gcc accepts, or a program changed in at least one token, or a sequence of files of which some "
            "are invalid; distinct programs")
    batch = 12
    quick_cases = 7200
    thorough_factor = 10
    variants = ("lacc",)
    assumptions = [
        "violations lacc does not diagnose at all are outside the property (DESIGN.md lists them); each of the "
        "listed kinds has to be diagnosed wherever it stands",
        "a missing token is reported at the line of the token found in its place",
    ]

    def gen(self, src, index):
        kind = src.weighted([(14, "plant"), (1, "skipped"), (4, "mutate"), (1, "many"), (1, "driver")])
        if kind == "mutate":
            return self.mutate(src)
        if kind == "many":
            return self.many(src)
        if kind == "driver":
            return self.driver(src)
        g = Gen(src)
        scope, bad, good, flags = src.choice(TEMPLATES)
        if kind == "skipped" and set(flags) & set("dq"):
            kind = "plant"
        t = src.choice(TYPES)
        head = ["struct S { %s a; %s b; };" % (t, src.choice(TYPES)), "%s pre(%s p) { return p; }" % (t, t)]
        if src.chance(30):
            head.reverse()
        head = g.fillers("f", 2) + head + g.fillers("f", 3)
        if scope == "b":
            sig = ["%s f(%s x, %s *q, struct S s, %s d)" % (t, t, t, src.choice(["double", "float", "long double"])),
                   "{"]
            if src.chance(30):
                sig = ["static " + sig[0], "{"]
            pre, post = g.wrap(flags)
            pre = sig + [" %s y = 0;" % t] + g.fillers("b", 2) + pre
            post = post + g.fillers("b", 2) + [" return y;", "}"]
        else:
            pre, post = [], []
        post += g.fillers("f", 3) + ["int last;"]
        ind = " " * src.draw(6)
        if kind == "skipped":
            pre += ["#if %s" % src.choice(["0", "defined UNDEFINED", "1 - 1", "0 && 1 / 0"]), ]
            if src.chance(30):
                pre += ["#if 1", "#endif"]
            post = [src.choice(["#endif", "#else\n#endif", "#elif 0\n#endif"])] + post
        # The file the violation is in.
        files = {}
        inc = src.weighted([(6, 0), (1, 1), (1, 2)])
        where = "t.c"
        body = None
        if inc == 1:
            # The place is in a header.
            where = "inc.h"
            hp = g.fillers(scope, 2)
            hq = g.fillers(scope, 2) if scope == "f" else []
            line = len(hp) + 1
            cut = (head + pre, post)

            def build(x):
                return {"t.c": "\n".join(cut[0] + ['#include "inc.h"'] + cut[1]) + "\n",
                        "inc.h": "\n".join(hp + [ind + x] + hq) + "\n"}
        else:
            if inc == 2:
                hp = g.fillers("f", 3)
                files["other.h"] = "\n".join(hp) + "\n"
                head = head[:0] + ['#include "other.h"'] + head
            line = len(head) + len(pre) + 1

            def build(x):
                fs = dict(files)
                fs["t.c"] = "\n".join(head + pre + [ind + x] + post) + "\n"
                return fs
        line = len("\n".join(head + pre + [""]).split("\n")) if where == "t.c" else line
        ok = build(good)
        nok = build(bad)
        last = line
        if "n" in flags or where == "inc.h" and "n" in flags:
            last = "next"
        elif "e" in flags:
            last = "end"
        mode = src.choice([["-S"], ["-c"], ["-c", "-O1"], ["-c", "-std=c89"], ["-c", "-fPIC"],
                           ["-S", "-dump-symbols"] if False else ["-c", "-g"], ["-S", "-O3"]])
        if "d" in flags and src.chance(30):
            mode = ["-E"]
        if kind == "skipped":
            ok, nok = nok, None
        return Case(key=str(sorted((nok or ok).items())), tags=[kind, scope, "inc%d" % inc], kind=kind, ok=ok,
                    nok=nok, where=where, line=line, last=last, mode=mode, flags=flags, bad=bad,
                    sample=(nok or ok)[where])

    # Random changes of tokens.
    def mutate(self, src):
        g = Gen(src)
        text = []
        for _ in range(src.int(1, 3)):
            t = src.choice(TYPES)
            text += ["struct S%d { %s a; %s b : 3; };" % (g.n, t, "int"), ]
            parts = src.sample(TEMPLATES, src.int(1, 3))
            text += g.fillers("f", 2)
            for p in parts:
                if p[0] == "f":
                    text.append(p[2])
            g.n += 1
            text += ["struct S { %s a; %s b; }; %s pre(%s p) { return p; }" % (t, t, t, t)] if len(text) < 9 else []
            text += ["%s f%d(%s x, %s *q, struct S s, double d) {" % (t, g.n, t, t), " %s y = 0;" % t]
            a, b = g.wrap("")
            text += a
            for p in parts:
                if p[0] == "b":
                    text.append(p[2])
            text += b + ["return y; }"]
        s = "\n".join(text) + "\n"
        toks = re.findall(r"\s+|[A-Za-z_]\w*|\.?\d[\w.]*|\"[^\"\n]*\"|'[^'\n]*'|->|\+\+|--|<<|>>|&&|\|\||[<>=!+*/%&|^-]=|\.\.\.|##|.", s, re.S)
        real = [i for i, x in enumerate(toks) if not x.isspace()]
        pool = ["(", ")", "{", "}", "[", "]", ";", ",", "*", "&", "=", ".", "->", "...", "int", "void", "struct",
                "union", "enum", "static", "extern", "typedef", "const", "case", "default", ":", "?", "0", "1",
                "-1", "1.5", "'a'", "\"s\"", "x", "y", "q", "s", "d", "S", "f1", "sizeof", "return", "if", "else",
                "while", "do", "for", "goto", "switch", "break", "continue", "unsigned", "char", "double", "float",
                "long", "short", "_Static_assert", "_Alignof", "inline", "#", "##", "++", "--", "+", "-", "!", "~",
                "<<", "%", "/", "||", "&&", "+=", "__func__", "asm", "__builtin_va_arg", "__builtin_alloca",
                "\n#if 1\n", "\n#endif\n", "\n#else\n", "\n#define x y\n", "\n#define y(\n", "\n#include\n"]
        n = src.weighted([(3, 1), (2, 2), (1, 4), (1, 8)])
        for _ in range(n):
            i = real[src.draw(len(real))]
            k = src.draw(5)
            if k == 0:
                toks[i] = ""
            elif k == 1:
                toks[i] = toks[i] + " " + toks[i]
            elif k == 2:
                toks[i] = src.choice(pool)
            elif k == 3:
                toks[i] = toks[i] + " " + src.choice(pool)
            else:
                j = real[src.draw(len(real))]
                toks[i], toks[j] = toks[j], toks[i]
        s = "".join(toks)
        if src.chance(5):
            s = s[:src.draw(len(s))]
        mode = src.choice([["-S"], ["-c"], ["-c", "-O1"], ["-c", "-std=c89"], ["-E"], ["-S", "-O3"]])
        return Case(key=s, tags=["mutate"], kind="mutate", text=s, mode=mode, sample=s)

    # Several files; errors in some.
    def many(self, src):
        n = src.weighted([(4, 2), (2, 3), (1, 5)])
        files = []
        for i in range(n):
            k = src.draw(4)
            if k == 0:
                files.append("int v%d = undeclared%d;\n" % (i, i))
            elif k == 1 and src.chance(30):
                # Errors are counted; the count must not be the exit status.
                files.append("#error stop\n" * src.choice([1, 2, 255, 256, 257]))
            else:
                files.append("int v%d = %d;\n" % (i, i))
        link = src.chance(25)
        if link and src.chance(50):
            files.append("int main(void) { %s }\n" % src.choice(["return 0;", "extern int nowhere(int); return nowhere(1);"]))
        mode = ["-o", "prog"] if link else [src.choice(["-S", "-c", "-E"])]
        return Case(key=str(files) + str(mode), tags=["many"], kind="many", files=files, mode=mode,
                    sample="\n".join(files)[:800])

    # Command lines, most of them broken in one place.
    def driver(self, src):
        names = src.sample(["a.c", "sub/b.c", "c.x.c", "d.i", "sub/e.i", "noext"], src.int(1, 3))
        mode = src.choice(["-c", "-S", "-E", None, None])
        files, total = {}, 0
        for i, n in enumerate(names):
            k = src.draw(30)
            total += k
            files[n] = "int v%d(void) { return %d; }\n" % (i, k)
        calls = ["v%d()" % i for i in range(len(names))]
        lib = mode is None and src.chance(40)
        obj = mode is None and src.chance(30)
        if lib:
            calls.append("zed()")
            total += 5
        if obj:
            calls.append("obj()")
            total += 7
        main = src.draw(len(names))
        files[names[main]] += "".join("int %s;\n" % x.replace("()", "(void)") for x in calls)
        files[names[main]] += "int main(void) { return %s; }\n" % " + ".join(calls)
        opts = [[x] for x in src.sample(["-g", "-w", "-O0", "-O1", "-O2", "-O3", "-fPIC", "-Wall", "-W", "-pedantic",
                                        "-pipe", "-std=c99", "-std=c89", "-std=c11", "-DQ=1", "-Isub", "-fno-common",
                                        "-fno-strict-aliasing", "-march=x86-64"], src.draw(5))]
        opts += [x for x in (["-D", "R"], ["-I", "sub"], ["-x", "c"], ["-isystem", "sub"]) if src.chance(10)]
        xc = ["-x", "c"] in opts
        if xc:
            opts.remove(["-x", "c"])
        src.shuffle(opts)
        ins = []
        for n in names:
            if n == "noext" and not xc and mode != "-E":
                ins += [["-x", "c"], [n], ["-x", "none"]]
            else:
                ins.append([n])
        if xc:
            ins = [["-x", "c"]] + ins
            if obj or lib:
                ins.append(["-x", "none"])
        if obj:
            ins.insert(len(ins) if xc else 0, ["obj.o"])
        if lib:
            ins += [src.choice([["-Lsub"], ["-L", "sub"]]), src.choice([["-lzed"], ["-l", "zed"]])]
        if mode:
            opts.append([mode])
        out = None
        if mode is None or len(names) == 1 and mode != "-E" and src.chance(50):
            out = src.choice(["prog", "sub/prog", "a.out.x"])
            opts.append(src.choice([["-o", out], ["-o" + out]]))
        line = src.shuffle(opts)
        k = src.draw(len(line) + 1) if src.chance(50) else len(line)
        line = line[:k] + ins + line[k:]
        bad = None
        if src.chance(70):
            one = lambda *x: (list(x), None)
            choices = [one("--frob"), one("-Q"), one("-fPIC=3"), one("-foo"), one("-std=c77"), one("-std=c"), one("-x", "foo"),
                       one("nofile.c"), one("sub/nofile.c"), one("-include", "nofile.h"), one("-D5"), one("-D="),
                       one("-O7x"), one("-nosuch")]
            choices += [([], x) for x in ("-o", "-I", "-D", "-x", "-include", "-isystem", "-L", "-l", "-std=")]
            if mode:
                choices += [(["a.txt"], None)] * 2 if mode != "-E" and not xc else []
                if len(names) > 1 and mode != "-E":
                    choices += [(["-o", "both"], None)] * 4
                elif not out:
                    choices += [(["-o", "nodir/x"], None)] * 2
            else:
                choices += [one("nofile.o"), one("-lnosuchlib"), one("twice.o")]
            add, last = src.choice(choices)
            if last:
                line.append([last])
                bad = last + " at the end"
            else:
                # Before any -x.
                line.insert(0 if add[0][-2:] in (".o", "xt") else src.draw(len(line) + 1), add)
                bad = " ".join(add)
        flat = [x for part in line for x in part]
        key = " ".join(flat) + str(sorted(files.items()))
        return Case(key=key, tags=["driver", "driver:" + str(mode)] + (["driver:broken"] if bad else []), kind="driver",
                    files=files, args=flat, mode=mode, out=out, bad=bad, total=total, sample="lacc " + " ".join(flat))

    def check_driver(self, ctx, c, d):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/sub")
        for n, t in c.files.items():
            write(os.path.join(d, n), t)
        write(d + "/a.txt", "int txt;\n")
        args = " ".join(c.args)
        if c.mode is None and ("zed" in args or ".o" in args):
            write(d + "/zed.s", ".globl zed\nzed: movl $5, %eax\nret\n")
            write(d + "/obj.s", ".globl obj\nobj: movl $7, %eax\nret\n")
            write(d + "/twice.s", ".globl main\nmain: ret\n")
            for x in ("zed", "obj", "twice"):
                run(["as", x + ".s", "-o", x + ".o"], cwd=d)
            run(["ar", "rcs", "sub/libzed.a", "zed.o"], cwd=d)
        r = run([ctx.lacc] + c.args, cwd=d)
        what = "lacc %s" % args
        if r.crashed or r.code >= 126:
            return Fail("%s ends with %d\n%s" % (what, r.code, r.err.decode("latin-1")[-500:]))
        if c.bad:
            if not r.code:
                return Fail("%s exits with 0 in spite of '%s'" % (what, c.bad))
            return OK if r.err.strip() else Fail("%s fails without a message" % what)
        if r.code:
            return Fail("%s fails: %s" % (what, r.err.decode("latin-1")[-500:]))
        if c.mode == "-E":
            for i in range(len(c.files)):
                if b"v%d" % i not in r.out:
                    return Fail("%s: the text of one of the files is missing" % what)
            return OK
        if c.mode is None:
            p = run([os.path.join(d, c.out)], cwd=d)
            if p.code != c.total:
                return Fail("%s: the program exits with %d, not with %d" % (what, p.code, c.total))
            return OK
        ext = {"-c": ".o", "-S": ".s"}[c.mode]
        want = [c.out] if c.out else [os.path.splitext(os.path.basename(n))[0] + ext for n in c.files]
        for w in want:
            p = os.path.join(d, w)
            if not os.path.exists(p) or not os.path.getsize(p):
                return Fail("%s: %s is not written" % (what, w))
            head = open(p, "rb").read(4)
            if (head == b"\x7fELF") != (c.mode == "-c"):
                return Fail("%s: %s is of the wrong kind" % (what, w))
        return OK

    def check_many(self, ctx, c, d):
        names = []
        for i, t in enumerate(c.files):
            write(os.path.join(d, "m%d.c" % i), t)
            names.append("m%d.c" % i)
        g = run(["gcc", "-w", "-std=c99"] + c.mode + names, cwd=d)
        for f in os.listdir(d):
            if f == "prog" or f.endswith((".o", ".s")):
                os.unlink(os.path.join(d, f))
        r = run([ctx.lacc] + c.mode + names, cwd=d)
        if r.crashed or r.code >= 126:
            return Fail("lacc %s ends with %d\n%s" % (c.mode, r.code, r.err.decode("latin-1")[-500:]))
        if bool(r.code) != bool(g.code):
            return Fail("lacc %s %s exits with %d, gcc with %d\n%s" % (
                c.mode, " ".join(names), r.code, g.code, r.err.decode("latin-1")[-500:]))
        return OK

    def compile(self, ctx, d, mode, files):
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        for name, text in files.items():
            write(os.path.join(d, name), text)
        return run([ctx.lacc] + mode + ["t.c", "-o", "out"], cwd=d)

    def one(self, ctx, c, d):
        if c.kind == "driver":
            return self.check_driver(ctx, c, d + "-cmd")
        if c.kind == "many":
            for f in os.listdir(d):
                if os.path.isfile(os.path.join(d, f)):
                    os.unlink(os.path.join(d, f))
            return self.check_many(ctx, c, d)
        if c.kind == "mutate":
            r = self.compile(ctx, d, c.mode, {"t.c": c.text})
            if r.crashed or r.code >= 126:
                return Fail("lacc %s on a changed program ends with %d\n%s" % (
                    c.mode, r.code, r.err.decode("latin-1")[-500:]))
            m = ERR.search(r.err)
            if r.code and not m:
                return Fail("lacc %s fails without an error message: %r" % (c.mode, r.err[-300:]))
            if not r.code and m:
                return Fail("lacc %s reports an error and exits with 0: %r" % (c.mode, r.err[-300:]))
            if m and b"Missing newline at end" not in r.err and "#line" not in c.text and \
                    not 1 <= int(m[2]) <= c.text.count("\n") + 1:
                return Fail("the error is at no line of the file: %r" % m[0])
            return OK
        # The twin is valid.
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        for name, text in c.ok.items():
            write(os.path.join(d, name), text)
        gm = ["gcc", "-std=c11", "-pedantic-errors", "-fsyntax-only", "t.c"]
        g = run(gm, cwd=d)
        if g.code:
            return Skip("gcc rejects the twin: %s" % re.sub(r"\d+", "N", g.err.decode("latin-1").split("\n")[0][:90]))
        r = self.compile(ctx, d, c.mode, c.ok)
        if r.code or ERR.search(r.err):
            return Fail("lacc %s rejects a valid program with exit status %d:\n%s" % (
                c.mode, r.code, r.err.decode("latin-1")[-500:]))
        if c.nok is None:
            return OK
        if "g" not in c.flags:
            for name, text in c.nok.items():
                write(os.path.join(d, name), text)
            g = run(gm, cwd=d)
            if not g.code:
                return Skip("gcc accepts the violation: %s" % c.bad)
        r = self.compile(ctx, d, c.mode, c.nok)
        what = "violation '%s' at %s:%d with %s" % (c.bad, c.where, c.line, c.mode)
        if r.crashed or r.code >= 126:
            return Fail("%s: lacc ends with %d\n%s" % (what, r.code, r.err.decode("latin-1")[-500:]))
        if not r.code:
            return Fail("%s: lacc exits with 0\n%s" % (what, r.err.decode("latin-1")[-500:]))
        m = ERR.search(r.err)
        if not m:
            return Fail("%s: no error message, exit status %d\n%s" % (what, r.code, r.err.decode("latin-1")[-500:]))
        name, at = m[1].decode("latin-1"), int(m[2])
        good = os.path.basename(name) == c.where and at == c.line
        if not good and c.last != c.line:
            if c.where == "t.c":
                lim = c.nok["t.c"].count("\n") + 1
                good = name == "t.c" and c.line <= at <= (min(lim, c.line + 30) if c.last == "next" else lim)
            else:
                # The next token may be in the including file.
                good = True
        if not good:
            return Fail("%s: the first error is at (%s, %d)\n%s" % (what, name, at, r.err.decode("latin-1")[-500:]))
        return OK

    def run_batch(self, ctx, cases):
        d = os.path.join(ctx.work(), "c15")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return [self.one(ctx, c, d) for c in cases]

    def render(self, ctx, cases):
        c = cases[0]
        if c.kind == "mutate":
            return {"t.c": c.text, "options.txt": " ".join(c.mode) + "\n"}
        if c.kind == "driver":
            return dict(list((k.replace("/", "_"), v) for k, v in c.files.items()) +
                        [("how.txt", "lacc %s\n" % " ".join(c.args))])
        if c.kind == "many":
            return dict([("m%d.c" % i, t) for i, t in enumerate(c.files)] +
                        [("options.txt", " ".join(c.mode) + "\n")])
        out = {"valid/" + k: v for k, v in c.ok.items()}
        out = {"valid_" + k: v for k, v in c.ok.items()}
        if c.nok:
            out.update(c.nok)
        out["options.txt"] = " ".join(c.mode) + "\n"
        return out
