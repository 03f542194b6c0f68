/* Freestanding driver of the natively executed cases (-m64 or -m32, no libc):
 * calls t_entry once per input vector and writes what it observed to fd 1. */
typedef unsigned char u8;
typedef unsigned int u32;
typedef unsigned long long u64;
typedef int s32;
typedef long long s64;
typedef unsigned long uptr;

extern const u32 t_nvec, t_nparam, t_nglob;
extern const u64 t_vecs[];
struct glob { uptr addr, size; };
extern const struct glob t_globs[];
extern void t_entry(void);
u8 t_in[64 * 8] __attribute__((aligned(16)));
u8 t_out[64 * 8] __attribute__((aligned(16)));

static u8 buf[1 << 16];
static u32 fill;

#ifdef __x86_64__
static long sys(long n, long a, long b, long c)
{
	long r;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
	return r;
}
#define SYS_WRITE 1
#define SYS_EXIT 60
#else
static long sys(long n, long a, long b, long c)
{
	long r;
	__asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory");
	return r;
}
#define SYS_WRITE 4
#define SYS_EXIT 1
#endif
static void flush(void)
{
	u32 at = 0;
	while (at < fill) {
		long r = sys(SYS_WRITE, 1, (long)(buf + at), (long)(fill - at));
		if (r <= 0) sys(SYS_EXIT, 3, 0, 0);
		at += (u32)r;
	}
	fill = 0;
}
static void put(const void *p, u32 n)
{
	const u8 *s = p;
	for (u32 i = 0; i < n; ++i) {
		if (fill == sizeof buf) flush();
		buf[fill++] = s[i];
	}
}
static void put64(u64 v) { put(&v, 8); }

static void event(int which, int n, u64 a, u64 b, u64 c)
{
	u8 tag = (u8)('0' + which);
	put(&tag, 1);
	put64(a);
	if (n > 1) put64(b);
	if (n > 2) put64(c);
}
static u64 dbits(double d)
{
	u64 v;
	__builtin_memcpy(&v, &d, 8);
	if (d != d) v = 0x7ff8000000000000ull;
	return v;
}
#define CHECK_STACK() do { uptr sp = (uptr)__builtin_frame_address(0); if (ALIGN_BAD(sp)) { u8 t = 'S'; put(&t, 1); } } while (0)
#ifdef __x86_64__
/* at entry rsp+8 is 16-byte aligned, so the frame address (old rsp) is aligned to 16 */
#define ALIGN_BAD(sp) ((sp) & 15)
#else
#define ALIGN_BAD(sp) 0
#endif
s32 t_ext0(s32 a)
{
	CHECK_STACK();
	event(0, 1, (u64)(s64)a, 0, 0);
	return (s32)(((u32)a * 2654435761u) ^ 0x55);
}
u32 t_ext1(s32 a, u32 b, void *p)
{
	CHECK_STACK();
	event(1, 3, (u64)(s64)a, b, (uptr)p);
	return ((u32)a ^ (b << 3)) + 17;
}
s64 t_ext2(s64 a, s32 b)
{
	CHECK_STACK();
	event(2, 2, (u64)a, (u64)(s64)b, 0);
	return (s64)(((u64)a * 0x9e3779b97f4a7c15ull) ^ (u64)(s64)b);
}
double t_ext3(double a, s32 b)
{
	CHECK_STACK();
	event(3, 2, dbits(a), (u64)(s64)b, 0);
	return (double)b * 0.5;
}

#ifdef __x86_64__
#define REGS "rbx", "r12", "r13", "r14", "r15"
/* calls t_entry with known values in the callee-saved registers; returns how many changed */
long t_call(void);
__asm__(".text\n.globl t_call\nt_call:\n"
	" push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n sub $24, %rsp\n"
	" mov %rsp, 8(%rsp)\n"
	" mov $0x1111111122222222, %rbx\n mov $0x3333333344444444, %rbp\n mov $0x5555555566666666, %r12\n"
	" mov $0x7777777788888888, %r13\n mov $0x123456789abcdef0, %r14\n mov $0x0fedcba987654321, %r15\n"
	" call t_entry\n"
	" xor %eax, %eax\n"
	" mov $0x1111111122222222, %rcx\n cmp %rcx, %rbx\n setne %cl\n or %cl, %al\n"
	" mov $0x3333333344444444, %rcx\n cmp %rcx, %rbp\n setne %cl\n or %cl, %al\n"
	" mov $0x5555555566666666, %rcx\n cmp %rcx, %r12\n setne %cl\n or %cl, %al\n"
	" mov $0x7777777788888888, %rcx\n cmp %rcx, %r13\n setne %cl\n or %cl, %al\n"
	" mov $0x123456789abcdef0, %rcx\n cmp %rcx, %r14\n setne %cl\n or %cl, %al\n"
	" mov $0x0fedcba987654321, %rcx\n cmp %rcx, %r15\n setne %cl\n or %cl, %al\n"
	" cmp %rsp, 8(%rsp)\n setne %cl\n or %cl, %al\n"
	" add $24, %rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
__asm__(".text\n.globl _start\n_start:\n xor %ebp, %ebp\n and $-16, %rsp\n call t_main\n");
#else
long t_call(void);
__asm__(".text\n.globl t_call\nt_call:\n"
	" push %ebx\n push %ebp\n push %esi\n push %edi\n sub $12, %esp\n"
	" mov %esp, 4(%esp)\n"
	" mov $0x11112222, %ebx\n mov $0x33334444, %ebp\n mov $0x55556666, %esi\n mov $0x77778888, %edi\n"
	" call t_entry\n"
	" xor %eax, %eax\n"
	" cmp $0x11112222, %ebx\n setne %cl\n or %cl, %al\n"
	" cmp $0x33334444, %ebp\n setne %cl\n or %cl, %al\n"
	" cmp $0x55556666, %esi\n setne %cl\n or %cl, %al\n"
	" cmp $0x77778888, %edi\n setne %cl\n or %cl, %al\n"
	" cmp %esp, 4(%esp)\n setne %cl\n or %cl, %al\n"
	" add $12, %esp\n pop %edi\n pop %esi\n pop %ebp\n pop %ebx\n ret\n");
__asm__(".text\n.globl _start\n_start:\n xor %ebp, %ebp\n and $-16, %esp\n call t_main\n");
#endif

__attribute__((used)) void t_main(void)
{
#ifndef __x86_64__
#ifdef X87_DOUBLE
	unsigned short cw = 0x37f;
	__asm__ volatile("fldcw %0" : : "m"(cw));
#endif
#endif
	for (u32 v = 0; v < t_nvec; ++v) {
		for (u32 i = 0; i < t_nparam; ++i) {
			u64 x = t_vecs[v * t_nparam + i];
			for (u32 k = 0; k < 8; ++k) t_in[i * 8 + k] = (u8)(x >> 8 * k);
		}
		for (u32 k = 0; k < 8; ++k) t_out[k] = 0xa5;
		u8 tag = 'V';
		put(&tag, 1);
		if (t_call()) { tag = 'R'; put(&tag, 1); }
		tag = 'O';
		put(&tag, 1);
		put(t_out, 8);
		for (u32 g = 0; g < t_nglob; ++g) put((const void *)t_globs[g].addr, (u32)t_globs[g].size);
	}
	u8 tag = 'E';
	put(&tag, 1);
	flush();
	sys(SYS_EXIT, 0, 0, 0);
	for (;;) {}
}

/* ---- runtime support ---- */
void *memcpy(void *d, const void *s, uptr n) { volatile u8 *a = d; const u8 *b = s; while (n--) *a++ = *b++; return d; }
void *memset(void *d, int c, uptr n) { volatile u8 *a = d; while (n--) *a++ = (u8)c; return d; }
void *memmove(void *d, const void *s, uptr n)
{
	volatile u8 *a = d; const u8 *b = s;
	if ((uptr)d < (uptr)s) while (n--) *a++ = *b++;
	else while (n--) a[n] = b[n];
	return d;
}
int __popcountsi2(u32 x) { int r = 0; for (; x; x &= x - 1) ++r; return r; }
int __popcountdi2(u64 x) { int r = 0; for (; x; x &= x - 1) ++r; return r; }
int __paritysi2(u32 x) { return __popcountsi2(x) & 1; }
int __paritydi2(u64 x) { return __popcountdi2(x) & 1; }
int __ffssi2(u32 x) { for (int i = 0; i < 32; ++i) if (x >> i & 1) return i + 1; return 0; }
int __ffsdi2(u64 x) { for (int i = 0; i < 64; ++i) { if (x & 1) return i + 1; x >>= 1; } return 0; }
int __ctzsi2(u32 x) { return __ffssi2(x) - 1; }
int __ctzdi2(u64 x) { return __ffsdi2(x) - 1; }
int __clzsi2(u32 x) { int r = 0; while (r < 32 && !(x & 0x80000000u)) { x <<= 1; ++r; } return r; }
int __clzdi2(u64 x) { u32 h = (u32)(x >> 32); return h ? __clzsi2(h) : 32 + __clzsi2((u32)x); }
u32 __bswapsi2(u32 x) { return x << 24 | (x & 0xff00) << 8 | (x >> 8 & 0xff00) | x >> 24; }
u64 __bswapdi2(u64 x) { return (u64)__bswapsi2((u32)x) << 32 | __bswapsi2((u32)(x >> 32)); }
#ifndef __x86_64__
u64 __ashldi3(u64 v, int n) { u32 l = (u32)v, h = (u32)(v >> 32); n &= 63; if (n >= 32) { h = l << (n - 32); l = 0; } else if (n) { h = h << n | l >> (32 - n); l <<= n; } return (u64)h << 32 | l; }
u64 __lshrdi3(u64 v, int n) { u32 l = (u32)v, h = (u32)(v >> 32); n &= 63; if (n >= 32) { l = h >> (n - 32); h = 0; } else if (n) { l = l >> n | h << (32 - n); h >>= n; } return (u64)h << 32 | l; }
s64 __ashrdi3(s64 v, int n) { u32 l = (u32)v; s32 h = (s32)(v >> 32); n &= 63; if (n >= 32) { l = (u32)(h >> (n - 32)); h >>= 31; } else if (n) { l = l >> n | (u32)h << (32 - n); h >>= n; } return (s64)((u64)(u32)h << 32 | l); }
static u64 udm(u64 a, u64 b, u64 *m)
{
	u64 q = 0, r = 0;
	for (int i = 63; i >= 0; --i) {
		r = r + r + (__lshrdi3(a, i) & 1);
		q = q + q;
		if (r >= b) { r -= b; q |= 1; }
	}
	*m = r;
	return q;
}
u64 __udivdi3(u64 a, u64 b) { u64 m; return udm(a, b, &m); }
u64 __umoddi3(u64 a, u64 b) { u64 m; udm(a, b, &m); return m; }
s64 __divdi3(s64 a, s64 b) { u64 m, q = udm(a < 0 ? 0 - (u64)a : (u64)a, b < 0 ? 0 - (u64)b : (u64)b, &m); return (a < 0) != (b < 0) ? (s64)(0 - q) : (s64)q; }
s64 __moddi3(s64 a, s64 b) { u64 m; udm(a < 0 ? 0 - (u64)a : (u64)a, b < 0 ? 0 - (u64)b : (u64)b, &m); return a < 0 ? (s64)(0 - m) : (s64)m; }
u64 __muldi3(u64 a, u64 b)
{
	u32 al = (u32)a, ah = (u32)(a >> 32), bl = (u32)b, bh = (u32)(b >> 32);
	return (u64)al * bl + ((u64)(ah * bl + al * bh) << 32);
}
/* conversions through exact doubles */
double __floatundidf(u64 v)
{
	/* correctly rounded: assemble the bits */
	if (!v) return 0;
	int n = __clzdi2(v), e = 63 - n;
	u64 m = __ashldi3(v, n), r;
	u64 frac = __lshrdi3(m, 11), rest = m & 0x7ff;
	if (rest > 0x400 || (rest == 0x400 && (frac & 1))) ++frac;
	if (frac >> 53) { frac >>= 1; ++e; }
	r = ((u64)(u32)(e + 1023) << 52) | (frac & 0xfffffffffffffull);
	double d;
	__builtin_memcpy(&d, &r, 8);
	return d;
}
double __floatdidf(s64 v)
{
	u64 r;
	double d = __floatundidf(v < 0 ? 0 - (u64)v : (u64)v);
	__builtin_memcpy(&r, &d, 8);
	if (v < 0) r |= 1ull << 63;
	__builtin_memcpy(&d, &r, 8);
	return d;
}
static u32 fbits_of(u64 v)
{
	if (!v) return 0;
	int n = __clzdi2(v), e = 63 - n;
	u64 m = __ashldi3(v, n);
	u32 frac = (u32)__lshrdi3(m, 40);
	u64 rest = m & 0xffffffffffull;
	if (rest > 0x8000000000ull || (rest == 0x8000000000ull && (frac & 1))) ++frac;
	if (frac >> 24) { frac >>= 1; ++e; }
	return (u32)(e + 127) << 23 | (frac & 0x7fffff);
}
float __floatundisf(u64 v) { u32 r = fbits_of(v); float f; __builtin_memcpy(&f, &r, 4); return f; }
float __floatdisf(s64 v)
{
	u32 r = fbits_of(v < 0 ? 0 - (u64)v : (u64)v) | (v < 0 ? 1u << 31 : 0);
	float f;
	__builtin_memcpy(&f, &r, 4);
	return f;
}
u64 __fixunsdfdi(double d)
{
	u64 r;
	__builtin_memcpy(&r, &d, 8);
	int e = (int)(__lshrdi3(r, 52) & 0x7ff) - 1023;
	u64 m = (r & 0xfffffffffffffull) | (1ull << 52);
	if (e < 0) return 0;
	return e >= 52 ? __ashldi3(m, e - 52) : __lshrdi3(m, 52 - e);
}
s64 __fixdfdi(double d) { u64 r; __builtin_memcpy(&r, &d, 8); u64 x = __fixunsdfdi(d); return r >> 63 ? (s64)(0 - x) : (s64)x; }
u64 __fixunssfdi(float f) { return __fixunsdfdi((double)f); }
s64 __fixsfdi(float f) { return __fixdfdi((double)f); }
#endif
