/* Builds random straight line functions and the same functions as C text
 * (t_ref.c, with a main that compares both). */
static uint64_t dual_s = 88172645463325252ull;
static uint64_t rnd(void) { dual_s ^= dual_s << 13; dual_s ^= dual_s >> 7; dual_s ^= dual_s << 17; return dual_s >> 11; }

#define DUAL_PARAMS 6
#define DUAL_MAX 4096
/* kinds: bit set of operations allowed: 1 add 2 sub 4 mul 8 and/or/xor 16 shl 32 shr 64 shrs 128 not/minus 256 load 512 conv8/16 1024 cmp/mux-free select */
static void dual_build(FILE *c, int nr, int n, unsigned kinds, int bits)
{
	ir_mode *m = bits == 64 ? mode_Lu : mode_Iu, *sm = bits == 64 ? mode_Ls : mode_Is;
	const char *ut = bits == 64 ? "u64" : "u32", *st = bits == 64 ? "s64" : "s32";
	ir_mode *pm[DUAL_PARAMS + 1];
	for (int i = 0; i < DUAL_PARAMS; ++i) pm[i] = m;
	pm[DUAL_PARAMS] = mode_P;
	char name[32];
	sprintf(name, "f%d", nr);
	d_begin(name, m, DUAL_PARAMS + 1, pm, 1);
	fprintf(c, "%s r%d(%s a0,%s a1,%s a2,%s a3,%s a4,%s a5,%s *p){\n", ut, nr, ut, ut, ut, ut, ut, ut, ut);
	static ir_node *v[DUAL_MAX];
	int used[DUAL_MAX] = {0};
	int nv = 0;
	ir_node *p = d_param(DUAL_PARAMS, mode_P);
	for (; nv < DUAL_PARAMS; ++nv) { v[nv] = d_param(nv, m); fprintf(c, "%s v%d=a%d;\n", ut, nv, nv); }
	for (; nv < n; ++nv) {
		int a = rnd() % 3 ? nv - 1 - rnd() % (nv < 12 ? nv : 12) : rnd() % nv, b = rnd() % nv;
		uint64_t k = rnd() % 4 == 0 ? rnd() : rnd() % 40;
		if (bits == 32) k = (uint32_t)k;
		ir_node *x = v[a], *y = v[b];
		char yt[64];
		if (rnd() % 4 == 0) { y = new_Const(new_tarval_from_long((long)k, m)); sprintf(yt, "(%s)%lluull", ut, (unsigned long long)k); }
		else sprintf(yt, "v%d", b);
		unsigned o;
		do o = 1u << (rnd() % 10); while (!(kinds & o));
		++used[a];
		fprintf(c, "%s v%d=", ut, nv);
		int sh = rnd() % bits;
		ir_node *shc = new_Const(new_tarval_from_long(sh, mode_Iu));
		switch (o) {
		case 1: v[nv] = new_Add(x, y); fprintf(c, "v%d+%s;\n", a, yt); break;
		case 2: if (rnd() % 4) { v[nv] = new_Sub(x, y); fprintf(c, "v%d-%s;\n", a, yt); } else { v[nv] = new_Sub(y, x); fprintf(c, "%s-v%d;\n", yt, a); } break;
		case 4: v[nv] = new_Mul(x, y); fprintf(c, "v%d*%s;\n", a, yt); break;
		case 8: switch (rnd() % 3) {
			case 0: v[nv] = new_And(x, y); fprintf(c, "v%d&%s;\n", a, yt); break;
			case 1: v[nv] = new_Or(x, y); fprintf(c, "v%d|%s;\n", a, yt); break;
			default: v[nv] = new_Eor(x, y); fprintf(c, "v%d^%s;\n", a, yt); } break;
		case 16: v[nv] = new_Shl(x, shc); fprintf(c, "v%d<<%d;\n", a, sh); break;
		case 32: v[nv] = new_Shr(x, shc); fprintf(c, "v%d>>%d;\n", a, sh); break;
		case 64: v[nv] = new_Conv(new_Shrs(new_Conv(x, sm), shc), m); fprintf(c, "(%s)((%s)v%d>>%d);\n", ut, st, a, sh); break;
		case 128: if (rnd() % 2) { v[nv] = new_Not(x); fprintf(c, "~v%d;\n", a); } else { v[nv] = new_Minus(x); fprintf(c, "-v%d;\n", a); } break;
		case 256: {
			int mask = 15, off = rnd() % 8;
			ir_node *i = new_And(x, d_int(m, mask));
			ir_mode *om = get_reference_offset_mode(mode_P);
			ir_node *ptr = new_Add(p, new_Mul(new_Conv(i, om), d_int(om, bits / 8)));
			ptr = new_Add(ptr, d_int(om, off * (bits / 8)));
			ir_node *l = d_load(ptr, m);
			v[nv] = new_Add(x, l); fprintf(c, "v%d+p[(v%d&%d)+%d];\n", a, a, mask, off);
			if (rnd() % 2) { d_store(ptr, v[nv]); fprintf(c, "p[(v%d&%d)+%d]=v%d;\n", a, mask, off, nv); }
			break; }
		case 512: {
			static const char *tn[] = {"u8", "s8", "u16", "s16"};
			ir_mode *cm[] = {mode_Bu, mode_Bs, mode_Hu, mode_Hs};
			int q = rnd() % 4;
			v[nv] = new_Conv(new_Conv(x, cm[q]), m); fprintf(c, "(%s)(%s)v%d;\n", ut, tn[q], a);
			break; }
		}
	}
	ir_node *r = v[nv - 1];
	fprintf(c, "return v%d", nv - 1);
	for (int i = 0; i < nv - 1; ++i) if (!used[i]) { r = new_Eor(r, v[i]); fprintf(c, "^v%d", i); }
	fprintf(c, ";}\n%s f%d(%s,%s,%s,%s,%s,%s,%s*);\n", ut, nr, ut, ut, ut, ut, ut, ut, ut);
	d_ret(r);
	d_end();
}
static FILE *dual_open(void)
{
	FILE *c = fopen("t_ref.c", "w");
	fprintf(c, "typedef unsigned u32; typedef int s32; typedef unsigned long long u64; typedef long long s64; typedef unsigned char u8; typedef signed char s8; typedef unsigned short u16; typedef short s16;\n");
	return c;
}
/* main of the comparison; free standing for 32 bit */
static void dual_close(FILE *c, int n, int bits)
{
	const char *ut = bits == 64 ? "u64" : "u32";
	fprintf(c, "static u64 s=1234567; static %s rr(void){s=s*6364136223846793005ull+1442695040888963407ull; u64 k=s>>20; return k&1 ? (%s)(s>>13)*0x9e3779b1u : (%s)((k>>1)&31)-4;}\n", ut, ut, ut);
	fprintf(c, "static %s A[24],B[24];\nstatic int go(void){for(int t=0;t<40;++t){\n", ut);
	for (int i = 0; i < n; ++i)
		fprintf(c, "{%s a=rr(),b=rr(),c=rr(),d=rr(),e=rr(),f=rr(); for(int i=0;i<24;++i)A[i]=B[i]=rr(); if(r%d(a,b,c,d,e,f,A)!=f%d(a,b,c,d,e,f,B))return 1; for(int i=0;i<24;++i)if(A[i]!=B[i])return 1;}\n", ut, i, i);
	fprintf(c, "}return 0;}\n");
	if (bits == 32) fprintf(c, "void _start(void){__asm__ volatile(\"andl $-16,%%esp\\n\"); int r=go(); __asm__ volatile(\"int $0x80\"::\"a\"(1),\"b\"(r));}\n");
	else fprintf(c, "int main(void){return go();}\n");
	fclose(c);
}
