// Freestanding executor: runs the kernels of another CPU architecture under qemu's user-mode emulation (or natively, for 32-bit x86)
// on memory shared with the test driver. Requests arrive on descriptor 0, answers leave on descriptor 1, memory comes from descriptors 3 and 4.
#include <stdint.h>
#include <stddef.h>
#include "common.h"
#include "encoder.h"
#include "decoder.h"
#include "crc.h"
using namespace RapidYenc;

typedef long sl;
#if defined(__aarch64__)
static inline sl sc(sl n, sl a, sl b, sl c, sl d, sl e, sl f) { register sl x8 __asm__("x8")=n, x0 __asm__("x0")=a, x1 __asm__("x1")=b, x2 __asm__("x2")=c, x3 __asm__("x3")=d, x4 __asm__("x4")=e, x5 __asm__("x5")=f; __asm__ volatile("svc 0":"+r"(x0):"r"(x8),"r"(x1),"r"(x2),"r"(x3),"r"(x4),"r"(x5):"memory"); return x0; }
enum { N_READ=63, N_WRITE=64, N_EXIT=94, N_MMAP=222 };
__asm__(".globl _start\n_start: mov x0, sp\n and sp, x0, #-16\n b start_c\n");
#elif defined(__arm__)
static inline sl sc(sl n, sl a, sl b, sl c, sl d, sl e, sl f) { register sl r7 __asm__("r7")=n, r0 __asm__("r0")=a, r1 __asm__("r1")=b, r2 __asm__("r2")=c, r3 __asm__("r3")=d, r4 __asm__("r4")=e, r5 __asm__("r5")=f; __asm__ volatile("svc 0":"+r"(r0):"r"(r7),"r"(r1),"r"(r2),"r"(r3),"r"(r4),"r"(r5):"memory"); return r0; }
enum { N_READ=3, N_WRITE=4, N_EXIT=248, N_MMAP=192 };
__asm__(".globl _start\n.type _start,%function\n_start: mov r0, sp\n lsr r1, r0, #3\n lsl r1, r1, #3\n mov sp, r1\n bl start_c\n");
#elif defined(__riscv)
static inline sl sc(sl n, sl a, sl b, sl c, sl d, sl e, sl f) { register sl a7 __asm__("a7")=n, a0 __asm__("a0")=a, a1 __asm__("a1")=b, a2 __asm__("a2")=c, a3 __asm__("a3")=d, a4 __asm__("a4")=e, a5 __asm__("a5")=f; __asm__ volatile("ecall":"+r"(a0):"r"(a7),"r"(a1),"r"(a2),"r"(a3),"r"(a4),"r"(a5):"memory"); return a0; }
enum { N_READ=63, N_WRITE=64, N_EXIT=94, N_MMAP=222 };
__asm__(".globl _start\n_start: .option push\n.option norelax\n lla gp, __global_pointer$\n.option pop\n mv a0, sp\n andi sp, sp, -16\n tail start_c\n");
#elif defined(__i386__)
static inline sl sc(sl n, sl a, sl b, sl c, sl d, sl e, sl f) { sl r; sl v[2]={a,f}; __asm__ volatile("pushl %%ebp\n pushl %%ebx\n movl 4(%%ebx),%%ebp\n movl (%%ebx),%%ebx\n int $0x80\n popl %%ebx\n popl %%ebp":"=a"(r):"a"(n),"b"(v),"c"(b),"d"(c),"S"(d),"D"(e):"memory"); return r; }
enum { N_READ=3, N_WRITE=4, N_EXIT=252, N_MMAP=192 };
__asm__(".globl _start\n_start: movl %esp, %eax\n andl $-16, %esp\n subl $12, %esp\n pushl %eax\n call start_c\n");
#elif defined(__s390x__)
static inline sl sc(sl n, sl a, sl b, sl c, sl d, sl e, sl f) { register sl r1 __asm__("r1")=n, r2 __asm__("r2")=a, r3 __asm__("r3")=b, r4 __asm__("r4")=c, r5 __asm__("r5")=d, r6 __asm__("r6")=e, r7 __asm__("r7")=f; __asm__ volatile("svc 0":"+d"(r2):"d"(r1),"d"(r3),"d"(r4),"d"(r5),"d"(r6),"d"(r7):"memory"); return r2; }
enum { N_READ=3, N_WRITE=4, N_EXIT=248, N_MMAP=90 };
__asm__(".globl _start\n_start: lgr %r2, %r15\n aghi %r15, -160\n brasl %r14, start_c\n");
#elif defined(__powerpc__)
static inline sl sc(sl n, sl a, sl b, sl c, sl d, sl e, sl f) { register sl r0 __asm__("r0")=n, r3 __asm__("r3")=a, r4 __asm__("r4")=b, r5 __asm__("r5")=c, r6 __asm__("r6")=d, r7 __asm__("r7")=e, r8 __asm__("r8")=f; __asm__ volatile("sc\n bns+ 1f\n neg 3,3\n1:":"+r"(r0),"+r"(r3),"+r"(r4),"+r"(r5),"+r"(r6),"+r"(r7),"+r"(r8)::"memory","cr0","ctr","r9","r10","r11","r12"); return r3; }
enum { N_READ=3, N_WRITE=4, N_EXIT=234, N_MMAP=192 };
__asm__(".globl _start\n_start: mr 3,1\n rlwinm 1,1,0,0,27\n li 0,0\n stwu 0,-16(1)\n bl start_c\n");
#else
# error "no system calls for this architecture"
#endif
static void quit(int c) { for(;;) sc(N_EXIT, c, 0,0,0,0,0); }
static void* map(void* at, size_t n, int prot, int flags, int fd) {
#ifdef __s390x__
	unsigned long v[6]={(unsigned long)at, n, (unsigned long)prot, (unsigned long)flags, (unsigned long)(long)fd, 0}; return (void*)sc(N_MMAP, (sl)v, 0,0,0,0,0);
#else
	return (void*)sc(N_MMAP, (sl)at, (sl)n, prot, flags, fd, 0);
#endif
}
extern "C" {
void* memcpy(void* d, const void* s, size_t n) { uint8_t* a=(uint8_t*)d; const uint8_t* b=(const uint8_t*)s; while(n--) { *a++=*b++; __asm__ volatile(""); } return d; }
void* memmove(void* d, const void* s, size_t n) { uint8_t* a=(uint8_t*)d; const uint8_t* b=(const uint8_t*)s; if(a<b) while(n--) { *a++=*b++; __asm__ volatile(""); } else while(n--) { a[n]=b[n]; __asm__ volatile(""); } return d; }
void* memset(void* d, int c, size_t n) { uint8_t* a=(uint8_t*)d; while(n--) { *a++=(uint8_t)c; __asm__ volatile(""); } return d; }
int memcmp(const void* x, const void* y, size_t n) { const uint8_t *a=(const uint8_t*)x, *b=(const uint8_t*)y; for(;n--;a++,b++) if(*a!=*b) return *a-*b; return 0; }
static uint8_t heap[4<<20] __attribute__((aligned(64))); static size_t heapUsed=0;
void* aligned_alloc(size_t al, size_t n) { if(al<16) al=16; size_t p=(heapUsed+al-1)&~(al-1); if(p+n>sizeof heap) quit(70); heapUsed=p+n; return heap+p; }
void* malloc(size_t n) { void* p=aligned_alloc(16, n+8); return (uint8_t*)p+8; } // no more aligned than malloc has to be on 32-bit systems
void* calloc(size_t a, size_t b) { void* p=malloc(a*b); memset(p,0,a*b); return p; }
int posix_memalign(void** p, size_t al, size_t n) { *p=aligned_alloc(al,n); return 0; }
void free(void*) {}
void abort(void) { quit(71); }
int printf(const char*, ...) { return 0; }
#if defined(__arm__)
void __aeabi_memcpy(void* d, const void* s, size_t n) { memcpy(d,s,n); }
void __aeabi_memcpy4(void* d, const void* s, size_t n) { memcpy(d,s,n); }
void __aeabi_memcpy8(void* d, const void* s, size_t n) { memcpy(d,s,n); }
void __aeabi_memmove(void* d, const void* s, size_t n) { memmove(d,s,n); }
void __aeabi_memset(void* d, size_t n, int c) { memset(d,c,n); }
void __aeabi_memclr(void* d, size_t n) { memset(d,0,n); }
void __aeabi_memclr4(void* d, size_t n) { memset(d,0,n); }
void __aeabi_memclr8(void* d, size_t n) { memset(d,0,n); }
#endif
// what code may come to need of the C and compiler libraries
#define W __attribute__((weak))
W size_t strlen(const char* s) { size_t n=0; while(s[n]) { n++; __asm__ volatile(""); } return n; }
W void* memchr(const void* s, int c, size_t n) { const uint8_t* p=(const uint8_t*)s; for(;n--;p++) if(*p==(uint8_t)c) return (void*)p; return 0; }
W int strcmp(const char* a, const char* b) { while(*a && *a==*b) { a++; b++; } return (uint8_t)*a-(uint8_t)*b; }
W int strncmp(const char* a, const char* b, size_t n) { for(;n--;a++,b++) { if(*a!=*b) return (uint8_t)*a-(uint8_t)*b; if(!*a) return 0; } return 0; }
W void* realloc(void* p, size_t n) { void* q=malloc(n); if(p) memcpy(q,p,n); return q; }
W void __cxa_pure_virtual() { abort(); }
#if __SIZEOF_POINTER__ == 4
static uint64_t udivmod(uint64_t a, uint64_t b, uint64_t* r) { uint64_t q=0, m=0; for(int i=63;i>=0;i--) { m=(m<<1)|((a>>i)&1); if(m>=b) { m-=b; q|=1ull<<i; } } *r=m; return q; }
static int64_t sdivmod(int64_t a, int64_t b, int64_t* r) { uint64_t m, q=udivmod(a<0?-(uint64_t)a:a,b<0?-(uint64_t)b:b,&m); *r=a<0?-(int64_t)m:(int64_t)m; return (a<0)!=(b<0)?-(int64_t)q:(int64_t)q; }
uint64_t __udivdi3(uint64_t a, uint64_t b) { uint64_t r; return udivmod(a,b,&r); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; udivmod(a,b,&r); return r; }
W int64_t __divdi3(int64_t a, int64_t b) { int64_t r; return sdivmod(a,b,&r); }
W int64_t __moddi3(int64_t a, int64_t b) { int64_t r; sdivmod(a,b,&r); return r; }
W uint64_t __udivmoddi4(uint64_t a, uint64_t b, uint64_t* r) { return udivmod(a,b,r); }
W int64_t __divmoddi4(int64_t a, int64_t b, int64_t* r) { return sdivmod(a,b,r); }
W unsigned __popcountsi2(unsigned v) { unsigned n=0; for(;v;v&=v-1) n++; return n; }
W int __popcountdi2(uint64_t v) { return __popcountsi2((unsigned)v)+__popcountsi2((unsigned)(v>>32)); }
W int __clzsi2(unsigned v) { int n=0; for(;n<32 && !(v>>31);n++) v<<=1; return n; }
W int __ctzsi2(unsigned v) { int n=0; for(;n<32 && !(v&1);n++) v>>=1; return n; }
W int __clzdi2(uint64_t v) { return (unsigned)(v>>32) ? __clzsi2((unsigned)(v>>32)) : 32+__clzsi2((unsigned)v); }
W int __ctzdi2(uint64_t v) { return (unsigned)v ? __ctzsi2((unsigned)v) : 32+__ctzsi2((unsigned)(v>>32)); }
unsigned __aeabi_uidiv(unsigned a, unsigned b) { uint64_t r; return (unsigned)udivmod(a,b,&r); }
int __aeabi_idiv(int a, int b) { uint64_t r; unsigned q=(unsigned)udivmod(a<0?-(unsigned)a:a,b<0?-(unsigned)b:b,&r); return (a<0)!=(b<0)?-(int)q:(int)q; }
#else
W int __popcountdi2(uint64_t v) { int n=0; for(;v;v&=v-1) n++; return n; }
W int __clzdi2(uint64_t v) { int n=0; for(;n<64 && !(v>>63);n++) v<<=1; return n; }
W int __ctzdi2(uint64_t v) { int n=0; for(;n<64 && !(v&1);n++) v>>=1; return n; }
#endif
#if defined(__arm__)
W uint64_t __aeabi_uidivmod(unsigned a, unsigned b) { uint64_t r; unsigned q=(unsigned)udivmod(a,b,&r); return (r<<32)|q; }
W uint64_t __aeabi_idivmod(int a, int b) { int64_t r; unsigned q=(unsigned)sdivmod(a,b,&r); return ((uint64_t)(uint32_t)r<<32)|q; }
#define DIVMOD(name, f) W __attribute__((naked)) void name() { __asm__("push {r6, lr}\n sub sp, sp, #16\n add r6, sp, #8\n str r6, [sp]\n bl " #f "\n ldr r2, [sp, #8]\n ldr r3, [sp, #12]\n add sp, sp, #16\n pop {r6, pc}"); }
DIVMOD(__aeabi_uldivmod, __udivmoddi4)
DIVMOD(__aeabi_ldivmod, __divmoddi4)
#endif
// what the kernel of the emulated system reports, less what is masked
static unsigned long hwcap=0, hwcap2=0; static int mask=0;
unsigned long getauxval(unsigned long k) {
	unsigned long v = k==16 ? hwcap : k==26 ? hwcap2 : 0;
#if defined(__aarch64__)
	if(k==16 && (mask&1)) v&=~(1ul<<1); if(k==16 && (mask&2)) v&=~(1ul<<7); if(k==16 && (mask&4)) v&=~(1ul<<4);
#elif defined(__arm__)
	if(k==16 && (mask&1)) v&=~(1ul<<12); if(k==26 && (mask&2)) v&=~(1ul<<4); if(k==26 && (mask&4)) v&=~(1ul<<1);
#elif defined(__riscv)
	if(k==16 && (mask&1)) v&=~(1ul<<21);
#endif
	return v;
}
long syscall(long n, ...) { // only riscv_hwprobe is asked for
	__builtin_va_list ap; __builtin_va_start(ap, n); int64_t* p=__builtin_va_arg(ap, int64_t*); __builtin_va_end(ap);
	if(n!=258) return -1;
	p[1] = 0x7ffff & ~(1<<7) & ~(1<<9) & ~(1<<2); if(!(mask&2)) p[1] |= (mask&4) ? 1<<9 : (1<<7)|(1<<9); return 0;
}
int atexit(void(*)()) { return 0; }
void* __dso_handle=0; int __cxa_atexit(void(*)(void*),void*,void*) { return 0; }
extern void (*__init_array_start[])(void); extern void (*__init_array_end[])(void);
}
void* operator new(size_t n) { return malloc(n); }
void* operator new[](size_t n) { return malloc(n); }
void operator delete(void*) noexcept {}
void operator delete[](void*) noexcept {}
void operator delete(void*, size_t) noexcept {}
void operator delete[](void*, size_t) noexcept {}
#ifdef __i386__
static int forcedIsa=-1, forcedCrc=-1;
namespace RapidYenc { int cpu_supports_isa() { return forcedIsa; } int cpu_supports_crc_isa() { return forcedCrc; } }
#endif
static uint64_t fix(uint64_t v) {
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
	return __builtin_bswap64(v);
#else
	return v;
#endif
}
static const size_t G=65536; static uint8_t* base[2];
static uint8_t* ptr(uint64_t where) { return base[where>>40] + (size_t)(where & 0xffffffffffull); }
static const YencDecoderState ST[]={YDEC_STATE_CRLF,YDEC_STATE_EQ,YDEC_STATE_CR,YDEC_STATE_NONE,YDEC_STATE_CRLFDT,YDEC_STATE_CRLFDTCR,YDEC_STATE_CRLFEQ};
extern "C" void start_c(unsigned long* sp) {
	unsigned long argc=*sp; char** argv=(char**)(sp+1); unsigned long* p=sp+1+argc+1; while(*p) p++; p++;
	for(; *p; p+=2) { if(*p==16) hwcap=p[1]; if(*p==26) hwcap2=p[1]; }
	auto num=[&](unsigned long i) { int v=0; if(i<argc) for(char* s=argv[i]; *s; s++) v=v*10+(*s-'0'); return v; };
	mask=num(1); size_t size=(size_t)num(2);
#ifdef __i386__
	forcedIsa=num(3); forcedCrc=num(4);
#endif
	for(int i=0;i<2;i++) { // inaccessible pages around the shared memory
		uint8_t* m=(uint8_t*)map(0, size+2*G, 0, 0x22, -1); if((unsigned long)m > (unsigned long)-4096) quit(72);
		void* q=map(m+G, size, 3, 0x11, 3+i); if(q!=m+G) quit(73); base[i]=m+G;
	}
	for(void (**f)(void)=__init_array_start; f!=__init_array_end; f++) (*f)();
	crc32_init(); if(!(mask&8)) { encoder_init(); decoder_init(); }
	bool lacking=false; // instructions chosen that the system says it lacks: the emulated CPU may have them, a real one would not
#if defined(PLATFORM_ARM)
# define LACKS(m,f) if((mask&m) && (f)) lacking=true;
	LACKS(1, encode_isa_level()&ISA_LEVEL_NEON) LACKS(1, decode_isa_level()&ISA_LEVEL_NEON) LACKS(2, crc32_isa_level()&ISA_FEATURE_CRC) LACKS(4, crc32_isa_level()&ISA_FEATURE_PMULL)
#endif
	uint64_t rq[10], an[6];
	for(;;) {
		for(size_t got=0; got<sizeof rq; ) { sl n=sc(N_READ, 0, (sl)((uint8_t*)rq+got), (sl)(sizeof rq-got), 0,0,0); if(n<=0) quit(0); got+=(size_t)n; }
		for(int i=0;i<10;i++) rq[i]=fix(rq[i]);
		for(int i=0;i<6;i++) an[i]=0;
		if(lacking) __builtin_trap();
		switch(rq[0]) {
			case 0: an[0]=(uint64_t)(unsigned)encode_isa_level(); an[1]=(uint64_t)(unsigned)decode_isa_level(); an[2]=(uint64_t)(unsigned)crc32_isa_level(); an[3]=sizeof(void*); break;
			case 1: { int col=(int)(int64_t)rq[2]; an[0]=encode((int)(int64_t)rq[1], &col, ptr(rq[3]), ptr(rq[4]), (size_t)rq[5], (int)rq[6]); an[1]=(uint64_t)(int64_t)col; } break;
			case 2: an[0]=decode((int)rq[1], ptr(rq[3]), ptr(rq[4]), (size_t)rq[5], NULL); break;
			case 3: { const void* s=ptr(rq[3]); void* d=ptr(rq[4]); const void* s0=s; void* d0=d; YencDecoderState st=ST[rq[1]]; YencDecoderEnd e=decode_end(&s,&d,(size_t)rq[5],&st);
				an[0]=e==YDEC_END_NONE?0:e==YDEC_END_CONTROL?1:e==YDEC_END_ARTICLE?2:99; an[1]=(uint64_t)(int64_t)((const uint8_t*)s-(const uint8_t*)s0); an[2]=(uint64_t)(int64_t)((uint8_t*)d-(uint8_t*)d0); an[3]=99; for(int i=0;i<7;i++) if(ST[i]==st) an[3]=i; } break;
			case 4: an[0]=crc32(ptr(rq[3]), (size_t)rq[5], (uint32_t)rq[1]); break;
			case 5: an[0]=crc32_multiply((uint32_t)rq[1], (uint32_t)rq[2]); break;
			case 6: an[0]=crc32_combine((uint32_t)rq[1], (uint32_t)rq[2], rq[3]); break;
			case 7: an[0]=crc32_zeros((uint32_t)rq[1], rq[2]); break;
			case 8: an[0]=crc32_unzero((uint32_t)rq[1], rq[2]); break;
			case 9: an[0]=crc32_powmod(rq[1]); break;
			case 10: an[0]=crc32_shift((uint32_t)rq[1], (uint32_t)rq[2]); break;
			default: quit(74);
		}
		for(int i=0;i<6;i++) an[i]=fix(an[i]);
		for(size_t put=0; put<sizeof an; ) { sl n=sc(N_WRITE, 1, (sl)((uint8_t*)an+put), (sl)(sizeof an-put), 0,0,0); if(n<=0) quit(0); put+=(size_t)n; }
	}
}
