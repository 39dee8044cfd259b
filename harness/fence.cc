// LD_PRELOAD: allocations made by one module (by return address) end at an inaccessible page and have canaries on
// both sides, checked when they are freed or resized. Everything else goes to libc.
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*);
static uintptr_t lo, hi; static const char* want; static int64_t count, freed;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static uint8_t* arena; static size_t used; static const size_t ARENA = (size_t)1<<40, PG = 4096; // address space only
struct Head { size_t magic, len, map; uint8_t* user; }; // at the start of the mapping
static const size_t MAGIC = 0x79656e63666e6365ull;
static void die(const char* m) { (void)!write(2, "yv-fence: ", 10); (void)!write(2, m, strlen(m)); (void)!write(2, "\n", 1); abort(); }
static int cb(struct dl_phdr_info* i, size_t, void*) {
	if(!i->dlpi_name || !strstr(i->dlpi_name, want)) return 0;
	for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type == PT_LOAD) {
		uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
		if(!lo || a < lo) lo = a; if(b > hi) hi = b;
	}
	return 0;
}
int64_t yv_fence_arm(const char* name) {
	if(*name) { want = name; uintptr_t l = lo; lo = hi = 0; if(!arena) { void* p = mmap(NULL, ARENA, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) return -1; arena = (uint8_t*)p; } dl_iterate_phdr(cb, NULL); (void)l; }
	return count;
}
// fault injection: after `skip` more allocations of the module, the next `n` (-1: all) fail. Returns how many have failed so far
static int64_t failSkip, failLeft, failed;
int64_t yv_fence_fail(int64_t skip, int64_t n) { failSkip = skip; failLeft = n; return failed; }
static bool refuse() { if(!failLeft) return false; if(failSkip > 0) { failSkip--; return false; } if(failLeft > 0) failLeft--; failed++; return true; }
static inline bool mine(void* ra) { uintptr_t a = (uintptr_t)ra; return lo && a >= lo && a < hi; }
static inline bool fenced(void* p) { return arena && (uint8_t*)p >= arena && (uint8_t*)p < arena + ARENA; }
static Head* headOf(void* p) { // found by the page before the user area
	uint8_t* q = (uint8_t*)((uintptr_t)p & ~(PG-1)) - PG; Head* h = (Head*)q;
	if(h->magic != MAGIC || h->user != p) die("free or realloc of a pointer that was not returned by malloc"); return h;
}
// one page for the head and the leading canary, then the data up to the end of a page, then an inaccessible page
static void* get(size_t len, size_t align = 16) { // align: a power of 2, up to a page
	if(refuse()) { errno = ENOMEM; return NULL; }
	size_t n = (len + align-1) & ~(size_t)(align-1), pages; if(!n) n = align;
	pages = (n + PG-1) / PG;
	size_t map = (pages + 1) * PG;
	pthread_mutex_lock(&mu); uint8_t* b = arena + used; used += map + PG; count++; bool full = used + (1<<20) > ARENA; pthread_mutex_unlock(&mu);
	if(full || mprotect(b, map, PROT_READ|PROT_WRITE)) return NULL;
	Head* h = (Head*)b; uint8_t* end = b + map; h->magic = MAGIC; h->len = len; h->map = map; h->user = end - n;
	memset(h->user + len, 0xC9, n - len);
	size_t lead = (size_t)(h->user - (b + sizeof(Head))); if(lead > 128) lead = 128; memset(h->user - lead, 0xC9, lead);
	memset(h->user, 0xB7, len < 4096 ? len : 4096);
	return h->user;
}
static void verify(Head* h) {
	for(uint8_t* q = h->user + h->len; q < (uint8_t*)h + h->map; q++) if(*q != 0xC9) die("write beyond an allocation");
	size_t lead = (size_t)(h->user - ((uint8_t*)h + sizeof(Head))); if(lead > 128) lead = 128;
	for(uint8_t* q = h->user - lead; q < h->user; q++) if(*q != 0xC9) die("write before an allocation");
}
int64_t yv_fence_live() { return count - __atomic_load_n(&freed, __ATOMIC_SEQ_CST); }
static void drop(void* p) { Head* h = headOf(p); verify(h); __atomic_add_fetch(&freed, 1, __ATOMIC_SEQ_CST); size_t m = h->map; mmap(h, m, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0); }
void* malloc(size_t n) { return mine(__builtin_return_address(0)) ? get(n) : __libc_malloc(n); }
void* calloc(size_t a, size_t b) { if(mine(__builtin_return_address(0)) && (!a || b <= (size_t)-1 / a)) { void* p = get(a*b); if(p) memset(p, 0, a*b); return p; } return __libc_calloc(a, b); }
void* __libc_memalign(size_t, size_t);
void* memalign(size_t a, size_t n) { return mine(__builtin_return_address(0)) && a <= PG ? get(n, a < 16 ? 16 : a) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return mine(__builtin_return_address(0)) && a <= PG ? get(n, a < 16 ? 16 : a) : __libc_memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) {
	if(a < sizeof(void*) || (a & (a-1))) return EINVAL;
	void* p = mine(__builtin_return_address(0)) && a <= PG ? get(n, a < 16 ? 16 : a) : __libc_memalign(a, n); if(!p) return ENOMEM; *r = p; return 0;
}
void* realloc(void* p, size_t n) {
	if(p ? !fenced(p) : !mine(__builtin_return_address(0))) return __libc_realloc(p, n);
	void* q = get(n); if(!p || !q) return q;
	Head* h = headOf(p); verify(h); memcpy(q, p, h->len < n ? h->len : n); drop(p); return q;
}
void free(void* p) { if(p && fenced(p)) drop(p); else __libc_free(p); }
}
