// Memory of a simulated run: a deterministic heap at fixed addresses (what a run does must not
// depend on what the driver process had allocated before), fixed thread stacks, and detection of
// accesses to freed memory from instrumented code.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.hpp"
#include <errno.h>
#include <string.h>
#include <unistd.h>
#include <vector>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

namespace sim {
u8 *g_shadow = nullptr;              // one byte per 16 bytes of the arena: 0 never used, 1 live, 2 freed
bool g_heap_on = false;
static constexpr u64 STACK_BASE = 0x180000000000ull, STACK_SIZE = 8ull << 20, STACK_GUARD = 1ull << 20;
static u64 g_top;
static std::atomic<int> g_lock{0};
struct Hdr { u64 size; u32 cls; u32 magic; };
static constexpr u32 LIVE = 0x11fe11fe, FREED = 0xdeaddead, ALIGNED = 0xa119ed00;
static constexpr int NCLS = 400;
struct Free { Free *next; };
static Free *g_head[NCLS], *g_tail[NCLS];
static const u8 POISON = 0xA5;

static int cls_of(u64 n, u64 &sz) {
	if (n <= 1024) { u64 k = (n + 15) / 16; if (!k) k = 1; sz = k * 16; return (int)k; }       // 1..64
	int sh = 63 - __builtin_clzll(n - 1);            // 2^sh <= n-1 < 2^(sh+1)
	u64 step = 1ull << (sh - 2), b = 1ull << sh;
	u64 q = (n - b + step - 1) / step; sz = b + q * step;
	return 65 + (sh - 10) * 5 + (int)q;
}
static void lock() { int e = 0; while (!g_lock.compare_exchange_weak(e, 1, std::memory_order_acquire)) e = 0; }
static void unlock() { g_lock.store(0, std::memory_order_release); }
static bool ours(const void *p) { return (u64)p >= ARENA_BASE && (u64)p < ARENA_BASE + ARENA_SIZE; }
static Hdr *hdr(void *p) {
	Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
	if (h->magic == ALIGNED) h = (Hdr *)h->size;
	return h;
}
static void bad(const char *what, const void *p) {
	char b[96]; snprintf(b, sizeof b, "memory/%s", what);
	g_heap_on = g_heap_on && true;
	if (g_active) violate(b, "%s", what);
	(void)p; abort();
}
static void *take(u64 n) {
	u64 sz; int c = cls_of(n, sz);
	if (c >= NCLS) return nullptr;
	lock();
	char *base = nullptr; bool dirty = false;
	if (g_head[c]) {
		base = (char *)g_head[c]; g_head[c] = g_head[c]->next; if (!g_head[c]) g_tail[c] = nullptr;
		const u8 *q = (const u8 *)base + sizeof(Hdr); u64 k = sz < 1024 ? sz : 1024;
		for (u64 i = 0; i < k; ++i) if (q[i] != POISON) { dirty = true; break; }
	} else {
		if (g_top + sz + sizeof(Hdr) > ARENA_BASE + ARENA_SIZE) { unlock(); return nullptr; }
		base = (char *)g_top; g_top += sz + sizeof(Hdr);
	}
	Hdr *h = (Hdr *)base; h->size = n; h->cls = c; h->magic = LIVE;
	memset(g_shadow + ((u64)base + sizeof(Hdr) - ARENA_BASE) / 16, 1, (n + 15) / 16);
	unlock();
	if (dirty) bad("write-after-free", base);
	memset(base + sizeof(Hdr), 0x5A, n < 4096 ? n : 4096);
	return base + sizeof(Hdr);
}
static void give(void *p) {
	Hdr *h = hdr(p);
	if (h->magic == FREED) bad("double-free", p);
	if (h->magic != LIVE) bad("invalid-free", p);
	u64 sz; int c = cls_of(h->size, sz);
	lock();
	h->magic = FREED;
	char *d = (char *)h + sizeof(Hdr);
	memset(d, POISON, sz < 1024 ? sz : 1024);
	if (sz > 1024) memset(d + 1024, POISON, h->size > 1024 ? (h->size < 65536 ? h->size : 65536) - 1024 : 0);
	memset(g_shadow + ((u64)d - ARENA_BASE) / 16, 2, (h->size + 15) / 16);
	Free *f = (Free *)h; f->next = nullptr;            // overwrites size only
	if (g_tail[c]) g_tail[c]->next = f; else g_head[c] = f;
	g_tail[c] = f;
	unlock();
}
void heap_begin() {
	void *a = mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void *s = mmap((void *)(ARENA_BASE + ARENA_SIZE), ARENA_SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (a != (void *)ARENA_BASE || s == MAP_FAILED) { perror("heap"); _exit(3); }
	g_shadow = (u8 *)s; g_top = ARENA_BASE;
}
void heap_on() { g_heap_on = true; }
void bad_access(const void *p, bool wr) {
	g_shadow = nullptr;                              // report once
	violate("memory/use-after-free", "%s of freed memory", wr ? "write" : "read");
	(void)p;
}
// ---- stacks ------------------------------------------------------------------------
static std::vector<int> *g_free_stacks; static int g_nstacks;
int stack_take(void **addr, u64 *size) {
	int k;
	if (g_free_stacks && !g_free_stacks->empty()) { k = g_free_stacks->back(); g_free_stacks->pop_back(); }
	else {
		k = g_nstacks++;
		u64 b = STACK_BASE + (u64)k * (STACK_SIZE + STACK_GUARD);
		if (mmap((void *)(b + STACK_GUARD), STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) return -1;
	}
	*addr = (void *)(STACK_BASE + (u64)k * (STACK_SIZE + STACK_GUARD) + STACK_GUARD); *size = STACK_SIZE;
	return k;
}
void stack_give(int k) { if (k < 0) return; if (!g_free_stacks) g_free_stacks = new std::vector<int>; g_free_stacks->push_back(k); }
} // namespace sim

using namespace sim;
#define EXPORT extern "C" __attribute__((visibility("default")))
EXPORT void *malloc(size_t n) noexcept {
	if (!g_heap_on) return __libc_malloc(n);
	void *p = take(n); if (!p) errno = ENOMEM; return p;
}
EXPORT void free(void *p) noexcept {
	if (!p) return;
	if (ours(p)) { int e = errno; give(p); errno = e; } else __libc_free(p);
}
EXPORT void *calloc(size_t a, size_t b) noexcept {
	if (!g_heap_on) return __libc_calloc(a, b);
	size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
	void *p = take(n); if (!p) { errno = ENOMEM; return p; }
	memset(p, 0, n); return p;
}
EXPORT void *realloc(void *p, size_t n) noexcept {
	if (!p) return malloc(n);
	if (!ours(p)) return __libc_realloc(p, n);
	if (!n) { free(p); return nullptr; }
	Hdr *h = hdr(p);
	if (h->magic != LIVE) bad("realloc-of-freed", p);
	void *q = take(n); if (!q) { errno = ENOMEM; return q; }
	u64 off = (char *)p - (char *)(h + 1), have = h->size - off;
	memcpy(q, p, have < n ? have : n); give(p); return q;
}
EXPORT void *memalign(size_t al, size_t n) noexcept {
	if (!g_heap_on) return __libc_memalign(al, n);
	if (al <= 16) return malloc(n);
	void *p = take(n + al + sizeof(Hdr)); if (!p) { errno = ENOMEM; return p; }
	u64 q = ((u64)p + sizeof(Hdr) + al - 1) & ~(u64)(al - 1);
	Hdr *h = (Hdr *)(q - sizeof(Hdr)); h->size = (u64)p - sizeof(Hdr); h->magic = ALIGNED; h->cls = 0;
	return (void *)q;
}
EXPORT void *aligned_alloc(size_t al, size_t n) noexcept { return memalign(al, n); }
EXPORT int posix_memalign(void **o, size_t al, size_t n) noexcept { void *p = memalign(al, n); if (!p) return ENOMEM; *o = p; return 0; }
EXPORT size_t malloc_usable_size(void *p) noexcept {
	if (!p) return 0;
	if (ours(p)) { Hdr *h = hdr(p); return h->size - ((char *)p - (char *)(h + 1)); }
	return ((size_t *)p)[-1] & ~(size_t)7;
}
