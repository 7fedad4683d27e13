// Every live heap block of the process that is not the harness's own, decoder libraries included.
#include "heap.h"
#include <new>
#include <sanitizer/asan_interface.h>
#include <atomic>
#include <algorithm>
#include <unordered_map>

size_t g_heap_max;
bool g_heap_watch, g_heap_judge = true;
static bool g_track;
static thread_local bool t_busy;                 // inside the account itself
static thread_local int t_mine;                  // > 0 while the harness allocates for itself
static std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
struct Block { size_t n; int era; };
static int g_era;
void heap_mark() { g_era++; }
static std::unordered_map<const volatile void*, Block>& live() { static auto* m = new std::unordered_map<const volatile void*, Block>; return *m; }
HeapMine::HeapMine() { t_mine++; }
HeapMine::~HeapMine() { t_mine--; }
extern "C" void __sanitizer_malloc_hook(const volatile void* p, size_t n) {
	if(g_heap_watch && n > g_heap_max) g_heap_max = n;
	if(!g_track || t_mine || t_busy || !p) return;
	t_busy = true;
	while(g_lock.test_and_set(std::memory_order_acquire)) ;
	live()[p] = Block{ n, g_era };
	g_lock.clear(std::memory_order_release);
	t_busy = false;
}
extern "C" void __sanitizer_free_hook(const volatile void* p) {
	if(!g_track || t_busy || !p) return;
	t_busy = true;
	while(g_lock.test_and_set(std::memory_order_acquire)) ;
	live().erase(p);
	g_lock.clear(std::memory_order_release);
	t_busy = false;
}
void heap_track(bool on) { g_track = false; { HeapMine m; live().clear(); } g_track = on; }
size_t heap_left(std::string* sizes) {
	bool t = g_track; g_track = false;
	HeapMine m;
	std::map<size_t, size_t> c;
	for(auto& b : live()) if(b.second.era == g_era) c[b.second.n]++;
	size_t n = live().size();
	if(sizes) { sizes->clear(); int k = 0; for(auto it = c.rbegin(); it != c.rend() && k < 8; ++it, k++) { char b[60]; snprintf(b, sizeof b, "%s%zu of %zu bytes", k ? ", " : "", it->second, it->first); *sizes += b; } }
	if(sizes && getenv("SIM_HEAP_DEBUG")) for(auto& b : live()) __asan_describe_address((void*)b.first);
	g_track = t;
	return n;
}
#ifndef SIM_PY
// the harness and its C++ containers stay out of the account (and keep their red zones)
void* operator new(size_t n) { HeapMine m; void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
