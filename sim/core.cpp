#include "core.h"
#include "heap.h"
#include <cstdarg>
#include <unistd.h>
#include <csetjmp>
#include <pthread.h>
#include <fcntl.h>
#include <unordered_map>
#include <sys/mman.h>

RunRec* R;
uint8_t* g_cov;
uint32_t g_nguards;

// ---------------------------------------------------------------- choices
uint64_t mix64(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
uint64_t hash_str(const char* s) { uint64_t h = 1469598103934665603ull; for(; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ull; return h; }
static Prng g_rng(0);
static const std::vector<uint64_t>* g_replay;
void choices_seed(uint64_t seed) { g_rng = Prng(seed); g_replay = nullptr; }
void choices_replay(const std::vector<uint64_t>& v) { g_replay = &v; }
uint64_t draw(uint64_t n) {
	if(!n) harness_error("draw(0)");
	uint64_t v;
	uint32_t i = R->nch;
	if(g_replay) v = i < g_replay->size() ? (*g_replay)[i] % n : 0;
	else v = g_rng.next() % n;
	if(i >= MAXCH) harness_error("too many choices");
	R->ch[i] = v;
	R->nch = i + 1;
	return v;
}
bool chance(unsigned num, unsigned den) { if(!num) return false; return draw(den) >= den - num; }

// ---------------------------------------------------------------- trace
static void hmix(uint64_t& h, uint64_t v) { h = mix64(h ^ (v + 0x9E3779B97F4A7C15ull)); }
void loghash(uint64_t v) { hmix(R->loghash, v); }
void hist(uint64_t v) { hmix(R->hist, v); }
void logf(const char* fmt, ...) {
	char b[2048];
	va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if(n < 0) return;
	if((size_t)n >= sizeof b) n = sizeof b - 1;
	hmix(R->loghash, hash_str(b));
	if(R->loglen + n + 2 < LOGCAP) {
		memcpy(R->log + R->loglen, b, n);
		R->loglen += n;
		R->log[R->loglen++] = '\n';
		R->log[R->loglen] = 0;
	}
}
void count(const char* name, uint64_t n) {
	for(int i = 0; i < NCNT; i++) {
		if(!R->cnt[i].name[0]) { strncpy(R->cnt[i].name, name, sizeof R->cnt[i].name - 1); R->cnt[i].v = n; return; }
		if(!strncmp(R->cnt[i].name, name, sizeof R->cnt[i].name - 1)) { R->cnt[i].v += n; return; }
	}
}
[[noreturn]] static void leave(int code) { _exit(code); }
static bool concerns(const char* cls) {
	// C06 is judged over the workloads of other properties as well; what those find there is theirs to report
	extern std::string g_prop;
	if(g_prop != "C06") return true;
	for(const char* c : { "leak", "heap-left", "double-release", "stdin-closed", "stream-closed-twice", "wrong-release", "null-handle" }) if(!strcmp(c, cls)) return true;
	return false;
}
void violation(const char* cls, const char* fmt, ...) {
	if(!concerns(cls)) { char b[44]; snprintf(b, sizeof b, "run.ended_by.%s", cls); count(b); logf("ends here: %s", cls); run_done(); }
	va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
	snprintf(R->cls, sizeof R->cls, "%s", cls);
	logf("VIOLATION %s: %s", cls, R->msg);
	R->status = 2;
	leave(0);
}
void harness_error(const char* fmt, ...) {
	va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
	R->status = 3;
	leave(0);
}
void run_done() { R->status = 1; leave(0); }

// ---------------------------------------------------------------- coverage callbacks = logical clock
thread_local Ctx* cx;
Ctx main_ctx;
bool g_in_sched;
static int64_t g_slice = INT64_MAX;        // edges until the next event
static uint64_t g_budget = 1ull << 62, g_slice_set = INT64_MAX;
static uint64_t g_steps_base;
static unsigned g_slice_log2;
static void slice_end();

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
	if(start == stop || *start) return;
	for(uint32_t* x = start; x < stop; x++) *x = ++g_nguards;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
	if(g_cov) g_cov[*g] = 1;
	if(--g_slice <= 0) slice_end();
}
static void flush_steps() {
	if(!R) return;
	uint64_t used = g_slice_set - (uint64_t)(g_slice > 0 ? g_slice : 0);
	g_steps_base += used;
	R->steps = g_steps_base;
}
static void new_slice(uint64_t n) { g_slice_set = n; g_slice = (int64_t)n; }
void set_step_budget(uint64_t n) {
	flush_steps();
	if(n > (1ull << 62)) n = 1ull << 62;
	g_budget = n;
	new_slice(n > g_steps_base ? n - g_steps_base : 1);
}
uint64_t steps_now() { flush_steps(); new_slice(g_slice > 0 ? g_slice : 1); return g_steps_base; }

// ---------------------------------------------------------------- scheduler: real threads, one released at a time
struct Task { std::function<void()> fn; Ctx* ctx; pthread_t th; bool done = false; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; };
static pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;
static std::vector<Task*> g_tasks;
static int g_running = -1;
static pthread_cond_t g_main_cv = PTHREAD_COND_INITIALIZER;
static thread_local int t_self = -1;

static uint64_t draw_slice() {
	uint64_t n = 1ull << draw(g_slice_log2 + 1 + R->nch / 4096);       // long runs are switched less and less often
	return n + draw(n);
}
static void arm_slice() {
	uint64_t left = g_budget > g_steps_base ? g_budget - g_steps_base : 1;
	uint64_t s = g_in_sched ? draw_slice() : left;
	new_slice(s < left ? s : left);
}
static void switch_to_next(bool finished) {
	// called by the running thread; picks who runs next
	std::vector<int> ready;
	for(size_t i = 0; i < g_tasks.size(); i++) if(!g_tasks[i]->done) ready.push_back((int)i);
	pthread_mutex_lock(&g_mx);
	int self = t_self;
	if(ready.empty()) { g_running = -1; pthread_cond_signal(&g_main_cv); pthread_mutex_unlock(&g_mx); return; }
	int next = ready[ready.size() == 1 ? 0 : draw(ready.size())];
	loghash(0x5c4ed + next);
	if(next != self) { R->preempts++; hist(0xabc00 + next); }
	arm_slice();
	if(next == self) { pthread_mutex_unlock(&g_mx); return; }
	g_running = next;
	pthread_cond_signal(&g_tasks[next]->cv);
	if(!finished)
		while(g_running != self) pthread_cond_wait(&g_tasks[self]->cv, &g_mx);
	pthread_mutex_unlock(&g_mx);
}
static bool g_in_switch;
static void slice_end() {
	flush_steps();
	if(!R) { new_slice(INT64_MAX); return; }
	if(g_steps_base >= g_budget) {
		new_slice(INT64_MAX);
		violation("no-progress", "the call did not finish within %llu steps", (unsigned long long)g_budget);
	}
	if(g_in_sched && t_self >= 0 && !g_in_switch) { g_in_switch = true; int e = errno; g_in_switch = false; switch_to_next(false); errno = e; }
	else arm_slice();
}
static uint64_t g_yields;
void yield_point() {
	if(R && R->nch > 20000 && (++g_yields & (R->nch > 60000 ? 1023 : 63))) return;      // long runs: fewer choices
	if(g_in_sched && t_self >= 0 && chance(1, 4)) { flush_steps(); int e = errno; switch_to_next(false); errno = e; }
}
// loads and stores (where the library is built to announce them): threads may be switched between any two accesses to
// variables that are shared because they have static storage and were stored to during the run
static std::vector<uintptr_t> g_shared;
#ifdef SIM_PY
static bool is_static(const void*) { return false; }
#else
extern "C" char __data_start, _end;
static bool is_static(const void* a) { return (const char*)a >= &__data_start && (const char*)a < &_end; }
#endif
static void shared_access() {
	if(g_in_sched && t_self >= 0 && R && R->nch < 20000 && chance(1, 2)) { flush_steps(); int e = errno; switch_to_next(false); errno = e; }
}
static void on_load(const void* a) {
	if(!g_in_sched || g_shared.empty() || !is_static(a)) return;
	uintptr_t u = (uintptr_t)a >> 3;
	for(uintptr_t s : g_shared) if(s == u) { shared_access(); return; }
}
static void on_store(const void* a) {
	if(!g_in_sched || !is_static(a)) return;
	uintptr_t u = (uintptr_t)a >> 3;
	bool known = false;
	for(uintptr_t s : g_shared) known |= s == u;
	if(!known && g_shared.size() < 64) g_shared.push_back(u);
	shared_access();
}
extern "C" {
void __sanitizer_cov_load1(uint8_t* a) { on_load(a); } void __sanitizer_cov_load2(uint16_t* a) { on_load(a); } void __sanitizer_cov_load4(uint32_t* a) { on_load(a); } void __sanitizer_cov_load8(uint64_t* a) { on_load(a); } void __sanitizer_cov_load16(void* a) { on_load(a); }
void __sanitizer_cov_store1(uint8_t* a) { on_store(a); } void __sanitizer_cov_store2(uint16_t* a) { on_store(a); } void __sanitizer_cov_store4(uint32_t* a) { on_store(a); } void __sanitizer_cov_store8(uint64_t* a) { on_store(a); } void __sanitizer_cov_store16(void* a) { on_store(a); }
}
static void* task_main(void* p) {
	int i = (int)(intptr_t)p;
	pthread_mutex_lock(&g_mx);
	t_self = i;
	while(g_running != i) pthread_cond_wait(&g_tasks[i]->cv, &g_mx);
	pthread_mutex_unlock(&g_mx);
	cx = g_tasks[i]->ctx;
	g_tasks[i]->fn();
	flush_steps();
	new_slice(INT64_MAX);
	g_tasks[i]->done = true;
	switch_to_next(true);
	return nullptr;
}
void sched_run(std::vector<std::function<void()>> fns, std::vector<Ctx*> ctxs, unsigned slice_log2) {
	std::vector<Task> ts(fns.size());
	g_tasks.clear(); g_shared.clear();
	g_slice_log2 = slice_log2;
	for(size_t i = 0; i < fns.size(); i++) { ts[i].fn = fns[i]; ts[i].ctx = ctxs[i]; g_tasks.push_back(&ts[i]); }
	flush_steps();
	g_in_sched = true;
	g_running = -2;
	for(size_t i = 0; i < fns.size(); i++)
		if(pthread_create(&ts[i].th, nullptr, task_main, (void*)(intptr_t)i)) harness_error("pthread_create");
	pthread_mutex_lock(&g_mx);
	g_running = (int)draw(fns.size());
	arm_slice();
	pthread_cond_signal(&ts[g_running].cv);
	while(g_running != -1) pthread_cond_wait(&g_main_cv, &g_mx);
	pthread_mutex_unlock(&g_mx);
	for(auto& t : ts) pthread_join(t.th, nullptr);
	g_in_sched = false;
	arm_slice();
}

// ---------------------------------------------------------------- ledger and allocator
const char* kind_name[] = { "memory", "libpng memory", "fftw memory", "fftw plan", "libpng reader", "libjpeg decompressor", "libav input", "libav codec context", "sws context", "AVFrame", "AVPacket", "MagickWand", "stream", "MagickWand string" };
static std::unordered_map<void*, LedgerEntry>& ledger() { static auto* m = new std::unordered_map<void*, LedgerEntry>; return *m; }
static uint64_t g_ledger_seq;
int g_fill = 0xA5;
size_t g_alloc_cap = (size_t)1 << 30;
size_t g_alloc_max_seen;
uint64_t g_alloc_total;
void ledger_add(Kind k, void* p, size_t size) { ledger()[p] = LedgerEntry{ k, size, ++g_ledger_seq, cx ? cx->id : 0 }; }
bool ledger_del(Kind k, void* p) {
	auto it = ledger().find(p);
	if(it == ledger().end() || it->second.kind != k) return false;
	ledger().erase(it);
	return true;
}
bool ledger_has(void* p) { return ledger().count(p) != 0; }
size_t ledger_size(void* p) { auto it = ledger().find(p); return it == ledger().end() ? 0 : it->second.size; }
size_t ledger_count(int ctx) { if(ctx < 0) return ledger().size(); size_t n = 0; for(auto& e : ledger()) n += e.second.ctx == ctx; return n; }
size_t ledger_count_kind(Kind k) { size_t n = 0; for(auto& e : ledger()) n += e.second.kind == k; return n; }
std::string ledger_dump() {
	std::map<uint64_t, std::string> o;
	for(auto& e : ledger()) { char b[128]; snprintf(b, sizeof b, "%s of %zu bytes (acquisition #%llu)", kind_name[e.second.kind], e.second.size, (unsigned long long)e.second.seq); o[e.second.seq] = b; }
	std::string s; int n = 0;
	for(auto& x : o) { if(n++ >= 8) break; if(s.size()) s += "; "; s += x.second; }
	return s;
}
bool alloc_should_fail(bool own, const char* what, size_t n) {
	if(!cx) return false;
	AllocPlan& a = cx->alloc;
	if(!a.armed || !a.mode) return false;
	uint64_t i = a.count++;
	bool f = false;
	switch(a.mode) {
		case 1: f = i == a.n; break;
		case 2: f = i >= a.n; break;
		case 3: f = i >= a.n && chance(1, a.den); break;
	}
	if(f) {
		a.fired++;
		cx->alloc_faults++;
		if(own) cx->own_alloc_faults++;
		R->nontrivial = 1;
		logf("  fault: allocation #%llu fails (%s, %zu bytes)", (unsigned long long)i, what, n);
		hist(0xfa11);
		count(own ? "fault.alloc" : "fault.alloc_in_library");
	}
	return f;
}
static void fill(void* p, size_t n) {
	if(n > (16u << 20)) return;
	if(g_fill >= 0) memset(p, g_fill, n);
	else { Prng r(n * 77 + g_ledger_seq); for(size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)r.next(); }
}
static bool over_cap(size_t n) {
	if(n > g_alloc_max_seen) g_alloc_max_seen = n;
	g_alloc_total += n;
	if(n > g_alloc_cap) { logf("  allocation of %zu bytes refused (beyond simulated memory)", n); if(cx) { cx->alloc_faults++; cx->own_alloc_faults++; } return true; }
	return false;
}
// big blocks are mapped lazily, so that declared sizes cost nothing until they are used
static std::unordered_map<void*, size_t>& lazies() { static auto* m = new std::unordered_map<void*, size_t>; return *m; }
void* lazy_map(size_t n) {
	size_t len = (n + 4095) / 4096 * 4096 + 4096;
	void* p = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED) return nullptr;
	mprotect((char*)p + len - 4096, 4096, PROT_NONE);
	lazies()[p] = len;
	return p;
}
bool lazy_free(void* p) {
	if(lazies().empty()) return false;
	auto it = lazies().find(p);
	if(it == lazies().end()) return false;
	munmap(p, it->second);
	lazies().erase(it);
	return true;
}
extern "C" {
void* sim_malloc(size_t n) {
	yield_point();
	if(alloc_should_fail(true, "malloc", n) || over_cap(n)) { errno = ENOMEM; return nullptr; }
	void* p = n > LAZY ? lazy_map(n) : malloc(n);
	if(!p) { if(cx) { cx->alloc_faults++; cx->own_alloc_faults++; } return nullptr; }
	if(n <= LAZY) fill(p, n);
	ledger_add(K_MEM, p, n);
	return p;
}
void* sim_calloc(size_t a, size_t b) {
	yield_point();
	size_t n;
	if(__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; if(cx) { cx->alloc_faults++; cx->own_alloc_faults++; } return nullptr; }
	if(alloc_should_fail(true, "calloc", n) || over_cap(n)) { errno = ENOMEM; return nullptr; }
	void* p = n > LAZY ? lazy_map(n) : calloc(a, b);
	if(!p) { if(cx) { cx->alloc_faults++; cx->own_alloc_faults++; } return nullptr; }
	ledger_add(K_MEM, p, n);
	return p;
}
void* sim_realloc(void* p, size_t n) {
	yield_point();
	if(!p) return sim_malloc(n);
	if(alloc_should_fail(true, "realloc", n) || over_cap(n)) { errno = ENOMEM; return nullptr; }
	auto it = ledger().find(p);
	if(it == ledger().end()) return realloc(p, n);   // not ours; let ASan judge
	size_t old = it->second.size;
	void* q = n > LAZY ? lazy_map(n) : malloc(n);
	if(!q) { if(cx) { cx->alloc_faults++; cx->own_alloc_faults++; } return nullptr; }
	if(n <= LAZY) fill(q, n);
	memcpy(q, p, old < n ? old : n);
	ledger().erase(p);
	if(!lazy_free(p)) free(p);
	ledger_add(K_MEM, q, n);
	return q;
}
void* sim_reallocarray(void* p, size_t a, size_t b) {
	size_t n;
	if(__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; if(cx) { cx->alloc_faults++; cx->own_alloc_faults++; } return nullptr; }
	return sim_realloc(p, n);
}
char* sim_strndup(const char* s, size_t m) {
	size_t n = strnlen(s, m);
	char* p = (char*)sim_malloc(n + 1);
	if(p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}
char* sim_strdup(const char* s) { return sim_strndup(s, strlen(s)); }
void* sim_aligned_alloc(size_t al, size_t n) {
	if(n > LAZY && al <= 4096 || al <= 16) return sim_malloc(n);
	yield_point();
	if(alloc_should_fail(true, "aligned_alloc", n) || over_cap(n)) { errno = ENOMEM; return nullptr; }
	void* p = nullptr;
	if(posix_memalign(&p, al, n) || !p) { if(cx) { cx->alloc_faults++; cx->own_alloc_faults++; } return nullptr; }
	fill(p, n);
	ledger_add(K_MEM, p, n);
	return p;
}
int sim_posix_memalign(void** out, size_t al, size_t n) {
	void* p = sim_aligned_alloc(al, n);
	if(!p) return ENOMEM;
	*out = p;
	return 0;
}
void sim_free(void* p) {
	yield_point();
	if(!p) return;
	auto it = ledger().find(p);
	if(it != ledger().end() && it->second.kind == K_MEM) ledger().erase(it);
	if(lazy_free(p)) return;
	free(p);                                          // a double or foreign free is ASan's to report
}
}

// ---------------------------------------------------------------- simulated disk, pipes and streams
static std::map<std::string, std::unique_ptr<SimFile>> g_vfs;
std::map<FILE*, SimStream*> g_streams;
SimFile* vfs_add(const std::string& name, std::shared_ptr<Bytes> data, const StreamCfg& cfg) {
	auto f = std::make_unique<SimFile>();
	f->name = name; f->data = data; f->size = data ? data->size() : 0; f->cfg = cfg;
	SimFile* p = f.get();
	g_vfs[name] = std::move(f);
	return p;
}
SimFile* vfs_find(const std::string& n) { auto it = g_vfs.find(n); return it == g_vfs.end() ? nullptr : it->second.get(); }
void vfs_clear() { g_vfs.clear(); }

static void io_fault(SimStream* s, const char* what, uint64_t at) {
	Ctx* c = cx ? cx : &main_ctx;
	if(!s->is_std || !s->writing) c->io_faults++;       // a full output is judged by itself
	R->nontrivial = 1;
	logf("  fault: %s on %s at offset %llu", what, s->file->name.c_str(), (unsigned long long)at);
	hist(hash_str(what));
	char b[44]; snprintf(b, sizeof b, "fault.%s", what); count(b);
}
ssize_t raw_read(SimStream* s, char* buf, size_t n) {
	yield_point();
	if(--g_slice <= 0) slice_end();
	SimFile* f = s->file;
	s->reads++;
	R->simtime += 1;
	uint64_t avail = s->pos < f->size ? f->size - s->pos : 0;
	size_t len = n < avail ? n : (size_t)avail;
	switch(f->cfg.chunk_mode) {
		case 1: if(len > 1) len = 1; break;
		case 2: if(len > 1) len = 1 + draw(len < 16 ? len : 16); break;
		case 3: if(len > 1) len = 1 + draw(len); break;
		case 4: if(len > f->cfg.chunk) len = f->cfg.chunk; break;
	}
	if(len > n) len = n;
	if(len > avail) len = avail;
	for(auto& p : s->faults) {
		if(p.used && p.kind != F_EIO_STICKY) continue;
		uint64_t at = p.off;
		if(p.kind == F_EIO_STICKY && p.used && s->pos >= at) at = s->pos;
		if(at < s->pos || at > s->pos + len) continue;
		if(at > s->pos) { len = at - s->pos; continue; }
		p.used = true;
		switch(p.kind) {
			case F_EIO: io_fault(s, "eio", s->pos); errno = EIO; return -1;
			case F_EIO_STICKY: io_fault(s, "eio_persistent", s->pos); errno = EIO; return -1;
			case F_EINTR: io_fault(s, "eintr", s->pos); errno = EINTR; return -1;
			case F_EAGAIN: io_fault(s, "eagain", s->pos); errno = EAGAIN; return -1;
			default: break;
		}
	}
	if(len) {
		if(f->gen) f->gen(s->pos, (uint8_t*)buf, len);
		else memcpy(buf, f->data->data() + s->pos, len);
	}
	if(len < n && len < avail) count("io.short_read");
	s->pos += len;
	loghash(len * 31 + 7);
	return (ssize_t)len;
}
int64_t raw_seek(SimStream* s, int64_t off, int whence) {
	yield_point();
	if(--g_slice <= 0) slice_end();
	s->seeks++;
	if(!s->file->cfg.seekable) { errno = ESPIPE; return -1; }
	if(s->file->cfg.seek_fail_den && !s->writing && chance(1, s->file->cfg.seek_fail_den)) { io_fault(s, "seek_error", s->pos); errno = EIO; return -1; }
	int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)s->pos : (int64_t)s->file->size;
	int64_t to;
	if(__builtin_add_overflow(base, off, &to) || to < 0) { errno = EINVAL; return -1; }
	s->pos = (uint64_t)to;
	loghash(to);
	return to;
}
static ssize_t ck_read(void* c, char* b, size_t n) { return raw_read((SimStream*)c, b, n); }
static int ck_seek(void* c, off64_t* o, int w) { int64_t r = raw_seek((SimStream*)c, *o, w); if(r < 0) return -1; *o = r; return 0; }
static ssize_t ck_write(void* c, const char* b, size_t n) {
	SimStream* s = (SimStream*)c;
	yield_point();
	SimFile* f = s->file;
	uint64_t room = f->cfg.capacity > s->pos ? f->cfg.capacity - s->pos : 0;
	if(!room && n) { io_fault(s, "enospc", s->pos); errno = ENOSPC; return 0; }
	size_t len = n < room ? n : (size_t)room;
	if(f->data->size() < s->pos + len) f->data->resize(s->pos + len);
	memcpy(f->data->data() + s->pos, b, len);
	s->pos += len;
	if(f->size < s->pos) f->size = s->pos;
	loghash(len * 17 + 3);
	return (ssize_t)len;
}
static int ck_close(void*) { return 0; }
SimStream* raw_open(SimFile* f, bool write) {
	SimStream* s = new SimStream;
	s->file = f; s->writing = write; s->is_open = true; s->faults = f->cfg.faults; s->owner = cx;
	return s;
}
void raw_close(SimStream* s) { s->is_open = false; }
static SimStream* stream_open(SimFile* f, const char* mode, bool std_) {
	bool w = mode[0] == 'w' || mode[0] == 'a';
	SimStream* s = raw_open(f, w);
	s->is_std = std_;
	cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
	s->f = fopencookie(s, w ? "w" : "r", io);
	if(!s->f) harness_error("fopencookie");
	if(f->cfg.bufmode == 1) setvbuf(s->f, nullptr, _IONBF, 0);
	else if(f->cfg.bufmode == 2) { s->vbuf = (char*)malloc(f->cfg.bufsize); setvbuf(s->f, s->vbuf, _IOFBF, f->cfg.bufsize); }
	g_streams[s->f] = s;
	return s;
}
static SimStream* g_stdin;
static FILE* g_std0 = stdin,* g_std1 = stdout,* g_std2 = stderr;
SimStream* sim_stdin_set(SimFile* f) {
	g_stdin = stream_open(f, "r", true);
	stdin = g_stdin->f;
	return g_stdin;
}
bool sim_stdin_open() { return !g_stdin || g_stdin->is_open; }
void sim_std_close() {                            // the harness's own standard streams, after a run
	for(auto it = g_streams.begin(); it != g_streams.end();) {
		SimStream* s = it->second;
		if(!s->is_std) { ++it; continue; }
		if(stdin == s->f) stdin = g_std0;
		if(stdout == s->f) stdout = g_std1;
		if(stderr == s->f) stderr = g_std2;
		fclose(s->f); free(s->vbuf); delete s;
		it = g_streams.erase(it);
	}
	g_stdin = nullptr;
}
SimStream* sim_std_capture(int fd) {
	StreamCfg c; c.seekable = false;
	SimFile* f = vfs_add(fd == 1 ? "<stdout>" : "<stderr>", std::make_shared<Bytes>(), c);
	SimStream* s = stream_open(f, "w", true);
	if(fd == 1) stdout = s->f; else stderr = s->f;
	return s;
}
extern "C" {
FILE* sim_fopen(const char* name, const char* mode) {
	yield_point();
	bool w = mode[0] == 'w' || mode[0] == 'a';
	SimFile* f = vfs_find(name);
	if(w) {
		if(f && f->cfg.open_errno) { cx->io_faults++; count("fault.open_error"); errno = f->cfg.open_errno; return nullptr; }
		if(!f) { StreamCfg c; f = vfs_add(name, std::make_shared<Bytes>(), c); }
		else { f->data = std::make_shared<Bytes>(); f->size = 0; }
	}
	else {
		if(!f || !f->exists) { errno = ENOENT; logf("  fopen %s: ENOENT", name); return nullptr; }
		if(f->cfg.open_errno) {
			if(cx) cx->io_faults++;
			R->nontrivial = 1;
			count("fault.open_error");
			logf("  fault: open of %s fails with errno %d", name, f->cfg.open_errno);
			errno = f->cfg.open_errno;
			return nullptr;
		}
		if(alloc_should_fail(false, "fopen", 0)) { errno = ENOMEM; return nullptr; }
	}
	SimStream* s = stream_open(f, mode, false);
	ledger_add(K_STREAM, s->f, 0);
	return s->f;
}
FILE* sim_fopen64(const char* name, const char* mode) { return sim_fopen(name, mode); }
int sim_fclose(FILE* f) {
	yield_point();
	auto it = g_streams.find(f);
	if(it == g_streams.end()) violation("stream-closed-twice", "fclose of a stream that is not open");
	SimStream* s = it->second;
	if(s == g_stdin) violation("stdin-closed", "the library closed standard input");
	g_streams.erase(it);
	ledger_del(K_STREAM, f);
	int r = fclose(f);
	s->is_open = false;
	free(s->vbuf);
	return r;
}
}

// ---------------------------------------------------------------- plans
StreamCfg draw_transport(bool allow_pipe, bool force_pipe, bool faults, uint64_t size, const std::vector<uint64_t>& marks) {
	StreamCfg c;
	c.seekable = !(force_pipe || (allow_pipe && chance(1, 2)));
	c.chunk_mode = (int)draw(5);
	if(c.chunk_mode == 4) { static const size_t t[] = { 4096, 1, 2, 3, 5, 7, 13, 64, 511, 512, 1000, 8191 }; c.chunk = t[draw(12)]; }
	if(size > 20000 && (c.chunk_mode == 1 || c.chunk_mode == 2)) c.chunk_mode = 3;
	if(size > 20000 && c.chunk_mode == 4 && c.chunk < 64) c.chunk = 512;
	c.bufmode = (int)draw(3);
	if(c.bufmode == 2) { static const size_t t[] = { 4096, 1, 2, 7, 16, 64, 100, 512, 1024, 65536 }; c.bufsize = t[draw(10)]; }
	if(c.bufmode == 1 && size > 20000) c.bufmode = 0;
	if(c.bufmode == 2 && size > 20000 && c.bufsize < 64) c.bufsize = 512;
	if(faults) {
		size_t n = 1 + draw(3);
		for(size_t i = 0; i < n; i++) {
			FaultPoint p;
			static const FaultKind k[] = { F_EIO_STICKY, F_EIO, F_EINTR, F_EAGAIN, F_EIO };
			p.kind = k[draw(5)];
			p.used = false;
			if(!marks.empty() && chance(1, 2)) {
				uint64_t m = marks[draw(marks.size())];
				int64_t d = (int64_t)draw(9) - 4;
				p.off = (int64_t)m + d < 0 ? 0 : m + d;
			}
			else p.off = draw(size + 1);
			c.faults.push_back(p);
		}
		if(c.seekable && chance(1, 4)) c.seek_fail_den = 1 + (unsigned)draw(8);
	}
	return c;
}
std::string cfg_str(const StreamCfg& c) {
	char b[400];
	int n = snprintf(b, sizeof b, "%s chunks=%s", c.seekable ? "file" : "pipe", c.chunk_mode == 0 ? "full" : c.chunk_mode == 1 ? "1" : c.chunk_mode == 2 ? "1-16" : c.chunk_mode == 3 ? "random" : std::to_string(c.chunk).c_str());
	n += snprintf(b + n, sizeof b - n, " buffer=%s", c.bufmode == 0 ? "default" : c.bufmode == 1 ? "none" : std::to_string(c.bufsize).c_str());
	static const char* kn[] = { "EIO", "EIO*", "EINTR", "EAGAIN", "TRUNC" };
	for(auto& f : c.faults) n += snprintf(b + n, sizeof b - n, " %s@%llu", kn[f.kind], (unsigned long long)f.off);
	if(c.seek_fail_den) n += snprintf(b + n, sizeof b - n, " seekfail=1/%u", c.seek_fail_den);
	if(c.open_errno) n += snprintf(b + n, sizeof b - n, " open_errno=%d", c.open_errno);
	return b;
}
void draw_alloc_plan(Ctx* c, unsigned span, bool sparse) {
	AllocPlan& a = c->alloc;
	a = AllocPlan();
	a.mode = 1 + (int)draw(sparse ? 3 : 2);
	a.n = draw(span);
	if(a.mode == 3) a.den = 2 + (unsigned)draw(6);
	a.armed = true;
	static const char* n[] = { "", "single", "persistent", "sparse" };
	logf("allocation fault plan: %s from #%llu", n[a.mode], (unsigned long long)a.n);
}
void draw_lib_plan(Ctx* c, unsigned span) {
	c->lib = LibPlan();
	c->lib.mode = 1 + (int)draw(2);
	c->lib.n = draw(span);
	c->lib.armed = true;
	logf("library-call fault plan: %s from #%llu", c->lib.mode == 1 ? "single" : "persistent", (unsigned long long)c->lib.n);
}
bool lib_fault(const char* what) {
	yield_point();
	if(!cx || !cx->lib.armed) return false;
	uint64_t i = cx->lib.count++;
	bool f = cx->lib.mode == 1 ? i == cx->lib.n : i >= cx->lib.n;
	if(f) {
		cx->lib_faults++;
		cx->lib.fired++;
		R->nontrivial = 1;
		logf("  fault: %s fails (decoder library call #%llu)", what, (unsigned long long)i);
		hist(hash_str(what));
		char b[44]; snprintf(b, sizeof b, "fault.lib.%s", what); count(b);
	}
	return f;
}

// ---------------------------------------------------------------- exit()
bool g_exit_armed;
static jmp_buf g_exit_jb;
static int g_exit_code;
extern "C" void sim_exit(int code) {
	if(!g_exit_armed) violation("library-exits", "exit(%d) called outside a command", code);
	g_exit_code = code;
	longjmp(g_exit_jb, 1);
}
int call_with_exit(const std::function<int()>& f) {
	g_exit_armed = true;
	volatile int r;
	if(!setjmp(g_exit_jb)) r = f();
	else r = g_exit_code;
	g_exit_armed = false;
	return r & 255;
}

// ---------------------------------------------------------------- a fresh world for the next run in this process
std::vector<void(*)()>& reset_hooks() { static auto* v = new std::vector<void(*)()>; return *v; }
void world_reset() {
	main_ctx = Ctx();
	g_heap_judge = true;
	cx = &main_ctx;
	for(auto& l : lazies()) munmap(l.first, l.second);
	lazies().clear();
	ledger().clear();
	g_ledger_seq = 0;
	g_fill = 0xA5; g_alloc_cap = (size_t)1 << 30; g_alloc_max_seen = 0; g_alloc_total = 0;
	g_in_sched = false; g_tasks.clear(); g_running = -1;
	g_slice = INT64_MAX; g_slice_set = INT64_MAX; g_steps_base = 0; g_budget = 1ull << 62;
	for(auto& s : g_streams) delete s.second;       // the FILEs themselves stay behind
	g_streams.clear();
	g_stdin = nullptr;
	stdin = g_std0; stdout = g_std1; stderr = g_std2;
	g_vfs.clear();
	g_exit_armed = false; g_yields = 0;
	errno = 0;
	for(auto h : reset_hooks()) h();
}
