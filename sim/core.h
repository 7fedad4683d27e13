// Deterministic simulator core: choices, trace, violations, scheduling, simulated OS seams.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <cmath>
#include <cerrno>

typedef std::vector<uint8_t> Bytes;

// ---------------------------------------------------------------- shared run record
enum { MAXCH = 1 << 17, LOGCAP = 1 << 17, NCNT = 256 };
struct Counter { char name[44]; uint32_t pad; uint64_t v; };
struct RunRec {
	volatile int status;        // 0 running, 1 ok, 2 violation, 3 harness error
	volatile int nontrivial;
	char cls[200];
	char msg[6000];
	uint64_t loghash, hist, steps, simtime, preempts;
	uint32_t nch;
	uint64_t ch[MAXCH];
	uint32_t loglen;
	char log[LOGCAP];
	Counter cnt[NCNT];          // cumulative over runs
};
extern RunRec* R;
extern uint8_t* g_cov;          // shared edge bitmap
extern uint32_t g_nguards;

// ---------------------------------------------------------------- choices
uint64_t draw(uint64_t n);                 // [0,n), 0 is the simplest choice
bool chance(unsigned num, unsigned den);   // true with probability num/den; 0 choice = false
inline uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
void choices_seed(uint64_t seed);
void choices_replay(const std::vector<uint64_t>& v);

uint64_t mix64(uint64_t x);
struct Prng { uint64_t s; explicit Prng(uint64_t x) : s(x) {} uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); } uint64_t below(uint64_t n) { return next() % n; } };
uint64_t hash_str(const char*);

// ---------------------------------------------------------------- trace and verdicts
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // visible and hashed
void loghash(uint64_t v);                                                // hashed only
void hist(uint64_t v);                                                   // run-history signature
void count(const char* name, uint64_t n = 1);
bool on(const char* props);                      // active property is one of these (or none was named)
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void run_done();

// ---------------------------------------------------------------- per-thread fault context
struct AllocPlan { int mode = 0; uint64_t n = 0, count = 0, fired = 0; unsigned den = 0; bool armed = false; };
struct LibPlan { int mode = 0; uint64_t n = 0, count = 0, fired = 0; bool armed = false; };
struct Ctx {
	int id = 0;
	AllocPlan alloc;
	LibPlan lib;
	uint64_t io_faults = 0;      // read/seek/write/open faults that fired
	uint64_t alloc_faults = 0, lib_faults = 0, own_alloc_faults = 0;
	uint64_t faults() const { return io_faults + alloc_faults + lib_faults; }
};
extern thread_local Ctx* cx;
extern Ctx main_ctx;

// ---------------------------------------------------------------- scheduling
void set_step_budget(uint64_t n);
void sched_run(std::vector<std::function<void()>> tasks, std::vector<Ctx*> ctxs, unsigned slice_log2);
void yield_point();
extern bool g_in_sched;

// ---------------------------------------------------------------- ledger of memory and handles
enum Kind { K_MEM, K_PNGMEM, K_FFTW, K_PLAN, K_PNG, K_JPEG, K_FMT, K_CODEC, K_SWS, K_FRAME, K_PACKET, K_WAND, K_STREAM, K_MAGICKMEM, K_NKINDS };
extern const char* kind_name[];
struct LedgerEntry { Kind kind; size_t size; uint64_t seq; int ctx; };
size_t ledger_count(int ctx = -1);
size_t ledger_count_kind(Kind k);
std::string ledger_dump();
void ledger_add(Kind k, void* p, size_t size);
bool ledger_del(Kind k, void* p);        // false if it was not there
bool ledger_has(void* p);
size_t ledger_size(void* p);
extern "C" void sim_free(void* p);
extern "C" void* sim_malloc(size_t n);
enum : size_t { LAZY = 64u << 20 };         // larger blocks take up no memory until they are used
void* lazy_map(size_t n);
bool lazy_free(void* p);
extern int g_fill;                        // fill byte for fresh memory, -1 = random per block
extern size_t g_alloc_cap;                // largest single request that succeeds
extern size_t g_alloc_max_seen;           // largest single request made by the library
extern uint64_t g_alloc_total;

// ---------------------------------------------------------------- simulated files and streams
enum FaultKind { F_EIO, F_EIO_STICKY, F_EINTR, F_EAGAIN, F_TRUNC };
struct FaultPoint { uint64_t off; FaultKind kind; bool used; };
struct StreamCfg {
	bool seekable = true;
	int chunk_mode = 0;           // 0 full, 1 one byte, 2 small random, 3 random, 4 fixed
	size_t chunk = 4096;
	int bufmode = 0;              // 0 default, 1 unbuffered, 2 setvbuf(bufsize)
	size_t bufsize = 0;
	std::vector<FaultPoint> faults;
	unsigned seek_fail_den = 0;   // 1/den of the seeks fail
	int open_errno = 0;
	uint64_t capacity = ~0ull;    // writes: bytes until ENOSPC
};
struct SimFile {
	std::string name;
	std::shared_ptr<Bytes> data;
	std::function<void(uint64_t, uint8_t*, size_t)> gen;   // procedurally generated content
	uint64_t size = 0;
	bool exists = true;
	StreamCfg cfg;
};
struct SimStream {
	SimFile* file = nullptr;
	FILE* f = nullptr;
	uint64_t pos = 0;
	bool writing = false, is_open = false, is_std = false;
	uint64_t reads = 0, seeks = 0;
	char* vbuf = nullptr;
	std::vector<FaultPoint> faults;
	Ctx* owner = nullptr;
};
SimFile* vfs_add(const std::string& name, std::shared_ptr<Bytes> data, const StreamCfg& cfg);
SimFile* vfs_find(const std::string& name);
void vfs_clear();
SimStream* sim_stdin_set(SimFile* f);           // the process's standard input becomes this file (pipe)
SimStream* sim_std_capture(int fd);             // 1 or 2: captured output stream, file "<stdout>"/"<stderr>"
bool sim_stdin_open();
void sim_std_close();                           // closes the simulated standard streams after a run
ssize_t raw_read(SimStream* s, char* buf, size_t n);     // used below stdio and by the AVIO adaptor
int64_t raw_seek(SimStream* s, int64_t off, int whence);
SimStream* raw_open(SimFile* f, bool write);
void raw_close(SimStream* s);
extern std::map<FILE*, SimStream*> g_streams;

// random transport for a file of the given size; boundaries are interesting offsets
StreamCfg draw_transport(bool allow_pipe, bool force_pipe, bool faults, uint64_t size, const std::vector<uint64_t>& marks);
std::string cfg_str(const StreamCfg& c);
void draw_alloc_plan(Ctx* c, unsigned span, bool sparse = true);
void draw_lib_plan(Ctx* c, unsigned span);
bool lib_fault(const char* what);               // draws from the lib plan of the current context
bool alloc_should_fail(bool own, const char* what, size_t n);

// exit() interception
struct ExitGuard { void* jb; int code; };
extern bool g_exit_armed;
extern "C" [[noreturn]] void sim_exit(int code);
int call_with_exit(const std::function<int()>& f);       // returns the exit status

// ---------------------------------------------------------------- scenarios
struct Scenario { const char* name; void (*run)(); };
extern const Scenario scenarios[];
extern const char* variant_name;
extern bool variant_fftw, variant_libs, variant_double;
extern size_t variant_pixel_max;
void world_warmup();   // once per process, before any fork
void world_reset();    // before every run
std::vector<void(*)()>& reset_hooks();
