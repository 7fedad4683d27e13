// Runs, minimises and replays simulated executions. One fork per run.
#include "core.h"
#include "heap.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <atomic>
#include <unordered_set>
#include <algorithm>
#include <sanitizer/asan_interface.h>

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:halt_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=1:handle_abort=1:print_legend=0:print_cmdline=0:detect_odr_violation=0:symbolize=1:external_symbolizer_path=/usr/bin/llvm-symbolizer-18"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=77"; }

static void parse_report(const char* text) {
	// class = kind + first frame inside the repository, independent of addresses
	std::string s = text, kind = "memory-error", where;
	size_t p = s.find("SUMMARY: ");
	std::string sum = p != std::string::npos ? s.substr(p + 9, s.find('\n', p) - p - 9) : "";
	size_t k = s.find("ERROR: AddressSanitizer: ");
	if(k != std::string::npos) { k += 25; size_t e = s.find_first_of(" \n", k); kind = s.substr(k, e - k); }
	else if((k = s.find("runtime error: ")) != std::string::npos) { kind = "undefined-behaviour"; }
	size_t q = 0;
	while((q = s.find(" in ", q)) != std::string::npos) {
		size_t e = s.find('\n', q);
		std::string line = s.substr(q + 4, e - q - 4);
		if(line.find("/repo/") != std::string::npos) { where = line.substr(0, line.find(' ')); break; }
		q = e;
	}
	snprintf(R->cls, sizeof R->cls, "memory-safety:%s:%s", kind.c_str(), where.c_str());
	snprintf(R->msg, sizeof R->msg, "%s\n%.5000s", sum.c_str(), text);
	R->status = 2;
	// symbolised text contains addresses, so it stays out of the hashed log
}

struct Result { int status; std::string cls, msg, log; uint64_t loghash, hist, steps, simtime, preempts; int nontrivial; std::vector<uint64_t> ch; };
static const Scenario* find_scen(const char* n) { for(const Scenario* s = scenarios; s->name; s++) if(!strcmp(s->name, n)) return s; fprintf(stderr, "no scenario %s\n", n); exit(2); }

static int g_errfd = -1, g_timeout = 60, g_batch = 64;
static void fresh_record();
static bool g_heap_account;                      // whether blocks left in the heap are judged
static void execute(const Scenario* sc) {
	world_reset();
	set_step_budget(40000000);
	if(g_heap_account) heap_track(true);
	sc->run();
	set_step_budget(UINT64_MAX);
	if(!g_heap_account) return;
	if(g_heap_judge) count("heap.judged");
	sim_std_close(); heap_settle();
	size_t n = heap_left();
	heap_track(false);
	if(!n || !g_heap_judge) return;
	count("heap.judged_again");
	// libraries keep caches. The same run again, a few times: what is lost is lost again every time
	RunRec* keep = R;
	static RunRec scratch;
	std::vector<uint64_t> ch(keep->ch, keep->ch + keep->nch);
	size_t left[3]; std::string what;
	heap_track(true);
	for(int k = 0; k < 3; k++) {
		heap_mark();
		R = &scratch; R->status = 0;
		fresh_record();
		choices_replay(ch);
		world_reset();
		set_step_budget(40000000);
		sc->run();
		set_step_budget(UINT64_MAX);
		sim_std_close(); heap_settle();
		left[k] = heap_left(&what);
		R = keep;
		if(!left[k] || k && left[k] <= left[k - 1]) { left[2] = 0; break; }
	}
	heap_track(false);
	if(left[2]) violation("heap-left", "after everything was closed and freed, %zu more blocks allocated by the library or its decoders are left in the heap, every time: %s", left[2] - left[1], what.c_str());
}
static void child(const Scenario* sc) {
	// scenario start: fixed initial state
	if(!getenv("SIM_HEAP_DEBUG")) dup2(g_errfd, 2);
	execute(sc);
	run_done();
}
static void fresh_record() { R->status = 0; R->nontrivial = 0; R->cls[0] = R->msg[0] = 0; R->loghash = R->hist = 0; R->steps = R->simtime = R->preempts = 0; R->nch = 0; R->loglen = 0; R->log[0] = 0; }
static void judge_death(int st) {
	if(R->status != 0) return;
	static char text[32768];
	lseek(g_errfd, 0, SEEK_SET);
	ssize_t n = read(g_errfd, text, sizeof text - 1);
	text[n > 0 ? n : 0] = 0;
	if((WIFEXITED(st) && WEXITSTATUS(st) == 77) || (n > 0 && (strstr(text, "AddressSanitizer") || strstr(text, "runtime error")))) parse_report(text);
	else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { R->status = 2; snprintf(R->cls, sizeof R->cls, "no-progress:real-time"); snprintf(R->msg, sizeof R->msg, "the run was still going after %d s of real time", g_timeout); }
	else if(WIFSIGNALED(st)) { R->status = 2; snprintf(R->cls, sizeof R->cls, "process-killed:%d", WTERMSIG(st)); snprintf(R->msg, sizeof R->msg, "the process was killed by signal %d\n%.2000s", WTERMSIG(st), text); }
	else { R->status = 2; snprintf(R->cls, sizeof R->cls, "process-exited"); snprintf(R->msg, sizeof R->msg, "the process ended by itself (wait status %d)\n%.2000s", st, text); }
}
static void one(const Scenario* sc, const std::function<void()>& prep, Result* res, bool want_ch) {
	fresh_record();
	(void)!ftruncate(g_errfd, 0); lseek(g_errfd, 0, SEEK_SET);
	prep();
	pid_t p = fork();
	if(p < 0) { perror("fork"); exit(2); }
	if(!p) { alarm(g_timeout); child(sc); }
	int st;
	while(waitpid(p, &st, 0) < 0 && errno == EINTR) ;
	judge_death(st);
	res->status = R->status;
	res->cls = R->cls; res->msg = R->msg; res->loghash = R->loghash; res->hist = R->hist; res->steps = R->steps; res->simtime = R->simtime; res->preempts = R->preempts; res->nontrivial = R->nontrivial;
	if(want_ch) { res->ch.assign(R->ch, R->ch + R->nch); res->log = R->log; }
}
static uint64_t seed_of(const Scenario* sc, uint64_t seed, uint64_t i) { return mix64(mix64(seed * 0x9E3779B97F4A7C15ull + 1) ^ hash_str(sc->name) ^ hash_str(variant_name)) ^ mix64(i + 0x1234567); }
static void run_seed(const Scenario* sc, uint64_t seed, uint64_t i, Result* r, bool want) {
	uint64_t s = seed_of(sc, seed, i);
	one(sc, [&] { choices_seed(s); }, r, want);
}
static void run_choices(const Scenario* sc, const std::vector<uint64_t>& c, Result* r, bool want) { one(sc, [&] { choices_replay(c); }, r, want); }

static std::string esc(const std::string& s) {
	std::string o; char b[8];
	for(unsigned char c : s) { if(c == '"' || c == '\\') { o += '\\'; o += c; } else if(c == '\n') o += "\\n"; else if(c == '\t') o += "\\t"; else if(c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
	return o;
}

static std::vector<uint64_t> minimise(const Scenario* sc, std::vector<uint64_t> best, const std::string& cls, int& tries, double secs) {
	double end = now() + secs;
	auto ok = [&](const std::vector<uint64_t>& c, std::vector<uint64_t>* used) {
		tries++;
		Result r; run_choices(sc, c, &r, true);
		if(r.status == 2 && r.cls == cls) { *used = r.ch; return true; }
		return false;
	};
	auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) { return a.size() < b.size() || (a.size() == b.size() && a < b); };
	bool progress = true;
	std::vector<uint64_t> u;
	auto strip = [](std::vector<uint64_t> v) { while(!v.empty() && !v.back()) v.pop_back(); return v; };
	best = strip(best);
	while(progress && now() < end) {
		progress = false;
		for(size_t n = best.size(); n >= 1 && now() < end; n = n / 2) {
			for(size_t i = 0; i < best.size() && now() < end;) {
				std::vector<uint64_t> c(best.begin(), best.begin() + i);
				if(i + n < best.size()) c.insert(c.end(), best.begin() + i + n, best.end());
				if(ok(c, &u) && better(strip(u), best)) { best = strip(u); progress = true; } else i += n;
			}
			if(n == 1) break;
		}
		for(size_t n = 16; n >= 1 && now() < end; n /= 4)
			for(size_t i = 0; i + 1 <= best.size() && now() < end; i += n) {
				std::vector<uint64_t> c = best; bool any = false;
				for(size_t j = i; j < i + n && j < c.size(); j++) { any |= c[j] != 0; c[j] = 0; }
				if(any && ok(c, &u) && better(strip(u), best)) { best = strip(u); progress = true; }
			}
		for(size_t i = 0; i < best.size() && now() < end; i++) {
			uint64_t lo = 0, hi = best[i];
			if(hi < 2) continue;
			while(lo < hi && now() < end) {
				uint64_t mid = lo + (hi - lo) / 2;
				if(i >= best.size()) break;
				std::vector<uint64_t> c = best; c[i] = mid;
				if(ok(c, &u) && better(strip(u), best)) { best = strip(u); progress = true; hi = i < best.size() ? best[i] : 0; if(hi > mid) hi = mid; }
				else lo = mid + 1;
			}
		}
	}
	return best;
}

struct Shared {
	std::atomic<uint64_t> next, done, stop, nviol, nontrivial, steps, simtime, preempts, known;
	struct V { char scen[48]; uint64_t idx; char cls[200]; uint32_t claimed; int status; char msg[1000]; } v[64];
	char known_hit[16][200]; std::atomic<uint32_t> nknown;
	std::atomic<uint64_t> first_hash[64], batch_only; uint64_t cur[64];
};

#ifdef SIM_PY                                    // called from Python instead
extern "C" int sim_driver_main(int, char**);
#define main sim_driver_main
#endif
int main(int argc, char** argv) {
	setenv("OMP_NUM_THREADS", "1", 1); setenv("MAGICK_THREAD_LIMIT", "1", 1); setenv("LC_ALL", "C", 1); setenv("TZ", "UTC", 1);
	if(!getenv("SIM_REEXEC")) {   // fixed addresses, and an environment the OpenMP runtime sees at start
		int pers = personality(0xffffffff);
		setenv("SIM_REEXEC", "1", 1);
		personality(pers | ADDR_NO_RANDOMIZE);
		execv("/proc/self/exe", argv);
	}
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	std::string mode = argc > 1 ? argv[1] : "", scens, out, replay_dir = ".", file, prop = "X", known;
	uint64_t seed = 1, maxruns = ~0ull, first = 0; double secs = 10; int workers = 8; bool verbose = false; int shrink_secs = 60;
	for(int i = 2; i < argc; i++) {
		std::string a = argv[i];
		auto v = [&] { return std::string(argv[++i]); };
		if(a == "--scen") scens = v(); else if(a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if(a == "--runs") maxruns = strtoull(v().c_str(), 0, 10);
		else if(a == "--secs") secs = atof(v().c_str()); else if(a == "--workers") workers = atoi(v().c_str()); else if(a == "--out") out = v();
		else if(a == "--replay-dir") replay_dir = v(); else if(a == "--prop") prop = v(); else if(a == "--first") first = strtoull(v().c_str(), 0, 10);
		else if(a == "--known") known = v(); else if(a == "-v") verbose = true; else if(a == "--shrink") shrink_secs = atoi(v().c_str()); else if(a == "--timeout") g_timeout = atoi(v().c_str()); else if(a == "--batch") g_batch = atoi(v().c_str()); else file = a;
	}
	auto shm = [](size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) { perror("mmap"); exit(2); } return p; };
	auto tmpfd = [] { int fd = memfd_create("simerr", MFD_CLOEXEC); if(fd < 0) { char t[] = "/tmp/simerrXXXXXX"; fd = mkstemp(t); unlink(t); } return fd; };
	RunRec* recs = (RunRec*)shm(sizeof(RunRec) * (workers + 1));
	g_cov = (uint8_t*)shm(g_nguards + 1);
	R = &recs[workers];
	g_errfd = tmpfd();
	cx = &main_ctx;
	world_warmup();
	if(const char* p = getenv("SIM_PROP")) g_heap_account = !strcmp(p, "C06");
	std::vector<std::string> sl;
	for(size_t p = 0; p < scens.size();) { size_t e = scens.find(',', p); if(e == std::string::npos) e = scens.size(); sl.push_back(scens.substr(p, e - p)); p = e + 1; }

	if(mode == "list") { for(const Scenario* s = scenarios; s->name; s++) puts(s->name); return 0; }
	if(mode == "one") {   // print one run
		Result r; run_seed(find_scen(sl[0].c_str()), seed, first, &r, true);
		printf("%sstatus %d cls %s loghash %016llx steps %llu choices %zu\n%s\n", r.log.c_str(), r.status, r.cls.c_str(), (unsigned long long)r.loghash, (unsigned long long)r.steps, r.ch.size(), r.msg.c_str());
		return 0;
	}
	if(mode == "hashes") {   // determinism audit
		for(uint64_t i = first; i < first + maxruns; i++)
			for(auto& n : sl) { Result r; run_seed(find_scen(n.c_str()), seed, i, &r, false); printf("%s %llu %d %016llx %016llx %llu %s\n", n.c_str(), (unsigned long long)i, r.status, (unsigned long long)r.loghash, (unsigned long long)r.hist, (unsigned long long)r.steps, r.cls.c_str()); }
		return 0;
	}
	if(mode == "replay") {
		FILE* f = fopen(file.c_str(), "r");
		if(!f) { perror(file.c_str()); return 2; }
		static char line[1 << 21]; std::vector<uint64_t> c; std::string scen, cls; unsigned long long h = 0;
		while(fgets(line, sizeof line, f)) {
			line[strcspn(line, "\n")] = 0;
			if(!strncmp(line, "scenario ", 9)) scen = line + 9;
			else if(!strncmp(line, "class ", 6)) cls = line + 6;
			else if(!strncmp(line, "loghash ", 8)) h = strtoull(line + 8, 0, 16);
			else if(!strncmp(line, "choices ", 8)) { char* p = line + 8; char* e; for(;;) { unsigned long long x = strtoull(p, &e, 10); if(e == p) break; c.push_back(x); p = e; } }
			else if(!strcmp(line, "--- trace")) break;
		}
		fclose(f);
		Result r; run_choices(find_scen(scen.c_str()), c, &r, true);
		printf("%s\n%s\n", r.log.c_str(), r.msg.c_str());
		if(r.status == 2 && r.cls == cls && r.loghash == h) { printf("reproduced exactly: %s\n", r.cls.c_str()); return 1; }
		printf("not reproduced: status %d class %s loghash %016llx (expected %s %016llx)\n", r.status, r.cls.c_str(), (unsigned long long)r.loghash, cls.c_str(), h);
		return r.status == 1 ? 0 : 2;
	}
	if(mode != "run" || sl.empty()) { fprintf(stderr, "usage: run --scen a,b --seed N --secs S ...\n"); return 2; }

	std::vector<std::string> knowns;
	if(!known.empty()) if(FILE* f = fopen(known.c_str(), "r")) { char l[400]; while(fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if(*l) knowns.push_back(l); } fclose(f); }
	Shared* S = (Shared*)shm(sizeof(Shared));
	const size_t HCAP = 1 << 25;
	uint64_t* hists = (uint64_t*)shm(sizeof(uint64_t) * HCAP * 2);
	std::atomic<uint64_t>* nh = (std::atomic<uint64_t>*)shm(4096);
	double t0 = now();
	std::vector<pid_t> pids;
	auto tally = [&](uint64_t i) {
		S->done++;
		S->steps += R->steps; S->simtime += R->simtime; S->preempts += R->preempts;
		if(R->nontrivial) S->nontrivial++;
		if(i < 64) S->first_hash[i] = R->loghash;
		uint64_t k = (*nh)++; if(k < HCAP) { hists[2 * k] = R->hist; hists[2 * k + 1] = R->nontrivial; }
	};
	for(int w = 0; w < workers; w++) {
		pid_t p = fork();
		if(!p) {
			R = &recs[w];
			g_errfd = tmpfd();
			// several runs share a process; a violation is only reported if it also happens in a process of its own
			while(!S->stop && now() - t0 < secs && S->next < maxruns) {
				(void)!ftruncate(g_errfd, 0); lseek(g_errfd, 0, SEEK_SET);
				R->status = 1;
				pid_t c = fork();
				if(c < 0) { perror("fork"); _exit(2); }
				if(!c) {
					dup2(g_errfd, 2);
					for(int k = 0; k < g_batch && !S->stop && now() - t0 < secs; k++) {
						uint64_t i = S->next++;
						if(i >= maxruns) break;
						const Scenario* sc = find_scen(sl[i % sl.size()].c_str());
						S->cur[w] = i;
						fresh_record();
						choices_seed(seed_of(sc, seed, first + i / sl.size()));
						alarm(g_timeout);
						execute(sc);
						R->status = 1;
						tally(i);
					}
					_exit(0);
				}
				int st;
				while(waitpid(c, &st, 0) < 0 && errno == EINTR) ;
				if(R->status == 1) continue;
				judge_death(st);
				uint64_t i = S->cur[w];
				tally(i);
				const std::string& n = sl[i % sl.size()];
				Result r; run_seed(find_scen(n.c_str()), seed, first + i / sl.size(), &r, false);
				if(r.status == 1) { S->batch_only++; continue; }
				bool isknown = false;
				if(r.status == 2) for(auto& kc : knowns) if(kc == r.cls) isknown = true;
				if(isknown) {
					S->known++;
					bool have = false;
					for(uint32_t k = 0; k < S->nknown && k < 16; k++) have |= !strcmp(S->known_hit[k], r.cls.c_str());
					if(!have) { uint32_t k = S->nknown++; if(k < 16) strncpy(S->known_hit[k], r.cls.c_str(), 199); }
					continue;
				}
				uint64_t k = S->nviol++;
				if(k < 64) { auto& v = S->v[k]; snprintf(v.scen, sizeof v.scen, "%s", n.c_str()); v.idx = first + i / sl.size(); snprintf(v.cls, sizeof v.cls, "%s", r.cls.c_str()); v.status = r.status; snprintf(v.msg, sizeof v.msg, "%s", r.msg.c_str()); }
				S->stop = 1;
			}
			_exit(0);
		}
		pids.push_back(p);
	}
	for(pid_t p : pids) { int st; waitpid(p, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "a worker failed (status %d)\n", st); return 2; } }
	double wall = now() - t0;
	if(S->batch_only) printf("note: %llu runs failed only after other runs in the same process\n", (unsigned long long)S->batch_only);
	// merge
	std::map<std::string, uint64_t> cnt;
	for(int w = 0; w < workers; w++) for(int i = 0; i < NCNT && recs[w].cnt[i].name[0]; i++) cnt[recs[w].cnt[i].name] += recs[w].cnt[i].v;
	std::unordered_set<uint64_t> hs, hn;
	for(uint64_t k = 0; k < *nh && k < HCAP; k++) { hs.insert(hists[2 * k]); if(hists[2 * k + 1]) hn.insert(hists[2 * k]); }
	size_t edges = 0; for(uint32_t i = 1; i <= g_nguards; i++) edges += g_cov[i];
	R = &recs[workers];
	std::string samples;
	for(uint64_t i = 0; i < sl.size() && i < 3; i++) {
		Result r; run_seed(find_scen(sl[i].c_str()), seed, first, &r, true);
		if(r.log.size() > 1500) r.log = r.log.substr(0, 1500) + "...";
		samples += (i ? "," : "") + std::string("\"") + esc(sl[i] + " run 0: " + r.log) + "\"";
	}
	// a small determinism gate on every invocation
	for(uint64_t i = 0; i < 24 && !S->nviol; i++) {
		Result a, b; const Scenario* sc = find_scen(sl[i % sl.size()].c_str());
		run_seed(sc, seed, first + i / sl.size(), &a, true); run_choices(sc, a.ch, &b, false);
		if(i < S->done && a.status == 1 && i < maxruns && S->first_hash[i] && S->first_hash[i] != a.loghash) { printf("run %llu of %s depends on what ran before it in its process\n", (unsigned long long)(i / sl.size()), sc->name); return 2; }
		if(a.status != 2 && (a.loghash != b.loghash || a.status != b.status || a.cls != b.cls)) { printf("nondeterminism in %s run %llu: %016llx %016llx\n", sc->name, (unsigned long long)(i / sl.size()), (unsigned long long)a.loghash, (unsigned long long)b.loghash); return 2; }
	}
	std::string vio;
	int rc = 0;
	if(S->nviol) {
		uint64_t n = std::min<uint64_t>(S->nviol, 64), bi = 0; bool havev = false;
		for(uint64_t k = 0; k < n; k++) if(S->v[k].status == 2 && (!havev || S->v[k].idx < S->v[bi].idx)) { bi = k; havev = true; }
		auto& v = S->v[bi];
		if(!havev) { printf("harness error in %s run %llu: %s\n", v.scen, (unsigned long long)v.idx, v.msg); return 2; }
		const Scenario* sc = find_scen(v.scen);
		Result a, b;
		run_seed(sc, seed, v.idx, &a, true);
		run_choices(sc, a.ch, &b, true);
		if(a.status == 2 && b.status == 2 && (a.loghash != b.loghash || a.cls != b.cls)) printf("warning: the execution is not exactly repeatable (%s %016llx / %s %016llx)\n", a.cls.c_str(), (unsigned long long)a.loghash, b.cls.c_str(), (unsigned long long)b.loghash);
		if(a.status != 2 || b.status != 2) { printf("violation in %s run %llu does not replay (%s %016llx / %s %016llx): %s\n", v.scen, (unsigned long long)v.idx, a.cls.c_str(), (unsigned long long)a.loghash, b.cls.c_str(), (unsigned long long)b.loghash, v.msg); return 2; }
		int tries = 0;
		std::vector<uint64_t> m = minimise(sc, a.ch, a.cls, tries, shrink_secs);
		Result f; run_choices(sc, m, &f, true);
		if(f.status != 2 || f.cls != a.cls) { m = a.ch; run_choices(sc, m, &f, true); }
		std::string path = replay_dir + "/" + prop + "-" + v.scen + "-" + variant_name + "-" + std::to_string(seed) + "-" + std::to_string(v.idx) + ".replay";
		FILE* o = fopen(path.c_str(), "w");
		if(!o) { perror(path.c_str()); return 2; }
		fprintf(o, "resdet simulation replay\nproperty %s\nvariant %s\nscenario %s\nseed %llu\nrun %llu\nclass %s\nloghash %016llx\nminimised from %zu to %zu choices in %d attempts\nchoices", prop.c_str(), variant_name, v.scen, (unsigned long long)seed, (unsigned long long)v.idx, f.cls.c_str(), (unsigned long long)f.loghash, a.ch.size(), m.size(), tries);
		for(auto x : m) fprintf(o, " %llu", (unsigned long long)x);
		fprintf(o, "\n--- trace\n%s\n--- message\n%s\n", f.log.c_str(), f.msg.c_str());
		fclose(o);
		printf("found: %s\n%s\nreplay: %s\n", f.cls.c_str(), f.msg.c_str(), path.c_str());
		if(verbose) printf("%s\n", f.log.c_str());
		vio = "{\"class\":\"" + esc(f.cls) + "\",\"message\":\"" + esc(f.msg.substr(0, 1500)) + "\",\"replay\":\"" + esc(path) + "\"}";
		rc = 1;
	}
	if(!out.empty()) {
		FILE* o = fopen(out.c_str(), "w");
		if(!o) { perror(out.c_str()); return 2; }
		fprintf(o, "{\"variant\":\"%s\",\"scenarios\":\"%s\",\"runs\":%llu,\"wall\":%.3f,\"nontrivial_runs\":%llu,\"distinct\":%zu,\"distinct_nontrivial\":%zu,\"steps\":%llu,\"io_calls\":%llu,\"preemptions\":%llu,\"edges\":%zu,\"edges_total\":%u,\"known_runs\":%llu,\"known\":[", variant_name, scens.c_str(), (unsigned long long)S->done, wall, (unsigned long long)S->nontrivial, hs.size(), hn.size(), (unsigned long long)S->steps, (unsigned long long)S->simtime, (unsigned long long)S->preempts, edges, g_nguards, (unsigned long long)S->known);
		for(uint32_t k = 0; k < S->nknown && k < 16; k++) fprintf(o, "%s\"%s\"", k ? "," : "", esc(S->known_hit[k]).c_str());
		fprintf(o, "],\"counters\":{");
		bool firstc = true;
		for(auto& c : cnt) { fprintf(o, "%s\"%s\":%llu", firstc ? "" : ",", c.first.c_str(), (unsigned long long)c.second); firstc = false; }
		fprintf(o, "},\"samples\":[%s],\"violation\":%s}\n", samples.c_str(), vio.empty() ? "null" : vio.c_str());
		fclose(o);
	}
	printf("%s: %llu runs in %.1f s (%.0f/s), %zu distinct histories (%zu with faults or preemptions), %zu/%u edges\n", variant_name, (unsigned long long)S->done, wall, S->done / wall, hs.size(), hn.size(), edges, g_nguards);
	return rc;
}
