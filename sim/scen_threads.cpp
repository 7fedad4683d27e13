// C11: several threads (or several histories interleaved in one thread) against the same histories run alone.
#include "model.h"
#include <algorithm>
#include <cstdarg>

namespace {
struct Step { std::string what; std::function<void()> run; };
// one participant: a fixed program over handles and sessions of its own
struct Part {
	int id = 0;
	Sample s; StreamCfg cfg; OpenSpec o; bool uses_stdin = false, has_image = false;
	MethodId m = M_SIGN; ParamSpec ps; std::vector<FrameData> frames; size_t aw = 1, ah = 1;
	AllocPlan alloc; LibPlan lib;
	unsigned late = 0;                    // the fault plan is armed before this step
	std::vector<int> prog; std::vector<uint64_t> arg;
	// per execution
	Ctx ctx;
	std::unique_ptr<Handle> h; RDAnalysis* a = nullptr; RDParameters* q = nullptr;
	std::vector<uint64_t> out; std::vector<std::string> desc;
	size_t live = 0;
};
enum { OP_OPEN, OP_READ, OP_SEEK, OP_CLOSE, OP_CREATE, OP_ANALYZE, OP_ANALYZE_READ, OP_RESULTS, OP_DESTROY, OP_FILE, OP_BULK, OP_BUFFER, OP_MISC };
}
static void rec(Part& p, uint64_t v) { p.out.push_back(v); }
static void describe(Part& p, const char* fmt, ...) {
	char b[200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	logf("[%d] %s", p.id, b);
	p.desc.push_back(b);
}
static uint64_t res_hash(RDResolution* r, size_t n) {
	std::vector<std::pair<size_t, uint32_t>> v;
	for(size_t i = 0; i < n; i++) v.push_back({ r[i].index, (uint32_t)(int)lround(r[i].confidence * 1e5) });
	std::sort(v.begin(), v.end());
	uint64_t h = n;
	for(auto& x : v) h = mix64(h ^ (x.first * 1000003 + x.second));
	return h;
}
static std::string in_name(const Part& p) { return p.o.name; }
static const char* in_type(const Part& p) { return p.o.type.empty() ? nullptr : p.o.type.c_str(); }
static void prepare(Part& p) {
	p.ctx = Ctx(); p.ctx.id = p.id + 1;
	p.out.clear(); p.desc.clear();
	p.h.reset(); p.a = nullptr; p.q = nullptr;
	if(p.has_image) {
		SimFile* f = vfs_add(p.uses_stdin ? "<stdin>" : p.o.name, p.s.data, p.cfg);
		if(p.uses_stdin) sim_stdin_set(f);
		p.h = std::make_unique<Handle>(); p.h->t = &p.s.t; p.h->file = f; p.h->label = "[" + std::to_string(p.id) + "] ";
	}
}
static void step(Part& p, size_t i) {
	if(i == p.late) { p.ctx.alloc = p.alloc; p.ctx.lib = p.lib; }
	uint64_t arg = p.arg[i];
	switch(p.prog[i]) {
		case OP_OPEN: if(!p.h->im) p.h->open(p.o); rec(p, p.h->last_err); break;
		case OP_READ: if(p.h->im && p.h->buf) { size_t k = p.h->outcomes.size(); p.h->read(); for(; k < p.h->outcomes.size(); k++) rec(p, p.h->outcomes[k]); } break;
		case OP_SEEK: if(p.h->im) { size_t k = p.h->outcomes.size(); p.h->seek(arg % 4, arg & 16); for(; k < p.h->outcomes.size(); k++) rec(p, p.h->outcomes[k]); } break;
		case OP_CLOSE: p.h->close(); break;
		case OP_CREATE: {
			if(p.a) break;
			p.q = p.ps.make();
			RDError e = 9; size_t w = p.aw, hh = p.ah;
			if(p.has_image && p.h->im) { w = p.h->w; hh = p.h->h; }
			p.a = resdet_create_analysis(resdet_get_method(method_name[p.m]), w, hh, p.q, &e);
			sim_free(p.q); p.q = nullptr;
			describe(p, "create %s %zux%zu -> %s", method_name[p.m], w, hh, err_name(e)); rec(p, e); break; }
		case OP_ANALYZE: {
			if(!p.a || (p.has_image && p.h->im)) break;
			FrameData& f = p.frames[arg % p.frames.size()];
			std::vector<float> px = f.px; if(arg & 1024) px[arg % px.size()] = NAN;
			RDError e = resdet_analyze_image(p.a, px.data());
			describe(p, "analyze %llu -> %s", (unsigned long long)(arg % p.frames.size()), err_name(e)); rec(p, e); break; }
		case OP_ANALYZE_READ: {
			if(!p.a || !p.h->im || !p.h->buf) break;
			size_t k = p.h->outcomes.size(); bool r = p.h->read(); for(; k < p.h->outcomes.size(); k++) rec(p, p.h->outcomes[k]);
			if(r) { RDError e = resdet_analyze_image(p.a, p.h->buf); describe(p, "analyze the frame -> %s", err_name(e)); rec(p, e); }
			break; }
		case OP_RESULTS: {
			if(!p.a) break;
			RDResolution* rw,* rh; size_t cw, ch;
			RDError e = resdet_analysis_results(p.a, &rw, &cw, &rh, &ch);
			describe(p, "results -> %s %zu/%zu", err_name(e), cw, ch);
			rec(p, e); rec(p, cw); rec(p, ch); if(!e) { rec(p, res_hash(rw, cw)); rec(p, res_hash(rh, ch)); }
			sim_free(rw); sim_free(rh); break; }
		case OP_DESTROY: resdet_destroy_analysis(p.a); p.a = nullptr; break;
		case OP_FILE: {
			RDParameters* q = p.ps.make();
			RDResolution* rw,* rh; size_t cw, ch;
			RDError e = resdetect_file(in_name(p).c_str(), in_type(p), &rw, &cw, &rh, &ch, resdet_get_method(method_name[p.m]), q);
			describe(p, "file detection -> %s %zu/%zu", err_name(e), cw, ch);
			rec(p, e); rec(p, cw); rec(p, ch); if(!e) { rec(p, res_hash(rw, cw)); rec(p, res_hash(rh, ch)); }
			sim_free(rw); sim_free(rh); sim_free(q); break; }
		case OP_BULK: {
			float* im; size_t n, w = 0, hh = 0;
			RDError e = resdet_read_image(in_name(p).c_str(), in_type(p), &im, &n, &w, &hh);
			describe(p, "bulk read -> %s %zu of %zux%zu", err_name(e), n, w, hh);
			rec(p, e); rec(p, n);
			if(!e) { rec(p, w); rec(p, hh); uint64_t x = 0; for(size_t k = 0; k < n * w * hh; k++) { uint32_t u; memcpy(&u, im + k, 4); x = mix64(x ^ u); } rec(p, x); }
			sim_free(im); break; }
		case OP_BUFFER: {
			RDParameters* q = p.ps.make();
			std::vector<float> px; size_t n = 1 + arg % p.frames.size();
			for(size_t k = 0; k < n; k++) px.insert(px.end(), p.frames[k].px.begin(), p.frames[k].px.end());
			RDResolution* rw,* rh; size_t cw, ch;
			RDError e = resdetect(px.data(), n, p.aw, p.ah, &rw, &cw, &rh, &ch, resdet_get_method(method_name[p.m]), q);
			describe(p, "buffer detection of %zu -> %s %zu/%zu", n, err_name(e), cw, ch);
			rec(p, e); rec(p, cw); rec(p, ch); if(!e) { rec(p, res_hash(rw, cw)); rec(p, res_hash(rh, ch)); }
			sim_free(rw); sim_free(rh); sim_free(q); break; }
		default: {
			RDMethod* m = resdet_get_method(method_name[arg % 4]);
			if(!m || strcmp(m->name, method_name[arg % 4])) violation("method-lookup", "looking up method %s gave %s", method_name[arg % 4], m ? m->name : "null");
			RDParameters* q = resdet_alloc_default_parameters(); rec(p, q != nullptr);
			if(q) rec(p, resdet_parameters_set_range(q, arg % 3));
			sim_free(q);
			const char* es = resdet_error_str((RDError)(int)(arg % 12) - 3); rec(p, es ? hash_str(es) : 0); break; }
	}
}
static void finish(Part& p) {
	p.ctx.alloc = AllocPlan(); p.ctx.lib = LibPlan();
	if(p.h) p.h->close();
	resdet_destroy_analysis(p.a); p.a = nullptr;
}
static void generate(Part& p, bool may_stdin) {
	Limits l; l.maxdim = chance(1, 10) ? 30 : 10; l.maxframes = 4; l.finite = chance(2, 3);
	p.m = (MethodId)draw(M_COUNT);
	p.ps = draw_params(); if(p.ps.set_range && p.ps.range > 6) p.ps.range = 1 + draw(5);
	p.has_image = chance(3, 4);
	p.aw = 1 + draw(16); p.ah = chance(1, 3) ? p.aw : 1 + draw(16);
	for(size_t k = 0, n = 1 + draw(3); k < n; k++) p.frames.push_back(gen_frame(p.aw, p.ah));
	bool faulty = chance(2, 5);
	if(p.has_image) {
		p.s = gen_sample(draw_format(), l);
		if(faulty && chance(1, 3)) { auto d = std::make_shared<Bytes>(*p.s.data); mutate(*d, p.s.marks, &p.s.note); std::swap(p.s.data, d); p.s.t.open = UNSPEC; R->nontrivial = 1; if(!tame(p.s)) p.s.data = d; }
		if(faulty && chance(1, 4) && p.s.data->size()) { auto d = std::make_shared<Bytes>(p.s.data->begin(), p.s.data->begin() + draw(p.s.data->size())); p.s.data = d; p.s.note += " truncated"; p.s.t.open = UNSPEC; R->nontrivial = 1; }
		bool file_only = p.s.note.find("(file only)") != std::string::npos;
		p.cfg = draw_transport(!file_only, false, faulty && chance(1, 2), p.s.data->size(), p.s.marks);
		// what one participant meets must not depend on the others
		if(p.cfg.chunk_mode == 2 || p.cfg.chunk_mode == 3) { p.cfg.chunk = p.cfg.chunk_mode == 2 ? 5 : 700; p.cfg.chunk_mode = 4; }
		if(p.cfg.seek_fail_den) p.cfg.seek_fail_den = p.s.fm == FM_AV ? 0 : 1;
		p.uses_stdin = may_stdin && !file_only && chance(1, 3);
		p.o = draw_open(p.s, p.uses_stdin, false);
		if(!p.uses_stdin) p.o.name = "t" + std::to_string(p.id) + "/" + p.o.name;
		logf("[%d] stream %s%s: %zu bytes, %s%s", p.id, fm_name[p.s.fm], p.s.note.c_str(), p.s.data->size(), cfg_str(p.cfg).c_str(), p.uses_stdin ? " on stdin" : "");
		hist(crc_bytes(*p.s.data)); hist(hash_str(cfg_str(p.cfg).c_str()));
	}
	else { logf("[%d] frames of %zux%zu", p.id, p.aw, p.ah); hist(p.aw * 100 + p.ah); }
	if(faulty && chance(1, 2)) { draw_alloc_plan(&p.ctx, 25, false); p.alloc = p.ctx.alloc; }
	if(faulty && chance(1, 4)) { draw_lib_plan(&p.ctx, 20); p.lib = p.ctx.lib; }
	hist(p.alloc.mode * 1000 + p.alloc.n);
	auto add = [&](int op, uint64_t a = 0) { p.prog.push_back(op); p.arg.push_back(a); };
	unsigned shape = (unsigned)draw(4);
	if(p.has_image && p.o.by_reader && shape == 3) shape = 0;
	if(!p.has_image) { if(shape == 3) add(OP_BUFFER, draw(100)); add(OP_CREATE); for(unsigned i = 0, n = (unsigned)range(1, 5); i < n; i++) chance(1, 4) ? add(OP_RESULTS) : add(OP_ANALYZE, draw(2048)); add(OP_RESULTS); add(OP_DESTROY); if(chance(1, 4)) add(OP_BUFFER, draw(100)); }
	else if(shape == 3) { add(chance(1, 2) ? OP_FILE : OP_BULK); }
	else if(shape == 2) { add(OP_OPEN); for(unsigned i = 0, n = (unsigned)range(1, 6); i < n; i++) chance(1, 3) ? add(OP_SEEK, draw(32)) : add(OP_READ); if(chance(1, 2)) add(OP_CLOSE); }
	else { add(OP_OPEN); add(OP_CREATE); for(unsigned i = 0, n = (unsigned)range(1, 5); i < n; i++) add(OP_ANALYZE_READ); add(OP_RESULTS); if(chance(1, 2)) add(OP_DESTROY); if(chance(1, 2)) add(OP_CLOSE); }
	for(unsigned i = 0, n = (unsigned)draw(2); i < n; i++) add(OP_MISC, draw(1000));
	p.late = (unsigned)draw(3);
	for(int op : p.prog) hist(op * 31 + 5);
}
static void alone(std::vector<std::unique_ptr<Part>>& ps, std::vector<std::vector<uint64_t>>& out, std::vector<std::vector<std::string>>& desc) {
	out.clear(); desc.clear();
	for(auto& p : ps) {
		logf("-- [%d] alone", p->id);
		prepare(*p);
		cx = &p->ctx;
		for(size_t i = 0; i < p->prog.size(); i++) step(*p, i);
		finish(*p);
		cx = &main_ctx;
		out.push_back(p->out); desc.push_back(p->desc);
	}
}
extern bool g_no_budgets;
void scen_threads() {
	size_t n = 2 + draw(3);
	unsigned mode = (unsigned)draw(3);               // 0, 1 threads; 2 interleaved in one thread
	bool alone_first = chance(1, 2);                  // otherwise nothing is warm when they meet
	unsigned slice = 3 + (unsigned)draw(12);
	std::vector<std::unique_ptr<Part>> ps;
	bool sin = false;
	for(size_t i = 0; i < n; i++) {
		auto p = std::make_unique<Part>(); p->id = (int)i;
		if(i && chance(1, 4)) {                       // the same work as another, on files of its own
			Part& q = *ps[draw(ps.size())];
			if(!q.uses_stdin) { p->s = q.s; p->cfg = q.cfg; p->o = q.o; p->has_image = q.has_image; p->m = q.m; p->ps = q.ps; p->frames = q.frames; p->aw = q.aw; p->ah = q.ah; p->alloc = q.alloc; p->lib = q.lib; p->late = q.late; p->prog = q.prog; p->arg = q.arg; if(p->has_image) p->o.name = "t" + std::to_string(i) + q.o.name.substr(2); logf("[%zu] the same as [%d]", i, q.id); hist(99); ps.push_back(std::move(p)); continue; }
		}
		generate(*p, !sin);
		sin |= p->uses_stdin;
		ps.push_back(std::move(p));
	}
	std::vector<std::vector<uint64_t>> ref; std::vector<std::vector<std::string>> rdesc;
	g_no_budgets = true;
	set_step_budget(1ull << 33);
	if(alone_first) alone(ps, ref, rdesc);
	for(auto& p : ps) prepare(*p);
	set_step_budget(UINT64_MAX);
	if(mode < 2) {
		logf("-- %zu threads, slices up to 2^%u", n, slice);
		std::vector<std::function<void()>> fns; std::vector<Ctx*> cs;
		for(auto& p : ps) { Part* q = p.get(); cs.push_back(&q->ctx); fns.push_back([q] { for(size_t i = 0; i < q->prog.size(); i++) step(*q, i); finish(*q); }); }
		sched_run(fns, cs, slice);
		count("probe.threaded_runs");
	}
	else {
		logf("-- %zu histories interleaved in one thread", n);
		std::vector<size_t> at(n);
		for(;;) {
			std::vector<size_t> ready;
			for(size_t i = 0; i < n; i++) if(at[i] <= ps[i]->prog.size()) ready.push_back(i);
			if(ready.empty()) break;
			size_t i = pick(ready);
			cx = &ps[i]->ctx;
			if(at[i] < ps[i]->prog.size()) step(*ps[i], at[i]); else finish(*ps[i]);
			at[i]++;
			hist(i);
			cx = &main_ctx;
		}
		count("probe.interleaved_runs");
	}
	if(ledger_count() && on("C06")) violation("leak", "resources still held: %s", ledger_dump().c_str());
	std::vector<std::vector<uint64_t>> got; std::vector<std::vector<std::string>> gdesc;
	for(auto& p : ps) { got.push_back(p->out); gdesc.push_back(p->desc); }
	if(!alone_first) alone(ps, ref, rdesc);
	for(size_t i = 0; i < n; i++) if(got[i] != ref[i]) {
		size_t k = 0; while(k < got[i].size() && k < ref[i].size() && got[i][k] == ref[i][k]) k++;
		std::string d = "some call's outcome"; for(size_t j = 0; j < gdesc[i].size() && j < rdesc[i].size(); j++) if(gdesc[i][j] != rdesc[i][j]) { d = "\"" + gdesc[i][j] + "\" instead of \"" + rdesc[i][j] + "\""; break; }
		violation("interference", "participant %zu of %zu (%s) got other outcomes %s than alone, from item %zu of %zu: %s", i, n, ps[i]->has_image ? fm_name[ps[i]->s.fm] : "analysis", mode < 2 ? "among concurrent threads" : "interleaved with others", k, ref[i].size(), d.c_str());
	}
	finish_run(false);
}
