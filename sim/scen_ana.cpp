// C08, C09: analysis sessions against a reference model; C05: memory running out in every operation.
#include "model.h"
#include <algorithm>
#include <set>

namespace {
struct Session {
	SessionModel m; RDAnalysis* a = nullptr; RDParameters* q = nullptr;
	std::vector<size_t> frames;           // candidates in the pool
	std::string label;
	Session(const SessionModel& s) : m(s) {}
};
struct PoolFrame { FrameData f; std::map<std::pair<int, size_t>, Probe> probes; };
}
static size_t draw_len(size_t range, size_t most) {
	switch(draw(5)) {
		case 0: return 1 + draw(most);
		case 1: { size_t r = range > most / 2 ? most / 2 : range; size_t v = 2 * r + draw(4); return v < 2 ? 1 : v - 1; }       // around the shortest usable length
		case 2: return 1 + draw(4);
		default: { size_t lo = range * 2 > most ? most : range * 2; return lo + draw(most - lo + 1) + (lo == 0); }
	}
}
static const Probe& probe(PoolFrame& f, MethodId m, size_t range) {
	auto k = std::make_pair((int)m, m == M_ZEROX ? (size_t)1 : range);
	auto it = f.probes.find(k);
	if(it == f.probes.end()) it = f.probes.emplace(k, probe_frame(f.f, m, range)).first;
	return it->second;
}
static uint64_t ana_px(const SessionModel& m) {
	size_t r = m.p.eff_range(m.m); if(r > 64) r = 64;
	return (uint64_t)m.w * m.h * (40 + r * 4);
}
enum Outcome { RES_OK, RES_FAILED };
static void check_results(Session& s, unsigned form, bool faults) {
	RDResolution* rw = (RDResolution*)16,* rh = (RDResolution*)16; size_t cw = 99, ch = 99;
	uint64_t f0 = cx->faults(), own0 = cx->own_alloc_faults;
	size_t live0 = ledger_count();
	bool ww = form != 1 && form != 3, wh = form != 0 && form != 3;      // 0 width only, 1 height only, 2+ both, 3 neither
	op_budget(0, ana_px(s.m));
	RDError e = resdet_analysis_results(s.a, ww ? &rw : nullptr, ww ? &cw : nullptr, wh ? &rh : nullptr, wh ? &ch : nullptr);
	op_done();
	logf("%sresults %s -> %s %zu/%zu", s.label.c_str(), ww ? wh ? "both" : "width" : wh ? "height" : "neither", err_name(e), ww ? cw : 0, wh ? ch : 0);
	hist(hash_str("results") + form * 7 + e + s.m.n * 31);
	if(!valid_error(e)) violation("bad-error-code", "results returned %d", e);
	if(e) {
		if((ww && (rw || cw)) || (wh && (rh || ch))) violation("failed-outputs", "%sresults failed (%s) but left outputs set", s.label.c_str(), err_name(e));
		if(ledger_count() != live0) violation("leak", "%sfailed results (%s) kept memory: %s", s.label.c_str(), err_name(e), ledger_dump().c_str());
		if(cx->faults() == f0) { if(e != RDENOIMG || s.m.n) violation("spurious-error", "%sresults after %zu frames failed without a cause: %s", s.label.c_str(), s.m.n, err_name(e)); }
		else if(e != RDENOMEM && !(e == RDENOIMG && !s.m.n)) violation("wrong-error", "%sresults: memory ran out, but the error is %s", s.label.c_str(), err_name(e));
		return;
	}
	if(!s.m.n) violation("results-without-frames", "%sresults before any analysed frame succeeded", s.label.c_str());
	if(ww) { auto t = judge_dimension(s.m, true, rw, cw); if(!t.empty()) violation("wrong-results", "%s%s method after %zu frames of %zux%zu: %s", s.label.c_str(), method_name[s.m.m], s.m.n, s.m.w, s.m.h, t.c_str()); }
	if(wh) { auto t = judge_dimension(s.m, false, rh, ch); if(!t.empty()) violation("wrong-results", "%s%s method after %zu frames of %zux%zu: %s", s.label.c_str(), method_name[s.m.m], s.m.n, s.m.w, s.m.h, t.c_str()); }
	for(size_t i = 0; ww && i < cw; i++) { uint32_t u; memcpy(&u, &rw[i].confidence, 4); loghash(rw[i].index * 1000003 + u); }
	if(ww) sim_free(rw);
	if(wh) sim_free(rh);
}
static RDAnalysis* create(SessionModel& m, RDParameters* q, bool faults, const char* label, bool default_method) {
	uint64_t f0 = cx->faults(), own0 = cx->own_alloc_faults; size_t live0 = ledger_count();
	RDError e = 88;
	bool no_err = chance(1, 8);
	op_budget(0, 2000 + m.w * m.h * 40);
	RDAnalysis* a = resdet_create_analysis(default_method ? nullptr : resdet_get_method(method_name[m.m]), m.w, m.h, q, no_err ? nullptr : &e);
	op_done();
	if(no_err) e = a ? 0 : RDENOMEM;
	logf("%screate %s %zux%zu %s -> %s", label, method_name[m.m], m.w, m.h, m.p.str().c_str(), err_name(e));
	hist(hash_str("create") + e + m.w * 7 + m.h * 1001 + m.m);
	if(!valid_error(e)) violation("bad-error-code", "creating an analysis returned %d", e);
	if((a != nullptr) != (e == 0)) violation("create-inconsistent", "creating an analysis returned %s with %s", a ? "a session" : "null", err_name(e));
	if(!a) {
		if(ledger_count() != live0) violation("leak", "failed creation (%s) kept: %s", err_name(e), ledger_dump().c_str());
		if(cx->faults() == f0) violation("spurious-error", "creating a %zux%zu analysis failed without a cause: %s", m.w, m.h, err_name(e));
		if(cx->own_alloc_faults - own0 == cx->faults() - f0 && e != RDENOMEM) violation("wrong-error", "creating an analysis: memory ran out, but the error is %s", err_name(e));
	}
	return a;
}
static void sessions(bool failing) {
	size_t ns = 1 + draw(3);
	bool big = chance(1, 12), wide = !big && !failing && chance(1, 60), huge = !big && !wide && !failing && chance(1, 60);
	if(huge) ns = 1;
	std::vector<std::unique_ptr<PoolFrame>> pool;
	std::vector<std::unique_ptr<Session>> ss;
	for(size_t i = 0; i < ns; i++) {
		MethodId m = (MethodId)draw(M_COUNT);
		ParamSpec p = draw_params();
		if(!failing && chance(1, 6) && !p.null) { p.set_filter = true; p.filter = (uint8_t)(chance(1, 3) ? draw(32) : 1 + draw(5)); }
		size_t w, h;
		if(wide && !p.null && chance(1, 4)) { p.set_range = true; p.range = 200 + draw(150); }
		static const size_t lengths[] = { 4096, 8192, 16384, 16384, 16384, 32768, 65536, 131072 };
		size_t longest = lengths[draw(8)], thin = longest > 16384 ? 1 + draw(3) : 0;
		if(huge && !p.null) { p.set_range = true; p.range = 1 + draw(14); }
		if(huge && !thin) { thin = 2 * p.eff_range(m) + 1 + draw(3); }
		if(huge && longest * thin <= variant_pixel_max) { w = longest; h = thin; if(chance(2, 3)) std::swap(w, h); count("probe.huge_frames"); }   // counts beyond 16 bits
		else if(i && chance(1, 2)) { w = ss[0]->m.w; h = ss[0]->m.h; }
		else if(wide) { w = chance(1, 2) ? 61 + draw(600) : (size_t)(1u << (6 + draw(5))) + draw(3) - 1; h = 1 + draw(7); if(w * h > variant_pixel_max) w = 500; if(chance(1, 2)) std::swap(w, h); }
		else { size_t r = p.eff_range(m); w = draw_len(r, big ? 60 : 24); h = chance(1, 6) ? w : draw_len(r, big ? 60 : 24); }
		bool def = m == M_SIGN && chance(1, 3);
		auto s = std::make_unique<Session>(SessionModel(w, h, m, p));
		if(ns > 1) s->label = "[" + std::to_string(i) + "] ";
		s->q = p.make();
		for(int tries = 0; tries < 4 && !s->a; tries++) {
			if(failing && tries == 0 && chance(1, 5)) draw_alloc_plan(cx, 14); else cx->alloc = AllocPlan();
			s->a = create(s->m, s->q, failing, s->label.c_str(), def);
		}
		cx->alloc = AllocPlan();
		// the session must not look at the caller's object again
		if(s->q) {
			switch(draw(3)) {
				case 0: sim_free(s->q); s->q = nullptr; break;
				case 1: resdet_parameters_set_range(s->q, 1 + draw(9)); resdet_parameters_set_threshold(s->q, (float)draw(100) / 100); resdet_parameters_set_compression_filter(s->q, (uint8_t)draw(8)); break;
				default: break;
			}
		}
		size_t have = 0;
		for(size_t k = 0; k < pool.size(); k++) if(pool[k]->f.w == w && pool[k]->f.h == h) { s->frames.push_back(k); have++; }
		size_t want = have ? draw(3) : 1 + draw(huge ? 2 : 4);
		for(size_t k = 0; k < want; k++) { auto f = std::make_unique<PoolFrame>(); f->f = gen_frame(w, h); s->frames.push_back(pool.size()); logf("frame %zu: %zux%zu %s", pool.size(), w, h, f->f.kind.c_str()); for(float v : f->f.px) { uint32_t u; memcpy(&u, &v, 4); hist(u); } pool.push_back(std::move(f)); }
		ss.push_back(std::move(s));
	}
	// thresholds exactly at a reachable mean
	for(auto& sp : ss) if(!failing && chance(1, 4) && !sp->m.p.null) {
		Session& s = *sp;
		SessionModel t(s.m.w, s.m.h, s.m.m, s.m.p);
		size_t n = 1 + draw(2);
		std::vector<size_t> plan; for(size_t k = 0; k < n; k++) plan.push_back(pick(s.frames));
		for(size_t k : plan) t.add(probe(*pool[k], s.m.m, s.m.p.eff_range(s.m.m)));
		auto& v = chance(1, 2) ? t.sx : t.sy; uint64_t d = &v == &t.sx ? t.dx : t.dy;
		if(v.empty()) continue;
		float thr = (float)((double)v[draw(v.size())] / d / n);
		if(thr > 1) thr = 1;
		ParamSpec p = s.m.p; p.set_threshold = true; p.threshold = thr;
		resdet_destroy_analysis(s.a); sim_free(s.q);
		s.m = SessionModel(s.m.w, s.m.h, s.m.m, p);
		s.q = p.make();
		s.a = create(s.m, s.q, false, s.label.c_str(), false);
		sim_free(s.q); s.q = nullptr;
		for(size_t k : plan) { std::vector<float> px = pool[k]->f.px; if(RDError e = resdet_analyze_image(s.a, px.data())) violation("spurious-error", "analysing failed: %s", err_name(e)); s.m.add(probe(*pool[k], s.m.m, p.eff_range(s.m.m))); logf("%sanalyze frame %zu", s.label.c_str(), k); }
		check_results(s, 2, false);
	}
	// very many frames in one session
	if(!failing && chance(1, 60)) {
		Session& s = *pick(ss);
		size_t n = s.m.w * s.m.h <= 100 && chance(1, 60) ? 65530 + draw(16) : s.m.w * s.m.h <= 3000 ? 230 + draw(300) : 0;
		if(s.a && n) {
			std::vector<std::vector<float>> px; std::vector<const Probe*> pr;
			for(size_t k : s.frames) { px.push_back(pool[k]->f.px); pr.push_back(&probe(*pool[k], s.m.m, s.m.p.eff_range(s.m.m))); }
			uint64_t salt = draw(1u << 20);
			for(size_t i = 0; i < n; i++) {
				size_t k = mix64(salt + i) % px.size();
				op_budget(0, ana_px(s.m));
				RDError e = resdet_analyze_image(s.a, px[k].data());
				op_done();
				if(e) violation("spurious-error", "analysing frame %zu of a session failed without a cause: %s", i, err_name(e));
				s.m.add(*pr[k]);
			}
			logf("%sanalyze %zu frames", s.label.c_str(), n); hist(n); hist(salt);
			count(n > 60000 ? "probe.sessions_beyond_65535_frames" : "probe.long_sessions");
			check_results(s, 2, false);
		}
	}
	unsigned ops = (unsigned)range(1, huge ? 4 : 14);
	for(unsigned i = 0; i < ops; i++) {
		Session& s = *pick(ss);
		if(!s.a) continue;
		unsigned k = (unsigned)draw(10);
		if(k < 5) {
			PoolFrame& f = *pool[pick(s.frames)];
			const Probe& pr = probe(f, s.m.m, s.m.p.eff_range(s.m.m));
			std::vector<float> px = f.f.px;
			unsigned fail = failing ? (unsigned)draw(4) : 0;
			if(fail == 1) { static const float bad[] = { NAN, INFINITY, -INFINITY }; size_t at = chance(1, 3) ? px.size() - 1 : draw(px.size()); px[at] = bad[draw(3)]; logf("  non-finite value at %zu of %zu", at, px.size()); count("fault.non_finite_sample"); R->nontrivial = 1; hist(at); }
			if(fail == 2) draw_alloc_plan(cx, 4);
			float* arg = fail == 3 ? nullptr : px.data();
			std::vector<float> copy = px;
			uint64_t f0 = cx->faults(), own0 = cx->own_alloc_faults; size_t live0 = ledger_count();
			op_budget(0, ana_px(s.m));
			RDError e = resdet_analyze_image(s.a, arg);
			op_done();
			cx->alloc = AllocPlan();
			logf("%sanalyze %s -> %s", s.label.c_str(), f.f.kind.c_str(), err_name(e));
			hist(hash_str("analyze") + e + fail * 77);
			if(!valid_error(e)) violation("bad-error-code", "analysing returned %d", e);
			if(memcmp(copy.data(), px.data(), px.size() * 4)) violation("input-modified", "analysing a frame changed the caller's image");
			if(ledger_count() != live0) violation("leak", "analysing a frame kept memory: %s", ledger_dump().c_str());
			if(!e) {
				if(fail == 1) violation("accepted-non-finite", "a frame with a non-finite value was analysed");
				if(fail == 3) violation("accepted-null", "a null image was analysed");
				s.m.add(pr);
			}
			else {
				if(fail == 0) violation("spurious-error", "analysing a finite %zux%zu frame failed without a cause: %s", s.m.w, s.m.h, err_name(e));
				if(fail == 1 && e != RDEINVAL && on("C09")) violation("wrong-error", "a non-finite frame gave %s", err_name(e));
				if(fail == 3 && e != RDEPARAM) violation("wrong-error", "a null image gave %s", err_name(e));
				if(fail == 2 && cx->faults() == f0) violation("spurious-error", "analysing failed without a cause: %s", err_name(e));
				if(fail == 2 && e != RDENOMEM) violation("wrong-error", "analysing: memory ran out, but the error is %s", err_name(e));
				count("probe.failed_analysis");
			}
		}
		else if(k < 8) {
			bool f = failing && chance(1, 3);
			if(f) draw_alloc_plan(cx, 3);
			check_results(s, (unsigned)draw(6), f);
			cx->alloc = AllocPlan();
			if(f) check_results(s, 2, false);
		}
		else if(k == 8) {
			RDResolution* r = (RDResolution*)16; size_t c = 5; RDError e;
			switch(draw(4)) {
				case 0: e = resdet_analysis_results(s.a, &r, nullptr, nullptr, nullptr); break;
				case 1: e = resdet_analysis_results(s.a, nullptr, nullptr, &r, nullptr); break;
				case 2: e = resdet_analysis_results(nullptr, &r, &c, nullptr, nullptr); break;
				default: { e = RDEPARAM; r = nullptr; RDError e2 = resdet_analyze_image(nullptr, (float*)16); if(e2 != RDEPARAM) violation("null-handle", "analysing with a null session gave %s", err_name(e2)); }
			}
			if(e != RDEPARAM) violation("wrong-error", "results with missing arguments gave %s", err_name(e));
			if(r) violation("failed-outputs", "failed results left an output set");
		}
		else if(chance(1, 2)) {
			// gone, and another takes its place
			resdet_destroy_analysis(s.a); s.a = nullptr;
			s.m = SessionModel(s.m.w, s.m.h, s.m.m, s.m.p);
			RDParameters* q = s.m.p.make();
			s.a = create(s.m, q, false, s.label.c_str(), false);
			sim_free(q);
		}
	}
	for(auto& s : ss) { if(s->a) check_results(*s, 2, false); }
	for(auto& s : ss) { resdet_destroy_analysis(s->a); sim_free(s->q); }
	if(ledger_count()) violation("leak", "memory is still held after everything was destroyed: %s", ledger_dump().c_str());
}
void scen_sessions() { sessions(false); }            // C08
void scen_failing() { sessions(true); }              // C09
