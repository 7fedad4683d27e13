// C10: one-shot calls against their step-by-step composition. C05: memory running out in any operation.
#include "heap.h"
#include "model.h"
#include <algorithm>

typedef std::vector<std::pair<size_t, float>> Res;
struct Detect { int err = 0; Res w, h; };
static Res take(RDResolution* r, size_t n) { Res v; for(size_t i = 0; i < n; i++) v.push_back({ r[i].index, r[i].confidence }); return v; }
static bool same_res(const Res& a, const Res& b) {
	if(a.size() != b.size()) return false;
	Res x = a, y = b; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
	for(size_t i = 0; i < x.size(); i++) if(x[i].first != y[i].first || fabs(x[i].second - y[i].second) > 1e-6) return false;
	return true;
}
static bool sorted_desc(const Res& a) { for(size_t i = 1; i < a.size(); i++) if(a[i].second > a[i - 1].second) return false; return true; }
static std::string str(const Res& r) { std::string s; char b[60]; for(size_t i = 0; i < r.size() && i < 6; i++) { snprintf(b, sizeof b, " %zu:%.6f", r[i].first, r[i].second); s += b; } if(r.size() > 6) s += " ..."; return s; }
static uint64_t budget_px(const Sample& s) { return (uint64_t)s.t.w * s.t.h * (s.t.fr.size() + 2) * 200 + 100000; }

// which outputs are asked for
struct Outs { bool w = true, h = true; };
static Outs draw_outs() { Outs o; if(chance(1, 5)) { o.w = draw(2); o.h = draw(2); } return o; }

static Detect one_shot_file(const char* name, const char* type, const Outs& o, RDMethod* m, const RDParameters* p, uint64_t extra) {
	Detect d;
	RDResolution* rw = (RDResolution*)16,* rh = (RDResolution*)16; size_t cw = 99, ch = 99;
	op_budget(0, 0, extra);
	d.err = resdetect_file(name, type, o.w ? &rw : nullptr, o.w ? &cw : nullptr, o.h ? &rh : nullptr, o.h ? &ch : nullptr, m, p);
	op_done();
	if(!valid_error(d.err)) violation("bad-error-code", "file detection returned %d", d.err);
	if(d.err) { if((o.w && (rw || cw)) || (o.h && (rh || ch))) violation("failed-outputs", "file detection failed (%s) but left outputs set", err_name(d.err)); return d; }
	if(o.w) { if(!rw || !cw) violation("results-missing", "file detection succeeded without width results"); d.w = take(rw, cw); sim_free(rw); }
	if(o.h) { if(!rh || !ch) violation("results-missing", "file detection succeeded without height results"); d.h = take(rh, ch); sim_free(rh); }
	return d;
}
static Detect one_shot_buffer(float* img, size_t n, size_t w, size_t h, const Outs& o, RDMethod* m, const RDParameters* p, uint64_t extra) {
	Detect d;
	RDResolution* rw = (RDResolution*)16,* rh = (RDResolution*)16; size_t cw = 99, ch = 99;
	op_budget(0, 0, extra);
	d.err = resdetect(img, n, w, h, o.w ? &rw : nullptr, o.w ? &cw : nullptr, o.h ? &rh : nullptr, o.h ? &ch : nullptr, m, p);
	op_done();
	if(!valid_error(d.err)) violation("bad-error-code", "buffer detection returned %d", d.err);
	if(d.err) { if((o.w && (rw || cw)) || (o.h && (rh || ch))) violation("failed-outputs", "buffer detection failed (%s) but left outputs set", err_name(d.err)); return d; }
	if(o.w) { if(!rw || !cw) violation("results-missing", "buffer detection succeeded without width results"); d.w = take(rw, cw); sim_free(rw); }
	if(o.h) { if(!rh || !ch) violation("results-missing", "buffer detection succeeded without height results"); d.h = take(rh, ch); sim_free(rh); }
	return d;
}
static Detect step_results(RDAnalysis* a, const Outs& o) {
	Detect d;
	RDResolution* rw = nullptr,* rh = nullptr; size_t cw = 0, ch = 0;
	d.err = resdet_analysis_results(a, o.w ? &rw : nullptr, o.w ? &cw : nullptr, o.h ? &rh : nullptr, o.h ? &ch : nullptr);
	if(!d.err) { if(o.w) d.w = take(rw, cw); if(o.h) d.h = take(rh, ch); sim_free(rw); sim_free(rh); }
	return d;
}
static Detect steps_file(const char* name, const char* type, const Outs& o, RDMethod* m, const RDParameters* p, uint64_t extra, size_t* frames) {
	Detect d; size_t w, h; float* buf = nullptr; int e = 0;
	*frames = 0;
	op_budget(0, 0, extra * 2);
	RDImage* im = resdet_open_image(name, type, &w, &h, &buf, &e);
	if(e) { op_done(); d.err = e; return d; }
	RDAnalysis* a = resdet_create_analysis(m, w, h, p, &e);
	if(!e) {
		while(resdet_read_image_frame(im, buf, &e)) { if((e = resdet_analyze_image(a, buf))) break; ++*frames; }
		if(e) d.err = e; else d = step_results(a, o);
	}
	else d.err = e;
	op_done();
	sim_free(buf); resdet_destroy_analysis(a); resdet_close_image(im);
	return d;
}
static void compare(const char* what, const Detect& one, const Detect& st, bool threads_exact = true) {
	if(one.err != st.err) violation("one-shot-error", "%s returned %s, the same steps one by one return %s", what, err_name(one.err), err_name(st.err));
	if(!same_res(one.w, st.w)) violation("one-shot-results", "%s: width results are%s, step by step they are%s", what, str(one.w).c_str(), str(st.w).c_str());
	if(!same_res(one.h, st.h)) violation("one-shot-results", "%s: height results are%s, step by step they are%s", what, str(one.h).c_str(), str(st.h).c_str());
	if(!sorted_desc(one.w) || !sorted_desc(one.h)) violation("one-shot-results", "%s: results are not sorted", what);
}

static Sample draw_input(bool faulty, bool* faults) {
	Limits l; if(chance(1, 3)) { l.maxdim = 34; l.maxframes = 4; } else if(chance(1, 80)) { l.maxdim = 3; l.maxframes = 520; l.finite = true; }
	Sample s = gen_sample(draw_format(), l);
	*faults = false;
	if(!faulty) return s;
	if(s.fm >= FM_AV) g_heap_judge = false;
	switch(draw(4)) {
		case 0: *faults = true; break;
		case 1: if(s.data->size()) { auto d = std::make_shared<Bytes>(s.data->begin(), s.data->begin() + draw(s.data->size() + 1)); s.data = d; s.note += " truncated"; R->nontrivial = 1; count("fault.truncation"); } break;
		case 2: { auto d = std::make_shared<Bytes>(*s.data); mutate(*d, s.marks, &s.note); std::swap(s.data, d); if(!tame(s)) s.data = d; R->nontrivial = 1; count("fault.damaged_bytes"); } break;
		default: break;
	}
	return s;
}
// how the bytes arrive must not depend on how often this was asked, so that both executions meet the same faults
static void repeatable(StreamCfg& c) {
	if(c.chunk_mode == 2 || c.chunk_mode == 3) { c.chunk_mode = 4; c.chunk = c.chunk_mode == 2 ? 5 : 700; }
	c.seek_fail_den = 0;
}
void scen_oneshot() {                                // C10
	unsigned kind = (unsigned)draw(6);
	MethodId mi = (MethodId)draw(M_COUNT);
	RDMethod* m = chance(1, 6) ? nullptr : resdet_get_method(method_name[mi]);
	ParamSpec ps = draw_params();
	if(ps.set_range && ps.range > 8 && chance(2, 3)) ps.range = 1 + draw(6);
	if(ps.set_threshold && chance(1, 2)) ps.threshold = 0;
	if(chance(1, 8) && !ps.null) { ps.set_filter = true; ps.filter = (uint8_t)draw(32); }
	RDParameters* p = ps.make();
	Outs o = draw_outs();
	if(kind == 5) {                                  // contiguous images in memory
		size_t n = draw(5), w = 1 + draw(20), h = 1 + draw(20);
		if(chance(1, 60)) { n = 200 + draw(400); w = 1 + draw(5); h = 1 + draw(5); }
		else if(chance(1, 60)) { n = draw(3); w = 20 + draw(300); h = 1 + draw(40); if(chance(1, 2)) std::swap(w, h); }
		bool huge = chance(1, 700);
		if(huge) { n = 65537 + draw(5); w = 1 + draw(3); h = 1 + draw(2); }
		std::vector<float> px;
		if(huge) { Prng r(draw(1u << 30)); for(size_t k = 0; k < n * w * h; k++) px.push_back(r.below(256) / 255.f); }
		else for(size_t k = 0; k < n; k++) { FrameData f = gen_frame(w, h); px.insert(px.end(), f.px.begin(), f.px.end()); }
		if(n && chance(1, huge ? 2 : 4)) { px[huge ? px.size() - 1 - draw(px.size() - 65536 * w * h) : draw(px.size())] = chance(1, 2) ? NAN : INFINITY; R->nontrivial = 1; count("fault.non_finite_sample"); }
		bool null = chance(1, 12), baddim = n && chance(1, 15);
		for(float v : px) { uint32_t u; memcpy(&u, &v, 4); hist(u); }
		std::vector<float> orig = px;
		float* buf = (float*)malloc(px.size() * 4 + !px.size()); memcpy(buf, px.data(), px.size() * 4);    // exactly as large as it may be read
		size_t ww = baddim && draw(2) ? 0 : w, hh = baddim && ww ? 0 : h;
		logf("buffer: %zu images of %zux%zu, %s%s", n, ww, hh, ps.str().c_str(), null ? ", null" : "");
		Detect d = one_shot_buffer(null ? nullptr : buf, n, ww, hh, o, m, p, (uint64_t)(w * h) * (n + 1) * (400 + 8 * (w + h)) + 100000);
		if(memcmp(buf, orig.data(), orig.size() * 4)) violation("input-modified", "buffer detection changed the caller's images");
		logf("buffer detection -> %s%s |%s", err_name(d.err), str(d.w).c_str(), str(d.h).c_str());
		Detect s;
		if(null) s.err = RDEPARAM;
		else if(!n) s.err = RDENOIMG;
		else {
			int e;
			RDAnalysis* a = resdet_create_analysis(m, ww, hh, p, &e);
			for(size_t k = 0; k < n && !e; k++) e = resdet_analyze_image(a, buf + k * w * h);
			if(e) s.err = e; else s = step_results(a, o);
			resdet_destroy_analysis(a);
		}
		compare("buffer detection", d, s);
		free(buf);
		sim_free(p);
		finish_run(true);
		return;
	}
	bool faults;
	Sample s = draw_input(chance(2, 3), &faults);
	StreamCfg c = draw_transport(true, false, faults, s.data->size(), s.marks);
	repeatable(c);
	bool sin = chance(1, 6);
	std::string name = sin ? "-" : "in." + s.ext, type = sin ? s.ext : "";
	if(!sin && chance(1, 4)) { name = "in"; type = s.ext; }
	if(s.fm == FM_AV && s.ext == "y4m") { s.ext = "y4m"; }
	if(chance(1, 25)) { type = chance(1, 2) ? "zzz" : "text/plain"; if(chance(1, 2)) type = ""; }
	const char* ty = type.empty() && !chance(1, 20) ? nullptr : type.c_str();
	logf("stream %s%s: %zu bytes, %s%s as %s type=%s, %s", fm_name[s.fm], s.note.c_str(), s.data->size(), cfg_str(c).c_str(), sin ? " on stdin" : "", name.c_str(), ty ? ty : "(null)", ps.str().c_str());
	hist(crc_bytes(*s.data)); hist(hash_str(cfg_str(c).c_str()) + sin); hist(hash_str(ps.str().c_str()) + mi);
	uint64_t extra = s.data->size() * 1200 + budget_px(s);
	if(s.note.find("@") != std::string::npos || s.note.find("truncated") != std::string::npos) {       // what the altered bytes declare
		if(s.fm <= FM_Y4M) { Truth t = ref_parse(s.fm, *s.data); extra += (uint64_t)t.w * t.h * (t.fr.size() + 2) * 200; }
		else extra += 1ull << 32;
	}
	bool missing = !sin && chance(1, 30);
	if(!sin && !missing && chance(1, 30)) { c.open_errno = EACCES; }
	auto fresh = [&] {
		SimFile* f = vfs_add(sin ? "<stdin>" : name, s.data, c);
		if(missing) f->exists = false;
		if(sin) sim_stdin_set(f);
	};
	if(kind <= 2) {
		fresh();
		Detect d = one_shot_file(name.c_str(), ty, o, m, p, extra);
		logf("file detection -> %s%s |%s", err_name(d.err), str(d.w).c_str(), str(d.h).c_str());
		fresh();
		size_t nf = 0;
		Detect st = steps_file(name.c_str(), ty, o, m, p, extra, &nf);
		logf("step by step: %zu frames -> %s", nf, err_name(st.err));
		compare("file detection", d, st);
		if(nf == 0 && !st.err) violation("results-without-frames", "a stream without frames gave results");
		if(!st.err) count("probe.detections_compared"); else count("probe.errors_compared");
	}
	else {
		fresh();
		float* imgs = (float*)16; size_t n = 99, w = 77, h = 77;
		op_budget(0, 0, extra);
		int e = resdet_read_image(name.c_str(), ty, &imgs, &n, &w, &h);
		op_done();
		logf("bulk read -> %s, %zu images of %zux%zu", err_name(e), n, w, h);
		if(!valid_error(e)) violation("bad-error-code", "bulk read returned %d", e);
		if(e && (imgs || n)) violation("failed-outputs", "bulk read failed (%s) but left %zu images", err_name(e), n);
		fresh();
		size_t w2, h2; float* buf = nullptr; int e2 = 0; std::vector<std::vector<float>> fr;
		op_budget(0, 0, extra * 2);
		RDImage* im = resdet_open_image(name.c_str(), ty, &w2, &h2, &buf, &e2);
		bool opened = im != nullptr;
		if(im) while(resdet_read_image_frame(im, buf, &e2)) fr.emplace_back(buf, buf + w2 * h2);
		op_done();
		resdet_close_image(im); sim_free(buf);
		logf("step by step: %zu frames -> %s", fr.size(), err_name(e2));
		if(e != e2) violation("one-shot-error", "bulk read returned %s, the same steps one by one return %s", err_name(e), err_name(e2));
		if(opened && (w != w2 || h != h2)) violation("bulk-dimensions", "bulk read reported %zux%zu, opening reports %zux%zu", w, h, w2, h2);
		if(!e) {
			if(n != fr.size()) violation("bulk-count", "bulk read returned %zu images, there are %zu", n, fr.size());
			for(size_t k = 0; k < n; k++) for(size_t i = 0; i < w * h; i++) {
				float x = imgs[k * w * h + i], y = fr[k][i];
				if(memcmp(&x, &y, 4) && !(std::isnan(x) && std::isnan(y))) violation("bulk-pixels", "bulk read: image %zu of %zu, pixel %zu is %g, reading it alone gives %g", k, n, i, x, y);
			}
			count("probe.bulk_compared");
		}
		else count("probe.errors_compared");
		sim_free(imgs);
	}
	sim_free(p);
	finish_run(true);
}

// ---------------------------------------------------------------- C05
static void outcome(const char* op, int err, uint64_t f0, uint64_t own0, bool plan_only_own) {
	if(!valid_error(err)) violation("bad-error-code", "%s returned %d", op, err);
	if(!err) { if(cx->faults() != f0) count("probe.survived_failed_allocation"); return; }
	if(cx->faults() == f0) violation("spurious-error", "%s failed without a cause: %s", op, err_name(err));
	count("probe.reported_failed_allocation");
	if(cx->faults() - f0 == cx->own_alloc_faults - own0 && err != RDENOMEM) violation("wrong-error", "%s: only allocations of the library failed, but the error is %s", op, err_name(err));
}
void scen_alloc() {
	unsigned kind = (unsigned)draw(7);
	Limits l; if(chance(1, 4)) { l.maxdim = 24; l.maxframes = 4; } l.finite = true;
	Sample s = gen_sample(draw_format(), l), by = gen_sample(draw_format(), l);
	// a bystander that must not notice
	Handle bh; bh.label = "[bystander] "; bh.t = &by.t;
	bool bystander = chance(1, 2);
	MethodId bmi = (MethodId)draw(M_COUNT); ParamSpec bps = draw_params(); RDAnalysis* ba = nullptr; std::unique_ptr<SessionModel> bm; FrameData bf;
	if(bystander) {
		OpenSpec o = draw_open(by, false, false); o.name = "b/" + o.name; o.own_buf = true;
		StreamCfg c = draw_transport(by.note.find("(file only)") == std::string::npos, false, false, by.data->size(), by.marks);
		bh.file = vfs_add(o.name, by.data, c);
		bh.open(o);
		if(chance(1, 2)) bh.read();
		bm = std::make_unique<SessionModel>(1 + draw(12), 1 + draw(12), bmi, bps);
		RDParameters* p = bps.make(); RDError e;
		ba = resdet_create_analysis(resdet_get_method(method_name[bmi]), bm->w, bm->h, p, &e);
		if(!ba) violation("spurious-error", "creating an analysis failed without a cause: %s", err_name(e));
		sim_free(p);
		bf = gen_frame(bm->w, bm->h);
		Probe pr = probe_frame(bf, bmi, bps.eff_range(bmi));
		std::vector<float> px = bf.px;
		if(RDError e = resdet_analyze_image(ba, px.data())) violation("spurious-error", "analysing failed without a cause: %s", err_name(e));
		bm->add(pr);
	}
	size_t live0 = ledger_count();
	bool file_only = s.note.find("(file only)") != std::string::npos;
	StreamCfg c = draw_transport(!file_only, false, false, s.data->size(), s.marks);
	OpenSpec o = draw_open(s, false, false);
	SimFile* f = vfs_add(o.name, s.data, c);
	logf("stream %s%s: %zu bytes, %zux%zu, %zu frames; %s", fm_name[s.fm], s.note.c_str(), s.data->size(), s.t.w, s.t.h, s.t.fr.size(), cfg_str(c).c_str());
	hist(crc_bytes(*s.data)); hist(kind);
	MethodId mi = (MethodId)draw(M_COUNT); RDMethod* m = resdet_get_method(method_name[mi]);
	ParamSpec ps = draw_params(); if(ps.set_range && ps.range > 9) ps.range = 1 + draw(6);
	RDParameters* p = ps.make();
	if(p) live0++;
	const char* ty = o.type.empty() ? nullptr : o.type.c_str();
	uint64_t extra = s.data->size() * 1200 + budget_px(s), f0 = cx->faults(), own0 = cx->own_alloc_faults;
	bool unnamed = o.by_reader;                       // the one-shot calls cannot choose a reader
	if(unnamed && kind >= 2 && kind <= 3) kind = 0;
	if(kind <= 1) {
		Handle h; h.t = &s.t; h.file = f;
		bool late = kind == 1;
		if(!late) draw_alloc_plan(cx, 12);
		if(h.open(o)) {
			size_t k = draw(s.t.fr.size() + 2);
			for(size_t i = 0; i < k; i++) h.read();
			if(late) { draw_alloc_plan(cx, 6); }
			for(size_t i = 0; i < s.t.fr.size() + 2; i++) { if(chance(1, 3)) h.seek(draw(3), chance(1, 2)); else h.read(); }
		}
		h.close();
	}
	else if(kind == 2) {
		float* imgs = (float*)16; size_t n = 99, w, h;
		draw_alloc_plan(cx, 12);
		op_budget(0, 0, extra);
		int e = resdet_read_image(o.name.c_str(), ty, &imgs, &n, &w, &h);
		op_done();
		cx->alloc.armed = false;
		logf("bulk read -> %s, %zu images", err_name(e), n);
		if(s.t.end == END_ERROR) { if(!e) violation("silent-truncation", "bulk read of a stream with a bad frame succeeded"); }
		else outcome("bulk read", e, f0, own0, true);
		if(e && (imgs || n)) violation("failed-outputs", "bulk read failed (%s) but left outputs set", err_name(e));
		if(!e) {
			if(n != s.t.fr.size()) violation("bulk-count", "bulk read returned %zu images, there are %zu", n, s.t.fr.size());
			for(size_t k = 0; k < n; k++) { size_t at; if(!px_equal(imgs + k * w * h, s.t.fr[k], s.t.tol, &at)) violation("bulk-pixels", "bulk read: image %zu, pixel %zu is %g, should be %g", k, at, imgs[k * w * h + at], s.t.fr[k].px[at]); }
		}
		sim_free(imgs);
	}
	else if(kind == 3) {
		size_t nf;
		Outs oo;
		Detect ref = steps_file(o.name.c_str(), ty, oo, m, p, extra, &nf);
		draw_alloc_plan(cx, 24);
		Detect d = one_shot_file(o.name.c_str(), ty, oo, m, p, extra);
		cx->alloc.armed = false;
		logf("file detection -> %s (without faults: %s)", err_name(d.err), err_name(ref.err));
		if(!ref.err) { outcome("file detection", d.err, f0, own0, true); if(!d.err) compare("file detection under allocation failures", d, ref); }
		else if(!d.err) violation("one-shot-error", "file detection succeeded under allocation failures, and fails without them (%s)", err_name(ref.err));
	}
	else if(kind == 4) {
		size_t n = 1 + draw(3), w = 1 + draw(14), h = chance(1, 4) ? w : 1 + draw(14);
		std::vector<float> px; for(size_t k = 0; k < n; k++) { FrameData g = gen_frame(w, h); px.insert(px.end(), g.px.begin(), g.px.end()); }
		Outs oo; std::vector<float> q = px;
		Detect ref = one_shot_buffer(q.data(), n, w, h, oo, m, p, extra + w * h * n * 400);
		if(ref.err) violation("spurious-error", "buffer detection of %zux%zu failed without a cause: %s", w, h, err_name(ref.err));
		draw_alloc_plan(cx, 16);
		if(chance(1, 10)) { draw_lib_plan(cx, 2); }
		Detect d = one_shot_buffer(q.data(), n, w, h, oo, m, p, extra + w * h * n * 400);
		cx->alloc.armed = false; cx->lib.armed = false;
		logf("buffer detection of %zu %zux%zu -> %s", n, w, h, err_name(d.err));
		outcome("buffer detection", d.err, f0, own0, true);
		if(!d.err) compare("buffer detection under allocation failures", d, ref);
	}
	else if(kind == 5) {
		draw_alloc_plan(cx, 3);
		RDParameters* q = resdet_alloc_default_parameters();
		if(!q && cx->faults() == f0) violation("spurious-error", "allocating parameters failed without a cause");
		if(q && cx->faults() != f0) violation("failed-outputs", "allocating parameters succeeded although memory ran out");
		cx->alloc.armed = false;
		if(q) { if(resdet_parameters_set_range(q, 3) || resdet_parameters_set_threshold(q, .25f) || resdet_parameters_set_compression_filter(q, 31)) violation("rejected-parameter", "a valid parameter was rejected"); sim_free(q); }
		for(RDParameters* z : { (RDParameters*)nullptr }) if(resdet_parameters_set_range(z, 3) != RDEPARAM || resdet_parameters_set_threshold(z, .5f) != RDEPARAM || resdet_parameters_set_compression_filter(z, 1) != RDEPARAM) violation("accepted-null", "setting a value of null parameters succeeded");
	}
	else {                                           // a session under memory pressure all along
		size_t w = 1 + draw(14), h = chance(1, 4) ? w : 1 + draw(14);
		FrameData g = gen_frame(w, h);
		Probe pr = probe_frame(g, mi, ps.eff_range(mi));
		SessionModel sm(w, h, mi, ps);
		draw_alloc_plan(cx, 20);
		RDAnalysis* a = nullptr; int e = 0;
		for(int t = 0; t < 3 && !a; t++) {
			uint64_t ff = cx->faults(), oo = cx->own_alloc_faults; size_t lv = ledger_count();
			e = 55; a = resdet_create_analysis(m, w, h, p, &e);
			logf("create -> %s", err_name(e));
			outcome("creating an analysis", e, ff, oo, true);
			if((a != nullptr) != !e) violation("create-inconsistent", "creating an analysis returned %s with %s", a ? "a session" : "null", err_name(e));
			if(!a && ledger_count() != lv) violation("leak", "failed creation kept: %s", ledger_dump().c_str());
			if(!a && t == 1) cx->alloc.armed = false;
		}
		if(a) {
			for(unsigned i = 0, n = (unsigned)range(1, 6); i < n; i++) {
				uint64_t ff = cx->faults(), oo = cx->own_alloc_faults;
				if(chance(2, 3)) { std::vector<float> px = g.px; e = resdet_analyze_image(a, px.data()); logf("analyze -> %s", err_name(e)); outcome("analysing", e, ff, oo, true); if(!e) sm.add(pr); }
				else if(sm.n) {
					RDResolution* rw,* rh; size_t cw, ch;
					e = resdet_analysis_results(a, &rw, &cw, &rh, &ch);
					logf("results -> %s", err_name(e));
					outcome("results", e, ff, oo, true);
					if(e && (rw || rh || cw || ch)) violation("failed-outputs", "results failed but left outputs set");
					if(!e) { auto t = judge_dimension(sm, true, rw, cw); if(t.empty()) t = judge_dimension(sm, false, rh, ch); if(!t.empty()) violation("wrong-results", "under memory pressure: %s", t.c_str()); sim_free(rw); sim_free(rh); }
				}
			}
			cx->alloc.armed = false;
			if(sm.n) { RDResolution* rw,* rh; size_t cw, ch; e = resdet_analysis_results(a, &rw, &cw, &rh, &ch); if(e) violation("spurious-error", "results failed after memory was available again: %s", err_name(e)); auto t = judge_dimension(sm, true, rw, cw); if(t.empty()) t = judge_dimension(sm, false, rh, ch); if(!t.empty()) violation("wrong-results", "after memory was available again: %s", t.c_str()); sim_free(rw); sim_free(rh); }
			resdet_destroy_analysis(a);
		}
	}
	cx->alloc = AllocPlan(); cx->lib = LibPlan();
	if(ledger_count() != live0) violation("leak", "resources kept after an operation ran out of memory: %s", ledger_dump().c_str());
	// memory is back: everything works, nothing else noticed
	if(bystander) {
		bh.faults0 = cx->faults();
		if(bh.im) for(size_t i = 0; i < by.t.fr.size() + 1; i++) bh.read();
		bh.close();
		std::vector<float> px = bf.px;
		if(RDError e = resdet_analyze_image(ba, px.data())) violation("spurious-error", "a bystander session failed: %s", err_name(e));
		bm->add(probe_frame(bf, bmi, bps.eff_range(bmi)));
		RDResolution* rw,* rh; size_t cw, ch;
		if(RDError e = resdet_analysis_results(ba, &rw, &cw, &rh, &ch)) violation("spurious-error", "a bystander session failed: %s", err_name(e));
		auto t = judge_dimension(*bm, true, rw, cw); if(t.empty()) t = judge_dimension(*bm, false, rh, ch);
		if(!t.empty()) violation("wrong-results", "a bystander session was affected: %s", t.c_str());
		sim_free(rw); sim_free(rh);
		resdet_destroy_analysis(ba);
	}
	if(chance(1, 3)) {
		Handle h; h.label = "[after] "; h.t = &s.t; h.file = f;
		if(h.open(o)) for(size_t i = 0; i < s.t.fr.size() + 1; i++) h.read();
		h.close();
	}
	sim_free(p);
	finish_run(true);
}
