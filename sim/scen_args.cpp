// C18: missing and unusable arguments among good calls, and optional arguments left out.
#include "model.h"
#include <algorithm>
#include <cfloat>
#include <climits>

namespace {
struct Stream {
	Sample s; OpenSpec o; Handle h; bool sin = false;
	RDImage* twin = nullptr; size_t tw = 0, th = 0; float* tbuf = nullptr;     // the same calls without the optional arguments
};
struct Ana { SessionModel m; RDAnalysis* a = nullptr; std::vector<FrameData> fr; std::vector<Probe> pr; Ana(const SessionModel& x) : m(x) {} };
}
static const char* type_of(const OpenSpec& o) { return o.type.empty() ? nullptr : o.type.c_str(); }
// a call that cannot work: fails with one of the codes, keeps nothing
static void must_fail(const char* what, RDError e, std::initializer_list<int> codes, size_t live0, uint64_t f0) {
	logf("%s -> %s", what, err_name(e));
	hist(hash_str(what) + e);
	count("probe.bad_argument"); R->nontrivial = 1;
	if(!valid_error(e)) violation("bad-error-code", "%s gave error %d", what, e);
	if(!e) violation("accepted-bad-argument", "%s succeeded", what);
	if(ledger_count() != live0) violation("leak", "%s failed (%s) but kept: %s", what, err_name(e), ledger_dump().c_str());
	if(cx->faults() != f0 && e == RDENOMEM) return;
	for(int c : codes) if(c == e) return;
	violation("wrong-error", "%s gave %s", what, err_name(e));
}
static void bad_open(std::vector<std::unique_ptr<Stream>>& ss) {
	Stream& s = *pick(ss);
	size_t w = 7, h = 9; float* b = (float*)16; RDError e = 99;
	const char* name = s.o.name.c_str(),* type = type_of(s.o),* reader = s.o.by_reader ? s.o.reader.c_str() : fm_reader[s.s.fm];
	size_t* pw = &w,* ph = &h; float** pb = chance(2, 3) ? &b : nullptr; RDError* pe = chance(2, 3) ? &e : nullptr;
	unsigned k = (unsigned)draw(9);
	std::initializer_list<int> codes = { RDEPARAM };
	static const std::initializer_list<int> unsupp = { RDEUNSUPP };
	bool by_reader = draw(2);
	char what[120];
	const char* label = "";
	std::string other;
	switch(k) {
		case 0: pw = nullptr; label = "no width"; break;
		case 1: ph = nullptr; label = "no height"; break;
		case 2: pw = ph = nullptr; label = "no dimensions"; break;
		case 3: name = nullptr; label = "no name"; break;
		case 4: name = nullptr; type = nullptr; label = "no name and type"; break;
		case 5: by_reader = true; reader = nullptr; label = "no reader name"; break;
		case 6: {        // a reader that does not exist: parts and extensions of names, and names of formats
			static const char* x[] = { "", "PN", "PGM ", "PGMX", " Y4M", "PFMY4M", "libpngx", "libpn", "png", "ffmpeg2", "Magick", "null", "list" };
			by_reader = true; reader = x[draw(13)]; label = "unknown reader"; codes = unsupp; break; }
		case 7: {        // nothing claims this type, unless a general decoder does, which finds no such file
			static const char* x[] = { "xyz", "", "pg", "pgmm", "y4", "y4mm", "image/x-nothing", "video/", "/", "image/PNGX", "pf", "pfmx" };
			by_reader = false; type = x[draw(12)]; label = "unknown type"; name = "not-there"; if(!variant_libs) codes = unsupp; break; }
		default: name = "not-there"; if(!type) type = s.s.ext.c_str(); label = "missing file"; break;
	}
	if(by_reader && k == 4) { reader = nullptr; }
	snprintf(what, sizeof what, "open%s with %s%s%s", by_reader ? " by reader" : "", label, pb ? "" : ", no buffer", pe ? "" : ", no error");
	size_t live0 = ledger_count(); uint64_t f0 = cx->faults();
	bool oom = chance(1, 10); if(oom) draw_alloc_plan(cx, 3);
	op_budget(0, 0, 2000000);
	RDImage* im = by_reader ? resdet_open_image_with_reader(name, reader, pw, ph, pb, pe) : resdet_open_image(name, type, pw, ph, pb, pe);
	op_done();
	cx->alloc = AllocPlan();
	if(im) violation("accepted-bad-argument", "%s succeeded", what);
	if((pw && w) || (ph && h)) violation("failed-outputs", "%s left dimensions %zux%zu", what, pw ? w : 0, ph ? h : 0);
	if(pb && b) violation("failed-outputs", "%s left the buffer pointer set", what);
	if(!pe) { logf("%s -> null", what); if(ledger_count() != live0) violation("leak", "%s kept: %s", what, ledger_dump().c_str()); count("probe.bad_argument"); return; }
	if(k == 8 || (k == 7 && variant_libs)) {        // whatever the reader says about a file that does not exist
		if(!e || !valid_error(e)) violation("bad-error-code", "%s gave error %d", what, e);
		if(k == 8 && s.s.fm <= FM_JPEG && e != -ENOENT && cx->faults() == f0) violation("wrong-error", "%s gave %s", what, err_name(e));
		logf("%s -> %s", what, err_name(e));
		if(ledger_count() != live0) violation("leak", "%s kept: %s", what, ledger_dump().c_str());
		return;
	}
	must_fail(what, e, codes, live0, f0);
}
static void bad_read(std::vector<std::unique_ptr<Stream>>& ss) {
	Stream& s = *pick(ss);
	if(!s.h.im) return;
	float px[4] = { 5, 5, 5, 5 }; RDError e = 99; bool with = chance(2, 3);
	size_t live0 = ledger_count(); uint64_t f0 = cx->faults();
	bool r; const char* what;
	unsigned calls = 0;
	auto cb = [](void* c, uint64_t) { ++*(unsigned*)c; };
	switch(draw(4)) {
		case 0: what = "read into no buffer"; r = resdet_read_image_frame(s.h.im, nullptr, with ? &e : nullptr); break;
		case 1: what = "read from no image"; r = resdet_read_image_frame(nullptr, px, with ? &e : nullptr); break;
		case 2: what = "read with nothing"; r = resdet_read_image_frame(nullptr, nullptr, with ? &e : nullptr); break;
		default: what = "seek in no image"; r = resdet_seek_frame(nullptr, draw(3), cb, &calls, with ? &e : nullptr);
	}
	if(r) violation("accepted-bad-argument", "%s returned true", what);
	if(calls) violation("progress-callback", "%s called the progress function", what);
	for(float v : px) if(v != 5) violation("failed-outputs", "%s wrote into the buffer", what);
	if(with) must_fail(what, e, { RDEPARAM }, live0, f0); else logf("%s -> false", what);
}
static void bad_bulk(std::vector<std::unique_ptr<Stream>>& ss) {
	Stream& s = *pick(ss);
	size_t live0 = ledger_count(); uint64_t f0 = cx->faults();
	size_t w = 7, h = 9, n = 5; float* img = (float*)16;
	RDResolution* rw = (RDResolution*)16,* rh = (RDResolution*)16; size_t cw = 9, ch = 9;
	std::vector<float> px(6, .5f);
	const char* what; RDError e; std::initializer_list<int> codes = { RDEPARAM };
	static const std::initializer_list<int> noimg = { RDENOIMG }, inval = { RDEINVAL };
	bool bulk = false, onlyw = false, onlyh = false;
	unsigned k = (unsigned)draw(12);
	if(k == 1 || k == 2 || k == 5 || k == 6) if(s.sin) k = 0;
	op_budget(0, 0, 2000000);
	switch(k) {
		case 0: bulk = true; what = "bulk read of no name"; e = resdet_read_image(nullptr, type_of(s.o), &img, &n, &w, &h); break;
		case 1: bulk = true; what = "bulk read without a width"; w = 0; e = resdet_read_image(s.o.name.c_str(), type_of(s.o), &img, &n, nullptr, &h); break;
		case 2: bulk = true; what = "bulk read without a height"; h = 0; e = resdet_read_image(s.o.name.c_str(), type_of(s.o), &img, &n, &w, nullptr); break;
		case 3: bulk = true; what = "bulk read without dimensions"; w = h = 0; e = resdet_read_image(s.o.name.c_str(), type_of(s.o), &img, &n, nullptr, nullptr); break;
		case 4: what = "file detection of no name"; e = resdetect_file(nullptr, type_of(s.o), &rw, &cw, &rh, &ch, nullptr, nullptr); break;
		case 5: what = "file detection without a width count"; onlyh = true; e = resdetect_file(s.o.name.c_str(), type_of(s.o), &rw, nullptr, &rh, &ch, nullptr, nullptr); break;
		case 6: what = "file detection without a height count"; onlyw = true; e = resdetect_file(s.o.name.c_str(), type_of(s.o), &rw, &cw, &rh, nullptr, nullptr, nullptr); break;
		case 7: what = "detection of no image"; e = resdetect(nullptr, draw(2), 2, 3, &rw, &cw, &rh, &ch, nullptr, nullptr); break;
		case 8: what = "detection without a width count"; onlyh = true; e = resdetect(px.data(), draw(2), 2, 3, &rw, nullptr, &rh, &ch, nullptr, nullptr); break;
		case 9: what = "detection without a height count"; onlyw = true; e = resdetect(px.data(), draw(2), 2, 3, &rw, &cw, &rh, nullptr, nullptr, nullptr); break;
		case 10: what = "detection of zero images"; codes = noimg; e = resdetect(px.data(), 0, 2, 3, &rw, &cw, &rh, &ch, nullptr, nullptr); break;
		default: { what = "detection of a side of zero"; codes = inval; bool a = draw(2), b = !a || draw(2); e = resdetect(px.data(), 1, a ? 0 : 2, b ? 0 : 3, &rw, &cw, &rh, &ch, nullptr, nullptr); }
	}
	op_done();
	if(bulk && (img || n || w || h)) violation("failed-outputs", "%s left outputs set (%zu images of %zux%zu)", what, n, w, h);
	if(!bulk && (rw || rh || (!onlyh && cw) || (!onlyw && ch))) violation("failed-outputs", "%s left outputs set", what);
	must_fail(what, e, codes, live0, f0);
}
static void bad_analysis(Ana& a) {
	size_t live0 = ledger_count(); uint64_t f0 = cx->faults();
	RDResolution* rw = (RDResolution*)16,* rh = (RDResolution*)16; size_t cw = 9, ch = 9;
	float px[1] = { .5f };
	RDError e = 99; const char* what;
	bool ow = true, oh = true, ocw = true, och = true;
	switch(draw(11)) {
		case 0: what = "results without a width count"; ocw = false; e = resdet_analysis_results(a.a, &rw, nullptr, &rh, &ch); break;
		case 1: what = "results without a height count"; och = false; e = resdet_analysis_results(a.a, &rw, &cw, &rh, nullptr); break;
		case 2: what = "results without counts"; ocw = och = false; e = resdet_analysis_results(a.a, &rw, nullptr, &rh, nullptr); break;
		case 9: what = "only height results without their count"; ow = ocw = och = false; if(draw(2)) { ocw = true; e = resdet_analysis_results(a.a, nullptr, &cw, &rh, nullptr); } else e = resdet_analysis_results(a.a, nullptr, nullptr, &rh, nullptr); break;
		case 10: what = "only width results without their count"; oh = ocw = och = false; if(draw(2)) { och = true; e = resdet_analysis_results(a.a, &rw, nullptr, nullptr, &ch); } else e = resdet_analysis_results(a.a, &rw, nullptr, nullptr, nullptr); break;
		case 3: what = "results of no session"; e = resdet_analysis_results(nullptr, &rw, &cw, &rh, &ch); break;
		case 4: what = "analysing no image"; ow = oh = ocw = och = false; e = resdet_analyze_image(a.a, nullptr); break;
		case 5: what = "analysing in no session"; ow = oh = ocw = och = false; e = resdet_analyze_image(nullptr, px); break;
		case 6: what = "analysing nothing in no session"; ow = oh = ocw = och = false; e = resdet_analyze_image(nullptr, nullptr); break;
		case 7: what = "results of no session at all"; ow = oh = ocw = och = false; e = resdet_analysis_results(nullptr, nullptr, nullptr, nullptr, nullptr); break;
		default: {
			what = "a session with a side of zero"; ow = oh = ocw = och = false;
			bool x = draw(2), y = !x || draw(2), with = draw(2);
			RDAnalysis* n = resdet_create_analysis(draw(2) ? nullptr : resdet_get_method(method_name[a.m.m]), x ? 0 : 3, y ? 0 : 3, nullptr, with ? &e : nullptr);
			if(n) violation("accepted-bad-argument", "%s was created", what);
			if(!with) e = RDEINVAL;
			must_fail(what, e, { RDEINVAL, RDEPARAM }, live0, f0);
			return; }
	}
	if((ow && rw) || (oh && rh) || (ocw && cw) || (och && ch)) violation("failed-outputs", "%s left outputs set", what);
	must_fail(what, e, { RDEPARAM }, live0, f0);
}
static void bad_setter(RDParameters* q) {
	size_t live0 = ledger_count(); uint64_t f0 = cx->faults();
	static const float thr[] = { NAN, -1, INFINITY, -INFINITY, 1.0000001f, 2, 55, -FLT_MIN, -1e-30f, FLT_MAX, -0.25f };
	RDParameters* p = chance(1, 4) ? nullptr : q;
	char what[80]; RDError e;
	switch(draw(3)) {
		case 0: { size_t r = p ? 0 : draw(3); snprintf(what, sizeof what, "range %zu%s", r, p ? "" : " of nothing"); e = resdet_parameters_set_range(p, r); break; }
		case 1: { float t = p ? thr[draw(11)] : .5f; snprintf(what, sizeof what, "threshold %.9g%s", t, p ? "" : " of nothing"); e = resdet_parameters_set_threshold(p, t); break; }
		default: { unsigned v = p ? 32 + (unsigned)draw(224) : (unsigned)draw(5); snprintf(what, sizeof what, "filter %u%s", v, p ? "" : " of nothing"); e = resdet_parameters_set_compression_filter(p, (uint8_t)v); break; }
	}
	must_fail(what, e, { RDEPARAM }, live0, f0);
}
// names, tables and messages
static void ask() {
	switch(draw(7)) {
		case 0: { int e = (int)draw(12); const char* s = resdet_error_str(e); int top = (int)resdet_get_max_error();
			logf("message %d -> %s", e, s ? s : "null");
			if(top < RDENOIMG) violation("error-table", "the largest error is %d", top);
			if((s != nullptr) != (e <= top)) violation("error-table", "error %d of %d has %s message", e, top, s ? "a" : "no");
			if(s && e) { if(!*s) violation("error-table", "error %d has an empty message", e); for(int i = 1; i <= top; i++) if(i != e && !strcmp(s, resdet_error_str(i))) violation("error-table", "errors %d and %d have the same message", e, i); }
			break; }
		case 1: { int n = 1 + (int)draw(130); const char* s = resdet_error_str(-n); std::string want = strerror(n); s = resdet_error_str(-n); logf("message -%d -> %s", n, s ? s : "null"); if(!s || want != s) violation("error-table", "errno %d is reported as %s", n, s ? s : "null"); break; }
		case 2: { static const int big[] = { 8, 100, 255, 256, 65536, 65537, INT_MAX, INT_MAX - 1, 1 << 30 }; int e = big[draw(9)]; if(e <= (int)resdet_get_max_error()) break; const char* s = resdet_error_str(e); logf("message %d -> %s", e, s ? s : "null"); if(s) violation("error-table", "%d is no error but has the message %s", e, s); break; }
		case 3: { static const char* bad[] = { "", "Sign", "SIGN", "sig", "signn", " sign", "mag ", "zero", "zeroxx", "original", "default", "null" }; const char* n = bad[draw(12)]; RDMethod* m = resdet_get_method(n); logf("method \"%s\" -> %s", n, m ? m->name : "null"); count("probe.bad_argument"); if(m) violation("unknown-method", "the method \"%s\" does not exist but is %s", n, m->name ? m->name : "unnamed"); break; }
		case 4: {
			RDMethod* m = resdet_methods(); size_t n = 0;
			if(resdet_get_method(nullptr) != m) violation("method-table", "the default method is not the first");
			for(; m->name; m++, n++) {
				if(resdet_get_method(m->name) != m) violation("method-table", "looking up %s gives another method", m->name);
				if(n < M_COUNT && (strcmp(m->name, method_name[n]) || fabsf(m->threshold - method_threshold[n]) > 1e-6f)) violation("method-table", "method %zu is %s with a threshold of %g", n, m->name, m->threshold);
				if(!m->func || !(m->threshold >= 0 && m->threshold <= 1)) violation("method-table", "%s has no function or a threshold of %g", m->name, m->threshold);
			}
			logf("%zu methods", n);
			if(n < M_COUNT) violation("method-table", "only %zu methods", n);
			break; }
		case 5: {
			const char* const* l = resdet_list_image_readers(); size_t n = 0;
			for(; l[n]; n++) {
				size_t w = 3, h = 3; RDError e = 0;
				RDImage* im = resdet_open_image_with_reader("not-there", draw_case(l[n]).c_str(), &w, &h, nullptr, &e);
				if(im || !e || e == RDEUNSUPP || e == RDEPARAM) violation("reader-table", "the listed reader %s cannot be asked for: %s", l[n], err_name(e));
				if(w || h) violation("failed-outputs", "a failed open left dimensions");
			}
			logf("%zu readers", n);
			if(n < 3) violation("reader-table", "only %zu readers", n);
			break; }
		default: {
			size_t live0 = ledger_count();
			resdet_close_image(nullptr); resdet_destroy_analysis(nullptr);
			const char* v = resdet_libversion(); size_t r = resdet_default_range();
			logf("closed nothing; version %s, range %zu", v, r);
			if(!v || !*v || !r) violation("misc", "no version or default range");
			if(ledger_count() != live0) violation("misc", "closing nothing changed something");
		}
	}
	hist(hash_str("ask") + draw(1));
}
// the same call on the twin without its optional arguments must do the same
static void both(Stream& s) {
	Handle& h = s.h;
	if(!h.im || !h.buf) return;
	size_t k = h.outcomes.size();
	bool seek = chance(1, 3), prog = false; uint64_t n = 0;
	bool errored = h.errored;
	bool r;
	if(seek) { n = draw(4); prog = draw(2); r = h.seek(n, prog); } else r = h.read();
	if(!s.twin || s.h.unknown) return;
	uint64_t px = (uint64_t)h.w * h.h;
	if(!seek) for(uint64_t i = 0; i < px; i++) s.tbuf[i] = 123.5f;
	op_budget(h.file ? h.file->size : 0, px);
	bool r2 = seek ? resdet_seek_frame(s.twin, n, nullptr, chance(1, 2) ? &n : nullptr, nullptr) : resdet_read_image_frame(s.twin, s.tbuf, nullptr);
	op_done();
	logf("%stwin -> %s", h.label.c_str(), r2 ? "true" : "false");
	count("probe.twin");
	(void)k;
	if(errored) return;                    // both are past an error
	if(r != r2) violation("optional-argument", "%s%s with all arguments returned %s, without the optional ones %s", h.label.c_str(), seek ? "seek" : "read", r ? "true" : "false", r2 ? "true" : "false");
	if(r && !seek && memcmp(h.buf, s.tbuf, px * 4)) violation("optional-argument", "%sread without an error pointer delivered another frame", h.label.c_str());
}
void scen_args() {
	std::vector<std::unique_ptr<Stream>> ss; std::vector<StreamCfg> cfgs;
	size_t n = 1 + draw(2);
	for(size_t i = 0; i < n; i++) {
		auto s = std::make_unique<Stream>();
		Limits l; l.maxdim = 9;
		bool faults = chance(1, 3);
		s->s = gen_sample(faults ? draw_format(true) : draw_format(), l);
		if(faults && s->s.fm > FM_Y4M) faults = false;
		StreamCfg cfg = install(s->s, faults, &s->sin)->cfg;
		if(i) s->sin = false;
		cfg.chunk_mode = 0; cfg.seek_fail_den = 0;               // a twin meets the same faults at the same places
		s->o = draw_open(s->s, s->sin, true);
		if(i) { if(s->o.by_reader || !s->o.type.empty()) s->o.name = "second"; else s->o.name = "second-" + s->o.name.substr(s->o.name.rfind('/') == std::string::npos ? 0 : s->o.name.rfind('/') + 1); }
		s->h.t = &s->s.t; s->h.label = "[" + std::to_string(i) + "] ";
		ss.push_back(std::move(s)); cfgs.push_back(cfg);
	}
	for(size_t i = 0; i < n; i++) {
		Stream& s = *ss[i];
		s.h.file = vfs_add(s.sin ? "<stdin>" : s.o.name, s.s.data, cfgs[i]);
		if(s.sin) sim_stdin_set(s.h.file);
	}
	// a parameters object set among rejected values
	MethodId m = (MethodId)draw(M_COUNT);
	ParamSpec ps = draw_params(); ps.null = false;
	if(ps.set_range && ps.range > 64) ps.range = 5;
	std::unique_ptr<Ana> a;
	{
		size_t r = ps.eff_range(m);
		a = std::make_unique<Ana>(SessionModel(1 + draw(2 * r + 6), 1 + draw(2 * r + 6), m, ps));
		RDParameters* q = resdet_alloc_default_parameters();
		std::vector<int> todo;
		if(ps.set_range) todo.push_back(0);
		if(ps.set_threshold) todo.push_back(1);
		if(chance(1, 2)) todo.push_back(2);
		while(!todo.empty() || chance(1, 3)) {
			if(todo.empty() || chance(1, 2)) { bad_setter(q); continue; }
			size_t i = draw(todo.size()); int t = todo[i]; todo.erase(todo.begin() + i);
			RDError e = 0;
			if(t == 0) { static const size_t big[] = { 255, 256, 257, 65535, 65536, 1ull << 31, 1ull << 32, 1ull << 33, 1ull << 48, 1ull << 63, ~0ull, ~0ull << 32 }; if(chance(1, 3)) e = resdet_parameters_set_range(q, chance(1, 3) ? big[draw(12)] : 1 + draw(20)); if(!e) e = resdet_parameters_set_range(q, ps.range); }
			if(t == 1) { if(chance(1, 3)) { static const float t[] = { 0, 1, -0.f, FLT_MIN, 0x1p-149f, 0.99999994f, FLT_EPSILON }; e = resdet_parameters_set_threshold(q, chance(1, 3) ? t[draw(7)] : (float)draw(101) / 100); } if(!e) e = resdet_parameters_set_threshold(q, ps.threshold); }
			if(t == 2) { e = resdet_parameters_set_compression_filter(q, (uint8_t)draw(32)); if(!e) e = resdet_parameters_set_compression_filter(q, 0); }
			if(e) violation("rejected-parameter", "a valid value was rejected: %s", err_name(e));
		}
		logf("parameters%s", ps.str().c_str()); hist(hash_str(ps.str().c_str()) + m);
		RDError e = 99; bool with = draw(2);
		bool def = m == M_SIGN && draw(2);
		a->a = resdet_create_analysis(def ? nullptr : resdet_get_method(method_name[m]), a->m.w, a->m.h, q, with ? &e : nullptr);
		sim_free(q);
		if(!a->a || (with && e)) violation("spurious-error", "creating a %zux%zu analysis failed without a cause", a->m.w, a->m.h);
		logf("session %s %zux%zu%s%s", method_name[m], a->m.w, a->m.h, def ? " by default" : "", with ? "" : ", no error pointer");
	}
	unsigned ops = (unsigned)range(2, 24);
	for(unsigned i = 0; i < ops; i++) switch(draw(8)) {
		case 0: {                              // open a stream with and without the optional arguments
			Stream& s = *pick(ss);
			if(s.h.im || s.h.errored) { both(s); break; }
			if(s.h.open(s.o) && !s.sin && !s.h.unknown) {
				bool own = s.s.fm >= FM_AV;    // libav and MagickWand streams are heavier: still twinned, less often
				if(own && !chance(1, 3)) break;
				s.tw = s.th = 3;
				float* b = nullptr; bool want = draw(2);
				op_budget(s.h.file->size, 0);
				s.twin = s.o.by_reader ? resdet_open_image_with_reader(s.o.name.c_str(), s.o.reader.c_str(), &s.tw, &s.th, want ? &b : nullptr, nullptr) : resdet_open_image(s.o.name.c_str(), type_of(s.o), &s.tw, &s.th, want ? &b : nullptr, nullptr);
				op_done();
				logf("%stwin opened without %s -> %s", s.h.label.c_str(), want ? "an error pointer" : "a buffer and an error pointer", s.twin ? "ok" : "null");
				if(!s.twin || s.tw != s.h.w || s.th != s.h.h) violation("optional-argument", "%sopening without the optional arguments gave %s (%zux%zu)", s.h.label.c_str(), s.twin ? "other dimensions" : "nothing", s.tw, s.th);
				if(want && !b) violation("open-outputs", "%sthe twin's buffer is missing", s.h.label.c_str());
				if(b) sim_free(b);
				s.tbuf = (float*)malloc(s.h.w * s.h.h * 4);
				s.twin = s.twin;
			}
			break; }
		case 1: both(*pick(ss)); break;
		case 2: bad_open(ss); break;
		case 3: bad_read(ss); break;
		case 4: bad_bulk(ss); break;
		case 5: bad_analysis(*a); break;
		case 6: ask(); break;
		default: {
			FrameData f = gen_frame(a->m.w, a->m.h);
			Probe p = probe_frame(f, a->m.m, a->m.p.eff_range(a->m.m));
			std::vector<float> px = f.px;
			RDError e = resdet_analyze_image(a->a, px.data());
			logf("analysed %s -> %s", f.kind.c_str(), err_name(e));
			for(float v : f.px) { uint32_t u; memcpy(&u, &v, 4); hist(u); }
			if(e) violation("spurious-error", "analysing a finite frame failed without a cause: %s", err_name(e));
			a->m.add(p);
		}
	}
	// everything still works as if the bad calls had never been made
	for(auto& s : ss) for(size_t i = 0; i < s->s.t.fr.size() + 1 && s->h.im && !s->h.errored; i++) both(*s);
	{
		RDResolution* rw = nullptr,* rh = nullptr; size_t cw = 9, ch = 9;
		unsigned form = (unsigned)draw(4);     // both, one, or none of the outputs
		bool ww = form != 1 && form != 3, wh = form != 2 && form != 3;
		RDError e = resdet_analysis_results(a->a, ww ? &rw : nullptr, ww || draw(2) ? &cw : nullptr, wh ? &rh : nullptr, wh || draw(2) ? &ch : nullptr);
		logf("results -> %s", err_name(e));
		if(!a->m.n) { if(e != RDENOIMG) violation("wrong-error", "results of a session without frames gave %s", err_name(e)); }
		else {
			if(e) violation("spurious-error", "results failed without a cause: %s", err_name(e));
			std::string t;
			if(ww) t = judge_dimension(a->m, true, rw, cw);
			if(t.empty() && wh) t = judge_dimension(a->m, false, rh, ch);
			if(!t.empty()) violation("wrong-results", "%s method after %zu frames of %zux%zu: %s", method_name[a->m.m], a->m.n, a->m.w, a->m.h, t.c_str());
			sim_free(rw); sim_free(rh);
		}
	}
	resdet_destroy_analysis(a->a);
	for(auto& s : ss) { s->h.close(); resdet_close_image(s->twin); free(s->tbuf); }
	if(!sim_stdin_open()) violation("stdin-closed", "standard input was closed");
	if(ledger_count()) violation("leak", "%zu resources still held after everything was closed: %s", ledger_count(), ledger_dump().c_str());
}
