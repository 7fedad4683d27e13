// C14: what the Python half of the simulator (sim/py/driver.py) needs of this one. Built into a shared object of its own.
#include "model.h"
#include "heap.h"
#include <dlfcn.h>
#include <algorithm>
#include <set>

#define API extern "C" __attribute__((visibility("default")))
static void (*g_cb)();
void scen_python() { g_heap_judge = false; g_cb(); }

API void pb_set_callback(void (*f)()) { g_cb = f; }
API uint64_t pb_draw(uint64_t n) { return draw(n); }
API void pb_log(const char* s) { logf("%s", s); }
API void pb_hist(uint64_t v) { hist(v); }
API void pb_nontrivial() { R->nontrivial = 1; }
API void pb_count(const char* s) { count(s); }
API void pb_violation(const char* cls, const char* msg) { violation(cls, "%s", msg); }
API void pb_harness_error(const char* msg) { harness_error("%s", msg); }
API int sim_driver_main(int argc, char** argv);

// ---------------------------------------------------------------- what crossed the boundary
struct Event { std::string name; int err; int64_t ret; std::vector<RDResolution> w, h; bool res = false; };
static std::vector<Event>& events() { static auto* v = new std::vector<Event>; return *v; }
API void pb_event(const char* name, int err, int64_t ret) { events().push_back(Event{ name, err, ret }); hist(hash_str(name) + err * 31 + ret); }
API void pb_event_results(const char* name, int err, const RDResolution* rw, size_t cw, const RDResolution* rh, size_t ch) {
	Event e{ name, err, 0 };
	e.res = true;
	if(!err) { if(rw) e.w.assign(rw, rw + cw); if(rh) e.h.assign(rh, rh + ch); }
	events().push_back(e);
	hist(hash_str(name) + err * 31 + cw * 7 + ch);
}
API void pb_events_clear() { events().clear(); }
API size_t pb_events() { return events().size(); }
API const char* pb_event_name(size_t i) { return events()[i].name.c_str(); }
API int pb_event_err(size_t i) { return events()[i].err; }
API int64_t pb_event_ret(size_t i) { return events()[i].ret; }
API int pb_event_has_results(size_t i) { return events()[i].res; }
API size_t pb_event_count(size_t i, int h) { return h ? events()[i].h.size() : events()[i].w.size(); }
API size_t pb_event_index(size_t i, int h, size_t k) { return (h ? events()[i].h : events()[i].w)[k].index; }
API float pb_event_confidence(size_t i, int h, size_t k) { return (h ? events()[i].h : events()[i].w)[k].confidence; }
API void* pb_malloc(size_t n) { void* p = sim_malloc(n); if(!p && n) pb_event("malloc", RDENOMEM, 0); return p; }
API void pb_free(void* p) { sim_free(p); }

// ---------------------------------------------------------------- resources and faults
API uint64_t pb_held() { return ledger_count(); }
API const char* pb_held_list() { static std::string s; s = ledger_dump(); return s.c_str(); }
API uint64_t pb_block_size(void* p) { return ledger_size(p); }
API uint64_t pb_faults() { return cx->faults(); }
API void pb_alloc_plan(unsigned span) { draw_alloc_plan(cx, span); }
API void pb_disarm() { cx->alloc.armed = false; cx->lib.armed = false; }

// ---------------------------------------------------------------- streams and what an undisturbed copy of them holds
struct PyStream { Sample s; std::string name, ref, type, reader; int open_err = 0, end_err = 0; size_t w = 0, h = 0; std::vector<std::vector<float>> fr; bool clean = true, truth_ok = true; };
static std::vector<std::unique_ptr<PyStream>>& streams() { static auto* v = new std::vector<std::unique_ptr<PyStream>>; return *v; }
struct Quiet {                                   // reference calls: no faults, no trace in the account
	AllocPlan a; LibPlan l; Ctx* c; Ctx own;
	Quiet() { c = cx; own.id = 99; cx = &own; }
	~Quiet() { cx = c; }
};
static void read_reference(PyStream& p) {
	Quiet q;
	float* buf = nullptr;
	RDImage* im = p.reader.size() ? resdet_open_image_with_reader(p.ref.c_str(), p.reader.c_str(), &p.w, &p.h, &buf, &p.open_err) : resdet_open_image(p.ref.c_str(), p.type.size() ? p.type.c_str() : nullptr, &p.w, &p.h, &buf, &p.open_err);
	if(!im) return;
	size_t n = p.w * p.h;
	while(p.fr.size() < 40 && n < (1 << 22) && resdet_read_image_frame(im, buf, &p.end_err)) p.fr.push_back(std::vector<float>(buf, buf + n));
	if(p.fr.size() == 40 || n >= (1 << 22)) p.truth_ok = false;
	resdet_close_image(im);
	sim_free(buf);
}
// kind 0: undisturbed, 1: failing disk or pipe, 2: damaged bytes, 3: missing or not openable
API int pb_stream(int kind) {
	auto p = std::make_unique<PyStream>();
	Limits l; if(chance(1, 6)) l.maxdim = 30;
	p->s = gen_sample(draw_format(), l);
	Sample& s = p->s;
	if(kind == 2) {
		R->nontrivial = 1; p->clean = false;
		auto d = std::make_shared<Bytes>(*s.data);
		if(chance(1, 2)) { d->resize(draw(d->size() + 1)); s.note += " truncated"; count("fault.truncation"); }
		else { mutate(*d, s.marks, &s.note); count("fault.damaged_bytes"); }
		std::swap(s.data, d);
		if(!tame(s)) s.data = d;
	}
	OpenSpec o = draw_open(s, false, true);
	static const char* dirs[] = { "", "dir/", "d\xc3\xbc" "r/", "raw\xff/", "a b/" };
	char pre[32]; snprintf(pre, sizeof pre, "%s%zu/", dirs[draw(5)], streams().size());
	p->name = std::string(pre) + o.name;
	p->ref = std::string("ref") + pre + o.name;
	p->type = o.type; if(o.by_reader) p->reader = o.reader;
	bool file_only = s.note.find("(file only)") != std::string::npos;
	StreamCfg c = draw_transport(!file_only, false, kind == 1, s.data->size(), s.marks);
	if(s.fm == FM_AV) c.seek_fail_den = 0;
	SimFile* f = vfs_add(p->name, s.data, c);
	StreamCfg plain; vfs_add(p->ref, s.data, plain);
	if(kind == 1) p->clean = false;
	if(kind == 3) {
		p->clean = false;
		static const int es[] = { EACCES, EMFILE, EIO, EISDIR, ENFILE, ELOOP, ENAMETOOLONG };
		if(chance(1, 2)) f->exists = false; else f->cfg.open_errno = es[draw(7)];
	}
	logf("stream %zu: %s%s, %zu bytes, %zu frames of %zux%zu; %s; %s%s", streams().size(), fm_name[s.fm], s.note.c_str(), s.data->size(), s.t.fr.size(), s.t.w, s.t.h, cfg_str(f->cfg).c_str(), p->reader.size() ? "reader " : p->type.size() ? "type " : "by name", p->reader.size() ? p->reader.c_str() : p->type.c_str());
	loghash(crc_bytes(*s.data));
	hist(crc_bytes(*s.data)); hist(hash_str(cfg_str(f->cfg).c_str()));
	read_reference(*p);
	vfs_find(p->ref);
	if(cx->lib.armed) cx->lib.armed = false;
	streams().push_back(std::move(p));
	return (int)streams().size() - 1;
}
API const char* pb_s_name(int i) { return streams()[i]->name.c_str(); }
API const char* pb_s_ref(int i) { return streams()[i]->ref.c_str(); }
API const char* pb_s_type(int i) { return streams()[i]->type.c_str(); }
API const char* pb_s_reader(int i) { return streams()[i]->reader.c_str(); }
API int pb_s_open_err(int i) { return streams()[i]->open_err; }
API int pb_s_end_err(int i) { return streams()[i]->end_err; }
API size_t pb_s_w(int i) { return streams()[i]->w; }
API size_t pb_s_h(int i) { return streams()[i]->h; }
API size_t pb_s_frames(int i) { return streams()[i]->fr.size(); }
API const float* pb_s_frame(int i, size_t k) { return streams()[i]->fr[k].data(); }
API int pb_s_clean(int i) { return streams()[i]->clean; }
API int pb_s_known(int i) { return streams()[i]->truth_ok; }
API int pb_s_single(int i) { return streams()[i]->s.t.single; }
API void pb_frame(size_t w, size_t h, float* out) { FrameData f = gen_frame(w, h); std::copy(f.px.begin(), f.px.end(), out); }

// ---------------------------------------------------------------- the same calls made directly
static std::vector<RDResolution> g_rw, g_rh;
struct PbParams { int null; int has_range; uint64_t range; int has_threshold; float threshold; int has_filter; int filter; };
static RDParameters* make(const PbParams* s, int* err) {
	if(s->null) return nullptr;
	RDParameters* p = resdet_alloc_default_parameters();
	*err = 0;
	if(!*err && s->has_range) *err = resdet_parameters_set_range(p, s->range);
	if(!*err && s->has_threshold) *err = resdet_parameters_set_threshold(p, s->threshold);
	if(!*err && s->has_filter) *err = resdet_parameters_set_compression_filter(p, (uint8_t)s->filter);
	return p;
}
static int keep(int err, RDResolution* rw, size_t cw, RDResolution* rh, size_t ch) {
	g_rw.clear(); g_rh.clear();
	if(!err) { g_rw.assign(rw, rw + cw); g_rh.assign(rh, rh + ch); sim_free(rw); sim_free(rh); }
	return err;
}
API int pb_ref_detect(float* px, size_t n, size_t w, size_t h, const char* method, const PbParams* s) {
	Quiet q;
	int e = 0; RDParameters* p = make(s, &e);
	RDResolution* rw = nullptr,* rh = nullptr; size_t cw = 0, ch = 0;
	if(!e) e = resdetect(px, n, w, h, &rw, &cw, &rh, &ch, *method ? resdet_get_method(method) : nullptr, p);
	sim_free(p);
	return keep(e, rw, cw, rh, ch);
}
API int pb_ref_detect_file(int i, const char* type, const char* method, const PbParams* s) {
	Quiet q;
	int e = 0; RDParameters* p = make(s, &e);
	RDResolution* rw = nullptr,* rh = nullptr; size_t cw = 0, ch = 0;
	if(!e) e = resdetect_file(streams()[i]->ref.c_str(), *type ? type : nullptr, &rw, &cw, &rh, &ch, *method ? resdet_get_method(method) : nullptr, p);
	sim_free(p);
	return keep(e, rw, cw, rh, ch);
}
API size_t pb_ref_count(int h) { return h ? g_rh.size() : g_rw.size(); }
API size_t pb_ref_index(int h, size_t k) { return (h ? g_rh : g_rw)[k].index; }
API float pb_ref_confidence(int h, size_t k) { return (h ? g_rh : g_rw)[k].confidence; }
API size_t pb_methods(size_t i, const char** name, float* thr) { size_t n = 0; for(RDMethod* m = resdet_methods(); m->name; m++, n++) if(n == i) { *name = m->name; *thr = m->threshold; } return n; }
API size_t pb_readers(size_t i, const char** name) { size_t n = 0; for(const char* const* r = resdet_list_image_readers(); *r; r++, n++) if(n == i) *name = *r; return n; }
API const char* pb_version() { return resdet_libversion(); }
API size_t pb_default_range() { return resdet_default_range(); }
API const char* pb_error_str(int e) { return resdet_error_str(e); }

static int init = [] { reset_hooks().push_back([] { streams().clear(); events().clear(); }); return 0; }();
