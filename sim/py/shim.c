/* The library as the Python bindings load it: every call goes on to the simulated build, its outcome is noted on the way. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <stdint.h>
#include "resdet.h"
extern void pb_event(const char*, int, int64_t);
extern void pb_event_results(const char*, int, const RDResolution*, size_t, const RDResolution*, size_t);
static void* sim(const char* n) {
	static void* h;
	if(!h) h = dlopen(getenv("RESDET_SIM_LIB"), RTLD_NOW | RTLD_NOLOAD);
	void* p = h ? dlsym(h, n) : NULL;
	if(!p) abort();
	return p;
}
#define REAL(f) ((__typeof__(&f))sim(#f))
RDParameters* resdet_alloc_default_parameters(void) { RDParameters* p = REAL(resdet_alloc_default_parameters)(); pb_event("alloc_default_parameters", p ? RDEOK : RDENOMEM, 0); return p; }
RDError resdet_parameters_set_range(RDParameters* p, size_t v) { RDError e = REAL(resdet_parameters_set_range)(p, v); pb_event("set_range", e, 0); return e; }
RDError resdet_parameters_set_threshold(RDParameters* p, float v) { RDError e = REAL(resdet_parameters_set_threshold)(p, v); pb_event("set_threshold", e, 0); return e; }
RDError resdet_parameters_set_compression_filter(RDParameters* p, uint8_t v) { RDError e = REAL(resdet_parameters_set_compression_filter)(p, v); pb_event("set_compression_filter", e, 0); return e; }
RDImage* resdet_open_image(const char* f, const char* t, size_t* w, size_t* h, float** b, RDError* err) {
	RDError e = RDEOK; RDImage* i = REAL(resdet_open_image)(f, t, w, h, b, &e);
	if(err) *err = e;
	pb_event("open_image", e, i != NULL); return i;
}
RDImage* resdet_open_image_with_reader(const char* f, const char* r, size_t* w, size_t* h, float** b, RDError* err) {
	RDError e = RDEOK; RDImage* i = REAL(resdet_open_image_with_reader)(f, r, w, h, b, &e);
	if(err) *err = e;
	pb_event("open_image_with_reader", e, i != NULL); return i;
}
bool resdet_read_image_frame(RDImage* i, float* b, RDError* err) {
	RDError e = RDEOK; bool r = REAL(resdet_read_image_frame)(i, b, &e);
	if(err) *err = e;
	pb_event("read_image_frame", e, r); return r;
}
bool resdet_seek_frame(RDImage* i, uint64_t o, void (*p)(void*, uint64_t), void* c, RDError* err) {
	RDError e = RDEOK; bool r = REAL(resdet_seek_frame)(i, o, p, c, &e);
	if(err) *err = e;
	pb_event("seek_frame", e, r); return r;
}
RDError resdet_read_image(const char* f, const char* t, float** b, size_t* n, size_t* w, size_t* h) { RDError e = REAL(resdet_read_image)(f, t, b, n, w, h); pb_event("read_image", e, 0); return e; }
RDAnalysis* resdet_create_analysis(RDMethod* m, size_t w, size_t h, const RDParameters* p, RDError* err) {
	RDError e = RDEOK; RDAnalysis* a = REAL(resdet_create_analysis)(m, w, h, p, &e);
	if(err) *err = e;
	pb_event("create_analysis", e, a != NULL); return a;
}
RDError resdet_analyze_image(RDAnalysis* a, float* b) { RDError e = REAL(resdet_analyze_image)(a, b); pb_event("analyze_image", e, 0); return e; }
RDError resdet_analysis_results(RDAnalysis* a, RDResolution** restrict rw, size_t* restrict cw, RDResolution** restrict rh, size_t* restrict ch) {
	RDError e = REAL(resdet_analysis_results)(a, rw, cw, rh, ch);
	pb_event_results("analysis_results", e, rw ? *rw : NULL, cw ? *cw : 0, rh ? *rh : NULL, ch ? *ch : 0); return e;
}
RDError resdetect(float* b, size_t n, size_t w, size_t h, RDResolution** restrict rw, size_t* restrict cw, RDResolution** restrict rh, size_t* restrict ch, RDMethod* m, const RDParameters* p) {
	RDError e = REAL(resdetect)(b, n, w, h, rw, cw, rh, ch, m, p);
	pb_event_results("resdetect", e, rw ? *rw : NULL, cw ? *cw : 0, rh ? *rh : NULL, ch ? *ch : 0); return e;
}
RDError resdetect_file(const char* f, const char* t, RDResolution** restrict rw, size_t* restrict cw, RDResolution** restrict rh, size_t* restrict ch, RDMethod* m, const RDParameters* p) {
	RDError e = REAL(resdetect_file)(f, t, rw, cw, rh, ch, m, p);
	pb_event_results("resdetect_file", e, rw ? *rw : NULL, cw ? *cw : 0, rh ? *rh : NULL, ch ? *ch : 0); return e;
}
