// Seams between the readers and their decoder libraries.
#include "libs.h"
#include "heap.h"
#include <unordered_map>
#include <jerror.h>
#include <fftw3.h>

// ---------------------------------------------------------------- libjpeg
static void* (*real_small)(j_common_ptr, int, size_t);
static void* (*real_large)(j_common_ptr, int, size_t);
static void jpeg_oom(j_common_ptr c) {
	c->err->msg_code = JERR_OUT_OF_MEMORY;
	c->err->msg_parm.i[0] = 0;
	(*c->err->error_exit)(c);
}
static void* my_small(j_common_ptr c, int pool, size_t n) { if(alloc_should_fail(false, "libjpeg", n)) jpeg_oom(c); return real_small(c, pool, n); }
static void* my_large(j_common_ptr c, int pool, size_t n) { if(alloc_should_fail(false, "libjpeg", n)) jpeg_oom(c); return real_large(c, pool, n); }
extern "C" void sim_jpeg_CreateDecompress(j_decompress_ptr c, int version, size_t size) {
	yield_point();
	if(alloc_should_fail(false, "libjpeg create", 0)) {
		jpeg_error_mgr* e = c->err; void* cd = c->client_data;
		memset(c, 0, sizeof *c);
		c->err = e; c->client_data = cd; c->is_decompressor = TRUE;
		jpeg_oom((j_common_ptr)c);
	}
	jpeg_CreateDecompress(c, version, size);
	ledger_add(K_JPEG, c, size);
	if(!real_small) { real_small = c->mem->alloc_small; real_large = c->mem->alloc_large; }
	c->mem->alloc_small = my_small;
	c->mem->alloc_large = my_large;
}
extern "C" void sim_jpeg_destroy_decompress(j_decompress_ptr c) { yield_point(); ledger_del(K_JPEG, c); jpeg_destroy_decompress(c); }
extern "C" void sim_jpeg_destroy(j_common_ptr c) { yield_point(); ledger_del(K_JPEG, c); jpeg_destroy(c); }

// ---------------------------------------------------------------- libpng
static png_voidp pngm(png_structp, png_alloc_size_t n) {
	if(alloc_should_fail(false, "libpng", n)) return nullptr;
	if(n > g_alloc_cap) return nullptr;
	void* p = malloc(n);
	if(p) { if(n < (16u << 20)) memset(p, g_fill >= 0 ? g_fill : 0x5c, n); ledger_add(K_PNGMEM, p, n); }
	return p;
}
static void pngf(png_structp, png_voidp p) { if(!p) return; ledger_del(K_PNGMEM, p); free(p); }
extern "C" png_structp sim_png_create_read_struct(png_const_charp ver, png_voidp ep, png_error_ptr ef, png_error_ptr wf) {
	yield_point();
	png_structp p = png_create_read_struct_2(ver, ep, ef, wf, nullptr, pngm, pngf);
	return p;
}

// ---------------------------------------------------------------- FFTW
#define FFTW_SEAM(X, real) \
extern "C" real* sim_##X##_alloc_real(size_t n) { \
	yield_point(); \
	if(alloc_should_fail(true, "fftw_alloc_real", n * sizeof(real)) ) return nullptr; \
	if(n * sizeof(real) > g_alloc_max_seen) g_alloc_max_seen = n * sizeof(real); \
	if(n > g_alloc_cap / sizeof(real)) { cx->alloc_faults++; cx->own_alloc_faults++; return nullptr; } \
	bool lazy = n > LAZY / sizeof(real); \
	real* p = lazy ? (real*)lazy_map(n * sizeof(real)) : X##_alloc_real(n); \
	if(!p) { cx->alloc_faults++; cx->own_alloc_faults++; } \
	if(p && lazy) ledger_add(K_FFTW, p, n * sizeof(real)); \
	else if(p) { memset(p, g_fill >= 0 ? g_fill : 0x3c, n * sizeof(real)); ledger_add(K_FFTW, p, n * sizeof(real)); } \
	return p; } \
extern "C" void* sim_##X##_malloc(size_t n) { yield_point(); if(alloc_should_fail(true, "fftw_malloc", n)) return nullptr; void* p = X##_malloc(n); if(p) ledger_add(K_FFTW, p, n); return p; } \
extern "C" void sim_##X##_free(void* p) { yield_point(); if(p) ledger_del(K_FFTW, p); if(!lazy_free(p)) X##_free(p); } \
extern "C" X##_plan sim_##X##_plan_r2r_2d(int h, int w, real* a, real* b, X##_r2r_kind k1, X##_r2r_kind k2, unsigned fl) { \
	if(lib_fault("fftw_plan")) return nullptr; \
	X##_plan p = X##_plan_r2r_2d(h, w, a, b, k1, k2, fl); \
	if(p) ledger_add(K_PLAN, p, 0); \
	return p; } \
extern "C" void sim_##X##_destroy_plan(X##_plan p) { yield_point(); if(p) ledger_del(K_PLAN, p); X##_destroy_plan(p); }
void heap_settle() { fftwf_cleanup(); fftw_cleanup(); }
FFTW_SEAM(fftwf, float)
FFTW_SEAM(fftw, double)

// ---------------------------------------------------------------- libav
static int av_rd(void* o, uint8_t* buf, int n) {
	SimStream* s = (SimStream*)o;
	for(;;) {
		ssize_t r = raw_read(s, (char*)buf, n);
		if(r > 0) return (int)r;
		if(r == 0) return AVERROR_EOF;
		if(errno == EINTR || errno == EAGAIN) continue;   // as libavformat's own retry does
		return AVERROR(errno);
	}
}
static int64_t av_sk(void* o, int64_t off, int whence) {
	SimStream* s = (SimStream*)o;
	if(whence & AVSEEK_SIZE) return s->file->cfg.seekable ? (int64_t)s->file->size : AVERROR(ENOSYS);
	int64_t r = raw_seek(s, off, whence & ~AVSEEK_FORCE);
	return r < 0 ? AVERROR(errno) : r;
}
AvioBox avio_for(SimFile* f, SimStream* s) {
	AvioBox b;
	b.own = !s;
	b.s = s ? s : raw_open(f, false);
	size_t sz = f->cfg.bufmode == 2 && f->cfg.bufsize >= 64 ? f->cfg.bufsize : 32768;
	b.pb = avio_alloc_context((unsigned char*)av_malloc(sz), (int)sz, 0, b.s, av_rd, nullptr, f->cfg.seekable ? av_sk : nullptr);
	if(!b.pb) harness_error("avio_alloc_context");
	b.pb->seekable = f->cfg.seekable ? AVIO_SEEKABLE_NORMAL : 0;
	return b;
}
void avio_drop(AvioBox& b) {
	if(b.pb) { av_freep(&b.pb->buffer); avio_context_free(&b.pb); }
	if(b.own && b.s) { raw_close(b.s); delete b.s; }
	b.s = nullptr;
}
static std::unordered_map<void*, AvioBox>& boxes() { static auto* m = new std::unordered_map<void*, AvioBox>; return *m; }
extern "C" {
int sim_avformat_open_input(AVFormatContext** ps, const char* url, const AVInputFormat* fmt, AVDictionary** opt) {
	if(lib_fault("avformat_open_input")) return AVERROR(ENOMEM);
	SimStream* st = nullptr;
	SimFile* f;
	if(!strcmp(url, "pipe:") || !strcmp(url, "pipe:0")) { auto it = g_streams.find(stdin); if(it == g_streams.end()) return AVERROR(EBADF); st = it->second; f = st->file; }
	else {
		f = vfs_find(!strncmp(url, "file:", 5) ? url + 5 : url);
		if(!f || !f->exists) return AVERROR(ENOENT);
		if(f->cfg.open_errno) { cx->io_faults++; R->nontrivial = 1; count("fault.open_error"); return AVERROR(f->cfg.open_errno); }
	}
	AvioBox b = avio_for(f, st);
	AVFormatContext* c = *ps ? *ps : avformat_alloc_context();
	c->pb = b.pb;
	*ps = c;
	int r = avformat_open_input(ps, url, fmt, opt);
	if(r < 0) { avio_drop(b); return r; }
	boxes()[*ps] = b;
	ledger_add(K_FMT, *ps, 0);
	return r;
}
void sim_avformat_close_input(AVFormatContext** ps) {
	yield_point();
	if(!ps || !*ps) return;
	void* key = *ps;
	if(!ledger_del(K_FMT, key)) violation("double-release", "avformat_close_input of an input that is not open");
	AvioBox b = boxes()[key];
	boxes().erase(key);
	avformat_close_input(ps);
	avio_drop(b);
}
int sim_avformat_find_stream_info(AVFormatContext* c, AVDictionary** o) { if(lib_fault("find_stream_info")) return AVERROR(EIO); return avformat_find_stream_info(c, o); }
int sim_av_find_best_stream(AVFormatContext* c, enum AVMediaType t, int w, int rel, const AVCodec** d, int fl) { if(lib_fault("find_best_stream")) return AVERROR_DECODER_NOT_FOUND; return av_find_best_stream(c, t, w, rel, d, fl); }
AVCodecContext* sim_avcodec_alloc_context3(const AVCodec* d) { if(lib_fault("alloc_context")) return nullptr; AVCodecContext* c = avcodec_alloc_context3(d); if(c) ledger_add(K_CODEC, c, 0); return c; }
void sim_avcodec_free_context(AVCodecContext** c) { yield_point(); if(c && *c) ledger_del(K_CODEC, *c); avcodec_free_context(c); }
int sim_avcodec_parameters_to_context(AVCodecContext* c, const AVCodecParameters* p) { if(lib_fault("parameters_to_context")) return AVERROR(ENOMEM); return avcodec_parameters_to_context(c, p); }
int sim_avcodec_open2(AVCodecContext* c, const AVCodec* d, AVDictionary** o) { if(lib_fault("avcodec_open")) return AVERROR(ENOMEM); return avcodec_open2(c, d, o); }
struct SwsContext* sim_sws_alloc_context(void) { if(lib_fault("sws_alloc")) return nullptr; struct SwsContext* c = sws_alloc_context(); if(c) ledger_add(K_SWS, c, 0); return c; }
void sim_sws_freeContext(struct SwsContext* c) { yield_point(); if(c) ledger_del(K_SWS, c); sws_freeContext(c); }
int sim_sws_init_context(struct SwsContext* c, SwsFilter* a, SwsFilter* b) { if(lib_fault("sws_init")) return AVERROR(ENOMEM); return sws_init_context(c, a, b); }
int sim_sws_scale_frame(struct SwsContext* c, AVFrame* d, const AVFrame* s) { if(lib_fault("sws_scale_frame")) return AVERROR(ENOMEM); return sws_scale_frame(c, d, s); }
AVFrame* sim_av_frame_alloc(void) { if(lib_fault("frame_alloc")) return nullptr; AVFrame* f = av_frame_alloc(); if(f) ledger_add(K_FRAME, f, 0); return f; }
void sim_av_frame_free(AVFrame** f) { yield_point(); if(f && *f) ledger_del(K_FRAME, *f); av_frame_free(f); }
AVPacket* sim_av_packet_alloc(void) { if(lib_fault("packet_alloc")) return nullptr; AVPacket* p = av_packet_alloc(); if(p) ledger_add(K_PACKET, p, 0); return p; }
void sim_av_packet_free(AVPacket** p) { yield_point(); if(p && *p) ledger_del(K_PACKET, *p); av_packet_free(p); }
int sim_avcodec_receive_frame(AVCodecContext* c, AVFrame* f) { if(lib_fault("receive_frame")) return AVERROR(ENOMEM); return avcodec_receive_frame(c, f); }
int sim_avcodec_send_packet(AVCodecContext* c, const AVPacket* p) { if(lib_fault("send_packet")) return AVERROR(ENOMEM); return avcodec_send_packet(c, p); }
int sim_av_read_frame(AVFormatContext* c, AVPacket* p) {
	if(lib_fault("av_read_frame")) return AVERROR(EIO);
	if(p->buf) { if(on("C05,C06")) violation("leak", "av_read_frame is given a packet that still holds %d bytes of the one before", p->size); }
	return av_read_frame(c, p);
}

// ---------------------------------------------------------------- MagickWand
struct Forced { ExceptionType ex; int err; };
static std::unordered_map<MagickWand*, Forced>& forced() { static auto* m = new std::unordered_map<MagickWand*, Forced>; return *m; }
MagickWand* sim_NewMagickWand(void) { yield_point(); MagickWand* w = NewMagickWand(); ledger_add(K_WAND, w, 0); return w; }
MagickWand* sim_DestroyMagickWand(MagickWand* w) {
	yield_point();
	if(!ledger_del(K_WAND, w)) violation("double-release", "DestroyMagickWand of a wand that does not exist");
	forced().erase(w);
	return DestroyMagickWand(w);
}
static MagickBooleanType force(MagickWand* w, ExceptionType ex, int err) { forced()[w] = Forced{ ex, err }; errno = err; return MagickFalse; }
MagickBooleanType sim_MagickReadImage(MagickWand* w, const char* name) {
	if(lib_fault("MagickReadImage")) {
		static const ExceptionType k[] = { CorruptImageError, ResourceLimitError, BlobError, ResourceLimitFatalError, FileOpenError, MissingDelegateError };
		ExceptionType ex = k[(cx->lib.n * 5 + cx->lib.count) % 6];          // the same for a thread whatever the others do
		logf("  forced exception %d", (int)ex);
		return force(w, ex, EIO);
	}
	SimStream* st = nullptr;
	SimFile* f;
	bool own = false;
	if(!strcmp(name, "-")) { auto it = g_streams.find(stdin); if(it == g_streams.end()) return force(w, FileOpenError, EBADF); st = it->second; f = st->file; }
	else {
		f = vfs_find(name);
		if(!f || !f->exists) return force(w, FileOpenError, ENOENT);
		if(f->cfg.open_errno) { cx->io_faults++; R->nontrivial = 1; count("fault.open_error"); return force(w, FileOpenError, f->cfg.open_errno); }
		st = raw_open(f, false); own = true;
	}
	Bytes all;
	int err = 0;
	char buf[4096];
	for(;;) {
		ssize_t r = raw_read(st, buf, sizeof buf);
		if(r < 0) { if(errno == EINTR || errno == EAGAIN) continue; err = errno; break; }
		if(!r) break;
		all.insert(all.end(), buf, buf + r);
	}
	if(own) { raw_close(st); delete st; }
	if(err) return force(w, BlobError, err);
	if(all.empty()) return force(w, CorruptImageError, 0);
	return MagickReadImageBlob(w, all.data(), all.size());
}
char* sim_MagickGetException(const MagickWand* w, ExceptionType* ex) {
	auto it = forced().find((MagickWand*)w);
	if(it == forced().end()) { char* s = MagickGetException(w, ex); ledger_add(K_MAGICKMEM, s, 0); return s; }
	*ex = it->second.ex;
	char* s = (char*)AcquireMagickMemory(16);
	strcpy(s, "forced");
	errno = it->second.err;
	ledger_add(K_MAGICKMEM, s, 16);
	return s;
}
void* sim_RelinquishMagickMemory(void* p) { ledger_del(K_MAGICKMEM, p); return RelinquishMagickMemory(p); }
void* sim_MagickRelinquishMemory(void* p) { ledger_del(K_MAGICKMEM, p); return MagickRelinquishMemory(p); }
MagickBooleanType sim_MagickExportImagePixels(MagickWand* w, const ssize_t x, const ssize_t y, const size_t cols, const size_t rows, const char* map, const StorageType st, void* px) {
	if(lib_fault("MagickExportImagePixels")) return MagickFalse;
	return MagickExportImagePixels(w, x, y, cols, rows, map, st, px);
}
}
