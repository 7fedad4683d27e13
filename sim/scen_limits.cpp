// C13: sizes at, around and far beyond the limits; streams too large to hold, generated as they are read.
#include "model.h"
#include "libs.h"
#include <algorithm>
#include "heap.h"
typedef unsigned __int128 u128;


static const size_t LIMIT() { return variant_pixel_max; }
static std::string dimstr(u128 v) { if(!v) return "0"; std::string s; while(v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }

// ---- well-formed images whose size is near a small limit
static void pick_dims(size_t L, size_t* w, size_t* h, bool small_only) {
	int64_t d = (int64_t)draw(7) - 3;
	size_t t = L + d;
	switch(draw(6)) {
		case 0: *w = t; *h = 1; break;
		case 1: *w = 1; *h = t; break;
		case 2: { std::vector<size_t> f; for(size_t k = 2; k * k <= t; k++) if(t % k == 0) f.push_back(k); size_t k = f.empty() ? 1 : pick(f); *w = k; *h = t / k; if(chance(1, 2)) std::swap(*w, *h); break; }
		case 3: *w = 64; *h = 62 + draw(5); if(chance(1, 2)) std::swap(*w, *h); break;
		case 4: { *w = 1 + draw(200); *h = (L + *w - 1) / *w; if(chance(1, 2) && *h > 1) --*h; break; }
		default: *w = 1 + draw(130); *h = 1 + draw(130);
	}
	if(small_only) { if(*w > 3000) *w = 3000; if(*h > 3000) *h = 3000; }
}
static SimFile* bind(Sample& s, OpenSpec& o) {
	bool sin;
	SimFile* f = install(s, false, &sin);
	if(!o.by_reader) o = draw_open(s, sin, false);
	else if(sin) { o.name = "-"; o.from_stdin = true; }
	if(sin) { f = vfs_add("<stdin>", f->data, f->cfg); sim_stdin_set(f); return f; }
	if(o.name.empty()) o.name = "in";
	return vfs_add(o.name, f->data, f->cfg);
}
static void near_limit() {
	size_t L = LIMIT() == SIZE_MAX ? 4096 : LIMIT();
	size_t w, h;
	pick_dims(L, &w, &h, false);
	static const Format fms[] = { FM_PGM, FM_PFM, FM_Y4M, FM_PNG, FM_JPEG };
	Format fm = fms[draw(variant_libs ? 5 : 3)];
	Limits l; l.maxframes = 2; l.fixed_w = w; l.fixed_h = h;
	Sample s = gen_sample(fm, l);
	OpenSpec o;
	if(variant_libs && chance(1, 4)) {
		if(fm == FM_Y4M) {                          // pixel values and which layouts exist are libav's
			o.by_reader = true; o.reader = "FFmpeg";
			s.t.may_reject = true; s.t.tolerant = true;
			for(auto& f : s.t.fr) f.loose = true;
		}
		else if(fm == FM_PNG || fm == FM_JPEG || fm == FM_PGM && s.note.find("trailing") == std::string::npos) {   // an image that trails another is a second frame to MagickWand
			o.by_reader = true; o.reader = "MagickWand"; s.note += " (file only)";
			s.t.may_reject = true; s.t.tolerant = true;
			for(auto& f : s.t.fr) f.loose = true;
			s.t.single = false;
		}
	}
	bool beyond = w * h > LIMIT();
	if(beyond) { s.t.open = REJECT; s.t.why = "larger than the pixel limit"; }
	else count(w * h == LIMIT() ? "limit.exact" : "limit.within");
	Handle hd; hd.file = bind(s, o); hd.t = &s.t;
	if(hd.open(o)) {
		size_t n = s.t.fr.size() + 1;
		for(size_t i = 0; i < n && !hd.errored; i++) hd.read();
	}
	else if(beyond) {
		count("limit.beyond");
		if(hd.last_err != RDETOOBIG && !o.by_reader) violation("wrong-error", "%zux%zu exceeds the limit of %zu pixels, but the error is %s", w, h, LIMIT(), err_name(hd.last_err));
		if(o.by_reader && hd.last_err != RDETOOBIG && hd.last_err != RDEINVAL && hd.last_err != RDENOMEM && hd.last_err != RDEUNSUPP && hd.last_err != -EINVAL) violation("wrong-error", "%zux%zu exceeds the limit of %zu pixels, but the error is %s", w, h, LIMIT(), err_name(hd.last_err));
	}
	hd.close();
}
// ---- whole sequences against the limit
static void bulk_limit() {
	size_t L = LIMIT() == SIZE_MAX ? 4096 : LIMIT();
	static const size_t dims[][2] = { { 64, 64 }, { 64, 32 }, { 64, 16 }, { 63, 65 }, { 1365, 1 }, { 1, 1366 }, { 45, 45 }, { 32, 32 }, { 819, 1 }, { 39, 35 }, { 2048, 2 }, { 1, 1024 }, { 1024, 1 }, { 51, 16 } };
	auto& d = dims[draw(14)];
	Format fm = chance(1, 2) ? FM_PFM : FM_Y4M;
	Limits l; l.fixed_w = d[0]; l.fixed_h = d[1]; l.maxframes = 7;
	Sample s = gen_sample(fm, l);
	bool cut = chance(1, 5);
	if(cut) {
		auto b = std::make_shared<Bytes>(*s.data);
		b->resize(b->size() - draw(b->size() / 2 + 1));
		s.data = b; s.note += " cut";
		s.t = ref_parse(fm, *b);
		if(s.t.open != ACCEPT) return;
	}
	OpenSpec o; bind(s, o);
	if(o.by_reader) return;                         // bulk reads choose by type or extension
	float* im = (float*)16; size_t n = 9, w = 9, h = 9;
	op_budget(s.data->size() * 2, (uint64_t)d[0] * d[1] * (s.t.fr.size() + 2));
	RDError e = resdet_read_image(o.name.c_str(), o.type.empty() ? nullptr : o.type.c_str(), &im, &n, &w, &h);
	op_done();
	logf("bulk %s -> %s, %zu frames of %zux%zu (stream: %zu)", o.name.c_str(), err_name(e), n, w, h, s.t.fr.size());
	hist(hash_str("bulk") + e + n * 3);
	size_t total = s.t.fr.size() * d[0] * d[1];
	if(e) {
		if(im || n) violation("failed-outputs", "bulk read failed (%s) but left %zu images", err_name(e), n);
		if(s.t.end == END_CLEAN && total <= LIMIT()) violation("rejected-valid", "a sequence of %zu frames of %zux%zu, %zu pixels with a limit of %zu, failed: %s", s.t.fr.size(), d[0], d[1], total, LIMIT(), err_name(e));
		if(s.t.end == END_CLEAN && e != RDETOOBIG) violation("wrong-error", "%zu pixels exceed the limit of %zu, but the error is %s", total, LIMIT(), err_name(e));
		count("limit.bulk_beyond");
	}
	else {
		if(total > LIMIT()) violation("limit-exceeded", "%zu frames of %zux%zu were read in bulk, %zu pixels with a limit of %zu", n, d[0], d[1], total, LIMIT());
		if(s.t.end != END_CLEAN) violation("silent-truncation", "bulk read of a damaged sequence succeeded with %zu frames", n);
		if(n != s.t.fr.size() || w != d[0] || h != d[1]) violation("wrong-count", "bulk read returned %zu frames of %zux%zu, the stream has %zu of %zux%zu", n, w, h, s.t.fr.size(), d[0], d[1]);
		for(size_t i = 0; i < n; i++) { size_t at; if(!px_equal(im + i * w * h, s.t.fr[i], s.t.tol, &at)) violation("wrong-pixels", "bulk frame %zu: pixel %zu is %g", i, at, im[i * w * h + at]); }
		sim_free(im);
		count(total == LIMIT() ? "limit.bulk_exact" : "limit.bulk_within");
	}
	(void)L;
}
// ---- declared sizes far beyond what there is memory or an address for
static uint64_t big_number() {
	static const uint64_t t[] = { 1, 2, 3, 4, 5, 7, 16, 255, 256, 257, 65535, 65536, 65537, 46340, 46341, 92682, 1ull << 31, (1ull << 31) - 1, (1ull << 31) + 1, 1ull << 30, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 3037000499ull, 3037000500ull, 715827882, 715827883, 2000000000, 4294967295ull / 3, 4294967295ull / 4 + 1, 1ull << 61, (1ull << 61) + 1, 1ull << 62, (1ull << 62) + 1, 1ull << 63, (1ull << 63) + 1, ~0ull, ~0ull - 1, ~0ull / 2, ~0ull / 3, ~0ull / 3 + 1, ~0ull / 4, ~0ull / 4 + 1, ~0ull / 5 + 1, ~0ull / 8 + 1, ~0ull / 12 + 1, ~0ull / 16 + 1 };
	if(chance(1, 4)) return 1ull << draw(64);
	if(chance(1, 6)) { uint64_t v = 1; for(int i = 0; i < 8; i++) v = v << 8 | draw(256); return v >> draw(50) | 1; }
	return t[draw(sizeof t / sizeof *t)];
}
static bool exceeds(u128 px, size_t elem) { return px > (u128)LIMIT() || px > (u128)SIZE_MAX / elem; }
static Bytes png_patch(uint64_t w, uint64_t h) {
	Limits l; l.fixed_w = 3; l.fixed_h = 2;
	Sample s = gen_sample(FM_PNG, l);
	Bytes b = *s.data;
	for(int i = 0; i < 4; i++) { b[16 + i] = (uint8_t)(w >> (24 - 8 * i)); b[20 + i] = (uint8_t)(h >> (24 - 8 * i)); }
	uint32_t c = ~0u;
	for(size_t i = 12; i < 29; i++) { c ^= b[i]; for(int k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0xEDB88320u : 0); }
	c = ~c;
	for(int i = 0; i < 4; i++) b[29 + i] = (uint8_t)(c >> (24 - 8 * i));
	return b;
}
static Bytes jpeg_patch(uint64_t w, uint64_t h, bool* ok, bool* progressive) {
	Limits l; l.fixed_w = 9; l.fixed_h = 8;
	Sample s = gen_sample(FM_JPEG, l);
	Bytes b = *s.data;
	*ok = false;
	for(size_t i = 2; i + 9 < b.size() && b[i] == 0xff;) {
		int m = b[i + 1];
		if(m >= 0xc0 && m <= 0xc2) { b[i + 5] = h >> 8; b[i + 6] = h; b[i + 7] = w >> 8; b[i + 8] = w; *ok = true; *progressive = m == 0xc2; break; }
		i += 2 + (b[i + 2] << 8 | b[i + 3]);
	}
	return b;
}
static void declared() {
	Sample s;
	static const Format fms[] = { FM_PGM, FM_PFM, FM_Y4M, FM_PNG, FM_JPEG };
	s.fm = fms[draw(variant_libs ? 5 : 3)];
	uint64_t w = big_number(), h = big_number();
	if(chance(1, 8)) h = ~0ull / w + draw(3) - 1;         // products just around 2^64
	if(chance(1, 8)) h = (~0ull >> (1 + draw(4))) / w + draw(3) - 1;
	if(LIMIT() != SIZE_MAX && chance(1, 4)) h = LIMIT() / (w > LIMIT() ? LIMIT() : w) + draw(3);
	if(!h) h = 1;
	int bw = 1; u128 planes = 0;                          // y4m: bytes of a frame
	bool prog = false;
	char head[200];
	std::string tags;
	switch(s.fm) {
		case FM_PGM: { int n = snprintf(head, sizeof head, "P5%s%llu %llu\n255\n", chance(1, 4) ? "\n# c\n" : " ", (unsigned long long)w, (unsigned long long)h); s.data = std::make_shared<Bytes>(head, head + n); s.ext = "pgm"; break; }
		case FM_PFM: { int n = snprintf(head, sizeof head, "P%c\n%llu %llu\n%s\n", chance(1, 2) ? 'F' : 'f', (unsigned long long)w, (unsigned long long)h, chance(1, 2) ? "-1.0" : "1.0"); s.data = std::make_shared<Bytes>(head, head + n); s.ext = "pfm"; break; }
		case FM_Y4M: {
			static const char* csp[] = { "", " Cmono", " C420jpeg", " C411", " C422", " C444", " C444alpha", " C444p16", " C420p10", " Cmono16", " C422p12" };
			static const char sub[] = "0m0124a40m2";
			static const int bws[] = { 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2 };
			size_t k = draw(11);
			bw = bws[k];
			u128 W = w, H = h;
			planes = W * H;
			switch(sub[k]) { case '0': planes += (W + 1) / 2 * ((H + 1) / 2) * 2; break; case '1': planes += (W + 3) / 4 * H * 2; break; case '2': planes += (W + 1) / 2 * H * 2; break; case '4': planes += W * H * 2; break; case 'a': planes += W * H * 3; break; }
			planes *= bw;
			char o1[60], o2[60];
			snprintf(o1, sizeof o1, " W%llu", (unsigned long long)w); snprintf(o2, sizeof o2, " H%llu", (unsigned long long)h);
			int n = chance(1, 2) ? snprintf(head, sizeof head, "YUV4MPEG2%s%s%s F25:1\n", o1, o2, csp[k]) : snprintf(head, sizeof head, "YUV4MPEG2%s%s%s Ip\n", csp[k], o2, o1);
			s.data = std::make_shared<Bytes>(head, head + n); s.ext = "y4m"; break; }
		case FM_PNG: { static const uint64_t t[] = { 1, 2, 64, 4096, 4097, 65535, 65536, 100000, 999999, 1000000, 46341, 30000 }; w = t[draw(12)]; h = t[draw(12)]; s.data = std::make_shared<Bytes>(png_patch(w, h)); s.ext = "png"; break; }
		default: { static const uint64_t t[] = { 1, 64, 4096, 4097, 65500, 65499, 50000, 32768, 46341, 1000 }; w = t[draw(10)]; h = t[draw(10)]; bool ok; s.data = std::make_shared<Bytes>(jpeg_patch(w, h, &ok, &prog)); if(!ok) return; s.ext = "jpg"; break; }
	}
	if(prog && (u128)w * h <= (u128)LIMIT() && w * h > 1000000) return;      // libjpeg holds the whole image by itself
	size_t cap = (size_t)1 << range(16, 34);
	g_alloc_cap = cap;
	u128 px = (u128)w * h, bytes = px * 4;
	bool toobig = exceeds(px, sizeof(float));
	s.t.w = w; s.t.h = h; s.t.open = UNSPEC;
	s.note = s.fm == FM_Y4M || s.fm <= FM_PFM ? std::string(" ") + std::string(head, strcspn(head, "\n")) : " patched size";
	if(prog) s.note += " progressive";
	OpenSpec o; SimFile* f = bind(s, o);
	bool want = !o.own_buf;
	size_t rw = 9, rh = 9; float* buf = (float*)16; int err = 12345;
	g_alloc_max_seen = 0; g_heap_max = 0; g_heap_watch = true;
	uint64_t own0 = cx->own_alloc_faults; size_t live0 = ledger_count();
	op_budget(s.data->size(), s.fm == FM_JPEG ? (w + 64) * 100 + (prog ? 0 : 0) : s.fm == FM_PNG ? w * 100 : 0);
	RDImage* im = o.by_reader ? resdet_open_image_with_reader(o.name.c_str(), o.reader.c_str(), &rw, &rh, want ? &buf : nullptr, &err) : resdet_open_image(o.name.c_str(), o.type.empty() ? nullptr : o.type.c_str(), &rw, &rh, want ? &buf : nullptr, &err);
	op_done();
	g_heap_watch = false;
	size_t peak = std::max(g_alloc_max_seen, g_heap_max);
	logf("open %s declaring %llux%llu (memory for %zu bytes) -> %s %zux%zu, largest request %zu", o.name.c_str(), (unsigned long long)w, (unsigned long long)h, cap, err_name(err), rw, rh, g_alloc_max_seen);
	hist(hash_str("declared") + err * 3 + (im != nullptr)); hist(w); hist(h);
	if(!valid_error(err)) violation("bad-error-code", "open returned error %d", err);
	if((im != nullptr) != (err == 0)) violation("open-inconsistent", "open returned %s with error %s", im ? "a handle" : "null", err_name(err));
	if(!im && ((want && buf) || rw || rh)) violation("open-outputs", "failed open left %zux%zu and buffer %p", rw, rh, (void*)buf);
	if(!im && ledger_count() != live0) violation("leak", "failed open kept %s", ledger_dump().c_str());
	if(im && (rw != w || rh != h)) violation("wrong-dimensions", "declared %llux%llu, opened as %zux%zu", (unsigned long long)w, (unsigned long long)h, rw, rh);
	// libpng has a limit of its own
	bool png_limit = s.fm == FM_PNG && (w > 1000000 || h > 1000000);
	if(toobig) {
		count("limit.declared_beyond");
		R->nontrivial = 1;
		if(im) violation("limit-exceeded", "%llux%llu was opened, which exceeds %s", (unsigned long long)w, (unsigned long long)h, px > (u128)LIMIT() ? "the pixel limit" : "the address space");
		if(err != RDETOOBIG && !png_limit && (s.fm <= FM_Y4M || cap > w * 64 + (1u << 20))) violation("wrong-error", "%llux%llu is too big, but the error is %s", (unsigned long long)w, (unsigned long long)h, err_name(err));
		size_t rows = s.fm == FM_PNG || s.fm == FM_JPEG ? (w + h) * 256 : 0;
		if(peak > (128u << 10) + rows) violation("memory-before-limit", "%zu bytes were requested for an image of %llux%llu, which is beyond the limit", peak, (unsigned long long)w, (unsigned long long)h);
	}
	else {
		bool need_fits = !want || bytes <= (u128)cap;
		bool room = s.fm <= FM_Y4M || cap > w * 64 + (1u << 20);      // rows kept by the decoder library
		bool sure = need_fits && room && (s.fm != FM_Y4M || planes <= (u128)cap) && !png_limit;
		if(!im) {
			if(sure) violation("rejected-valid", "%llux%llu is within the limits and memory, but: %s", (unsigned long long)w, (unsigned long long)h, err_name(err));
			if(err != RDENOMEM && !(err == RDETOOBIG && planes > (u128)SIZE_MAX) && !png_limit && room && s.fm != FM_JPEG) violation("wrong-error", "%llux%llu does not fit in memory, but the error is %s", (unsigned long long)w, (unsigned long long)h, err_name(err));
			count("limit.declared_nomem");
			(void)own0;
		}
		else {
			if(!need_fits) violation("buffer-too-small", "%llux%llu was opened with a buffer, although memory ends at %zu bytes", (unsigned long long)w, (unsigned long long)h, cap);
			if(want && !buf) violation("open-outputs", "successful open left no buffer");
			if(want && g_alloc_max_seen < bytes) violation("buffer-too-small", "%s bytes are needed for %llux%llu, but the largest buffer has %zu", dimstr(bytes).c_str(), (unsigned long long)w, (unsigned long long)h, g_alloc_max_seen);
			count("limit.declared_open");
			// the data is not there: nothing but errors, in bounded time
			unsigned n = (unsigned)draw(3);
			for(unsigned i = 0; i < n; i++) {
				int e = 12345;
				uint64_t k = 1 + draw(3);
				op_budget(s.data->size(), (w + h) * 8 + 65536);
				bool r = chance(1, 2) || !want || s.fm == FM_PNG || s.fm == FM_JPEG ? resdet_seek_frame(im, k, nullptr, nullptr, &e) : resdet_read_image_frame(im, buf, &e);
				op_done();
				logf("then -> %d %s", r, err_name(e));
				if(!valid_error(e)) violation("bad-error-code", "error %d", e);
				if(r && s.fm != FM_PGM && s.fm != FM_PNG && s.fm != FM_JPEG) violation("delivered-bad-frame", "a frame of %llux%llu that is not there was delivered or skipped", (unsigned long long)w, (unsigned long long)h);
			}
		}
	}
	if(im) resdet_close_image(im);
	if(im && want) sim_free(buf);
	if(ledger_count()) violation("leak", "still held after closing: %s", ledger_dump().c_str());
	(void)f;
}
// ---- analysis dimensions
static void analysis_dims() {
	uint64_t w, h; bool fixed = LIMIT() != SIZE_MAX && chance(1, 2);
	if(fixed) { size_t a, b; pick_dims(LIMIT(), &a, &b, false); w = a; h = b; }
	else { w = big_number(); h = chance(1, 3) ? 1 + draw(20) : big_number(); if(chance(1, 2)) std::swap(w, h); if(chance(1, 6)) h = ~0ull / w + draw(3) - 1; if(!h && chance(3, 4)) h = 1; }
	size_t elem = variant_double ? 8 : 4;
	u128 px = (u128)w * h;
	bool toobig = !exceeds(px, elem) ? false : true;
	if(!w || !h) toobig = true;
	uint64_t maxdim = variant_fftw ? INT_MAX : INT_MAX / 3;     // what the transform can take
	bool huge_dim = w > maxdim || h > maxdim;
	bool modest = px <= 300000;
	if(!toobig && !huge_dim && !modest) g_alloc_cap = (size_t)std::min<u128>(px * elem - 1, (u128)1 << 33);
	else g_alloc_cap = chance(1, 2) ? (size_t)16 << 30 : (size_t)1 << range(20, 36);
	ParamSpec p = draw_params();
	RDParameters* q = p.make();
	const auto& ms = resdet_methods();
	RDMethod* m = (RDMethod*)&ms[draw(4)];
	g_alloc_max_seen = 0; g_heap_max = 0;
	int e = 12345;
	bool oneshot = chance(1, 4) && !modest;
	uint64_t own0 = cx->own_alloc_faults;
	op_budget(0, modest ? (w + h) * 40 : 0);
	RDAnalysis* a = nullptr;
	g_heap_watch = true;
	if(oneshot) {
		float one = 0; RDResolution* r1,* r2; size_t c1, c2;
		e = resdetect(&one, 1, w, h, &r1, &c1, &r2, &c2, m, q);
		if(!e || r1 || r2 || c1 || c2) violation("failed-outputs", "one-shot detection of %llux%llu returned %s with results", (unsigned long long)w, (unsigned long long)h, err_name(e));
	}
	else a = resdet_create_analysis(m, w, h, q, &e);
	g_heap_watch = false;
	op_done();
	size_t peak = std::max(g_alloc_max_seen, g_heap_max);
	logf("analysis of %llux%llu (%s, memory for %zu) -> %s, largest request %zu", (unsigned long long)w, (unsigned long long)h, m->name, g_alloc_cap, err_name(e), g_alloc_max_seen);
	hist(hash_str("analysis") + e * 3); hist(w); hist(h);
	if(!valid_error(e)) violation("bad-error-code", "analysis of %llux%llu gave error %d", (unsigned long long)w, (unsigned long long)h, e);
	if(!oneshot && (a != nullptr) != (e == 0)) violation("create-inconsistent", "analysis of %llux%llu: %s with error %s", (unsigned long long)w, (unsigned long long)h, a ? "created" : "null", err_name(e));
	if(!e && (toobig || huge_dim)) violation("limit-exceeded", "an analysis of %llux%llu was created", (unsigned long long)w, (unsigned long long)h);
	if(!w || !h) { if(e != RDEINVAL && e != RDEPARAM && e != RDETOOBIG) violation("wrong-error", "an analysis of %llux%llu gave %s", (unsigned long long)w, (unsigned long long)h, err_name(e)); }
	else if(toobig) {
		R->nontrivial = 1; count("limit.analysis_beyond");
		if(e != RDETOOBIG) violation("wrong-error", "an analysis of %llux%llu is too big, but the error is %s", (unsigned long long)w, (unsigned long long)h, err_name(e));
		if(peak > (128u << 10)) violation("memory-before-limit", "%zu bytes were requested for an analysis of %llux%llu, which is beyond the limit", peak, (unsigned long long)w, (unsigned long long)h);
	}
	else if(huge_dim) { count("limit.analysis_dimension"); if(e != RDETOOBIG && e != RDENOMEM) violation("wrong-error", "an analysis of %llux%llu gave %s", (unsigned long long)w, (unsigned long long)h, err_name(e)); }
	else if(!modest) { count("limit.analysis_nomem"); if(e != RDENOMEM && e != RDETOOBIG) violation("wrong-error", "an analysis of %llux%llu with memory for %zu bytes gave %s", (unsigned long long)w, (unsigned long long)h, g_alloc_cap, err_name(e)); }
	else if(!oneshot) {
		count("limit.analysis_within");
		if(e && g_alloc_cap > 64 * px + 4096 * 64 + 100 * (w + h)) violation("rejected-valid", "an analysis of %llux%llu failed: %s", (unsigned long long)w, (unsigned long long)h, err_name(e));
		if(a) {
			if(g_alloc_max_seen < px * elem) violation("buffer-too-small", "%s bytes are needed, but the largest buffer has %zu", dimstr(px * elem).c_str(), g_alloc_max_seen);
			if(px <= 5000 && chance(1, 2)) {
				std::vector<float> im(px, 0.5f); im[draw(px)] = 1;
				size_t r = p.eff_range((MethodId)0); if(r > 64) r = 64;
				op_budget(0, px * (60 + r * 4) + (w + h) * 100);
				RDError e2 = resdet_analyze_image(a, im.data());
				RDResolution* rw = nullptr,* rh = nullptr; size_t cw = 0, ch = 0;
				if(e2 || (e2 = resdet_analysis_results(a, &rw, &cw, &rh, &ch))) { if(cx->own_alloc_faults == own0) violation("spurious-error", "analysing %llux%llu failed: %s", (unsigned long long)w, (unsigned long long)h, err_name(e2)); }
				else if(rw[cw - 1].index != w || rh[ch - 1].index != h) violation("wrong-results", "the input's own size %llux%llu is not the last result", (unsigned long long)w, (unsigned long long)h);
				op_done();
				sim_free(rw); sim_free(rh);
			}
			resdet_destroy_analysis(a);
		}
	}
	sim_free(q);
	if(ledger_count()) violation("leak", "still held after closing: %s", ledger_dump().c_str());
}
// ---- sequences of frames too large to hold, skipped by seeking
static void sparse_stream() {
	Sample s;
	s.fm = chance(1, 2) ? FM_PFM : FM_Y4M;
	uint64_t w, h;
	static const uint64_t t[] = { 20000, 23171, 30000, 32768, 40000, 46341, 65536, 100000, 5, 1, 1500000000 };
	w = t[draw(11)]; h = w > 1000000 ? 1 + draw(3) : w < 10 ? t[draw(8)] * 10000 : t[draw(8)];
	if(chance(1, 3)) std::swap(w, h);
	size_t n = 1 + draw(4);
	struct Part { uint64_t at; Bytes b; };
	auto parts = std::make_shared<std::vector<Part>>();
	uint64_t off = 0;
	auto put = [&](const char* str) { parts->push_back({ off, Bytes(str, str + strlen(str)) }); off += strlen(str); };
	char head[200];
	u128 fsize = 0;
	if(s.fm == FM_PFM) {
		s.ext = "pfm";
		for(size_t i = 0; i < n; i++) {
			bool rgb = chance(1, 2);
			snprintf(head, sizeof head, "P%c\n%llu %llu\n-1.0\n", rgb ? 'F' : 'f', (unsigned long long)w, (unsigned long long)h);
			put(head);
			s.marks.push_back(off);
			off += w * h * 4 * (rgb ? 3 : 1);
		}
	}
	else {
		s.ext = "y4m";
		static const char* csp[] = { "mono", "420jpeg", "411", "422", "444", "444alpha", "444p16", "420p10", "mono16", "422p12" };
		size_t k = draw(10);
		uint64_t y = w * h, uv = 0; int b = k >= 6 ? 2 : 1;
		switch(k) { case 1: case 7: uv = (w + 1) / 2 * ((h + 1) / 2) * 2; break; case 2: uv = (w + 3) / 4 * h * 2; break; case 3: case 9: uv = (w + 1) / 2 * h * 2; break; case 4: case 6: uv = y * 2; break; case 5: uv = y * 3; break; }
		fsize = (u128)(y + uv) * b;
		snprintf(head, sizeof head, "YUV4MPEG2 W%llu H%llu C%s\n", (unsigned long long)w, (unsigned long long)h, csp[k]);
		put(head);
		for(size_t i = 0; i < n; i++) { put(chance(1, 3) ? "FRAME Ip\n" : "FRAME\n"); s.marks.push_back(off); off += (uint64_t)fsize; }
	}
	s.t.w = w; s.t.h = h; s.t.open = ACCEPT;
	FrameT loose; loose.loose = true;
	s.t.fr.assign(n, loose);
	if(chance(1, 3)) {                               // ends early, or is followed by something else
		uint64_t last = off - s.marks[n - 1];
		if(chance(1, 2)) { off -= chance(1, 2) ? 1 : 1 + draw(std::min<uint64_t>(last, 1u << 30)); s.t.fr.resize(n - 1); }
		else put("garbage that is no frame header");
		s.t.end = END_ERROR;
	}
	StreamCfg c; c.seekable = true; c.chunk_mode = (int)draw(2) * 3;
	OpenSpec o;
	s.data = std::make_shared<Bytes>(head, head + strlen(head));
	o = draw_open(s, false, false); o.own_buf = true;
	SimFile* f = vfs_add(o.name, s.data, c);
	f->size = off;
	f->gen = [parts](uint64_t at, uint8_t* b, size_t len) {
		memset(b, 0x3f, len);
		for(auto& p : *parts) {
			uint64_t a = std::max(at, p.at), e = std::min(at + len, p.at + p.b.size());
			if(a < e) memcpy(b + (a - at), p.b.data() + (a - p.at), e - a);
		}
	};
	g_alloc_cap = (size_t)64 << 30;
	logf("sparse %s of %llux%llu, %zu frames then %s, %llu bytes", s.ext.c_str(), (unsigned long long)w, (unsigned long long)h, s.t.fr.size(), s.t.end == END_CLEAN ? "end" : "damage", (unsigned long long)off);
	hist(w * 31 + h + n + off); count("limit.sparse");
	Handle hd; hd.file = f; hd.t = &s.t; hd.nobuf = true;
	if(hd.open(o)) {
		f->size = off;
		unsigned ops = 1 + (unsigned)draw(5);
		for(unsigned i = 0; i < ops && !hd.errored; i++) hd.seek(chance(1, 4) ? 0 : chance(1, 3) ? hd.left() + draw(2) : 1, chance(1, 2));
		for(size_t i = 0; i < n + 1 && !hd.errored; i++) hd.seek(1, true);
		if(!hd.errored) hd.seek(1, true);
	}
	hd.close();
}
void scen_limits() {
	switch(draw(LIMIT() == SIZE_MAX ? 5 : 6)) {
		case 0: declared(); break;
		case 1: analysis_dims(); break;
		case 2: case 5: near_limit(); break;
		case 3: bulk_limit(); break;
		default: if(LIMIT() == SIZE_MAX) sparse_stream(); else near_limit();
	}
	finish_run(true);
}
