#include "fmt.h"
#include "libs.h"
#include <zlib.h>
#include <algorithm>
#include <csetjmp>

const char* fm_name[] = { "pgm", "pfm", "y4m", "png", "jpeg", "libav", "magick" };
const char* fm_reader[] = { "PGM", "PFM", "Y4M", "libpng", "libjpeg", "FFmpeg", "MagickWand" };
uint64_t crc_bytes(const Bytes& b) { uint64_t h = 14695981039346656037ull; for(auto c : b) h = (h ^ c) * 1099511628211ull; return h; }

static void put(Bytes& b, const std::string& s) { b.insert(b.end(), s.begin(), s.end()); }
static void mark(Sample& s, size_t p) { s.marks.push_back(p); }
static size_t dim(const Limits& l) {
	// small sizes, odd ones and one-pixel rows included
	return 1 + draw(l.maxdim);
}
static std::string ws() { static const char* t[] = { "\n", " ", "\t", "  ", "\n\n", "\r\n", " \n", "\v", "\f" }; return t[draw(9)]; }
static std::string comments() {
	std::string s;
	if(chance(1, 3)) {
		size_t n = 1 + draw(3);
		if(chance(1, 30)) n = 3 + draw(40);
		for(size_t i = 0; i < n; i++) {
			if(chance(1, 25)) { s += '#' + std::string(1 + draw(3000), chance(1, 2) ? ' ' : '7') + '\n'; continue; }   // long lines are as good as short ones
			static const char* t[] = { "#\n", "# made by hand\n", "#P5 3 3 255\n", "## 12 34\n", "#\t\xff\x80 bytes\n" }; s += t[draw(5)];
		}
	}
	return s;
}

// ---------------------------------------------------------------- PGM
Bytes enc_pgm(size_t w, size_t h, const std::vector<uint8_t>& px, unsigned maxval) {
	Bytes b; char t[64]; snprintf(t, sizeof t, "P5\n%zu %zu\n%u\n", w, h, maxval); put(b, t); b.insert(b.end(), px.begin(), px.end()); return b;
}
static Sample gen_pgm(const Limits& l) {
	Sample s; s.fm = FM_PGM; s.ext = "pgm";
	auto d = std::make_shared<Bytes>(); s.data = d;
	Bytes& b = *d;
	size_t w = l.fixed_w ? l.fixed_w : dim(l), h = l.fixed_h ? l.fixed_h : dim(l);
	static const unsigned mv[] = { 255, 1, 2, 7, 100, 127, 254 };
	unsigned maxval = mv[draw(7)];
	put(b, "P5"); put(b, ws()); mark(s, b.size()); put(b, comments()); mark(s, b.size());
	put(b, std::to_string(w)); mark(s, b.size()); put(b, ws()); put(b, std::to_string(h)); put(b, ws()); put(b, std::to_string(maxval)); mark(s, b.size());
	static const char one[] = "\n \t\r"; b.push_back((uint8_t)one[draw(4)]); mark(s, b.size());
	FrameT f;
	Prng r(draw(1u << 30));
	for(size_t i = 0; i < w * h; i++) { unsigned v = (unsigned)r.below(maxval + 1); b.push_back((uint8_t)v); f.px.push_back(v / (float)maxval); }
	mark(s, b.size());
	s.t.fr.push_back(f); s.t.w = w; s.t.h = h; s.t.single = true;
	if(chance(1, 6)) { put(b, "P5\n1 1\n255\n\x01"); s.note = " +trailing"; }
	return s;
}
// ---------------------------------------------------------------- PFM
static void put_f(Bytes& b, float f, bool big) {
	uint8_t t[4]; memcpy(t, &f, 4);
	if(big) std::reverse(t, t + 4);
	b.insert(b.end(), t, t + 4);
}
static Sample gen_pfm(const Limits& l) {
	Sample s; s.fm = FM_PFM; s.ext = "pfm";
	auto d = std::make_shared<Bytes>(); s.data = d;
	Bytes& b = *d;
	size_t w = l.fixed_w ? l.fixed_w : dim(l), h = l.fixed_h ? l.fixed_h : dim(l);
	size_t n = 1 + draw(l.maxframes);
	bool mixed = chance(1, 2);
	bool rgb = chance(1, 3), big = chance(1, 3);
	for(size_t k = 0; k < n; k++) {
		if(mixed) { rgb = chance(1, 2); big = chance(1, 2); }
		mark(s, b.size());
		put(b, rgb ? "PF" : "Pf"); mark(s, b.size() - 1); put(b, ws()); put(b, comments()); mark(s, b.size());
		put(b, std::to_string(w)); put(b, ws()); put(b, std::to_string(h)); put(b, ws());
		static const char* sc[] = { "1.0", "1", "1.000000", "2.5", "0.5", "+1.0" };
		put(b, std::string(big ? "" : "-") + sc[draw(big ? 6 : 5)]);
		mark(s, b.size());
		static const char one[] = "\n \t"; b.push_back((uint8_t)one[draw(3)]); mark(s, b.size());
		FrameT f; f.px.assign(w * h, 0);
		Prng r(draw(1u << 30));
		unsigned style = (unsigned)draw(4);
		for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) {
			auto val = [&]() -> float {
				float v = r.below(1 << 20) / (float)(1 << 20);
				if(style == 1) v = v * 4 - 2;
				if(style == 2 && !l.finite && r.below(8) == 0) return r.below(2) ? NAN : -INFINITY;
				if(style == 3) v = r.below(5) * 0.25f;
				return v;
			};
			size_t at = (h - 1 - y) * w + x;
			if(!rgb) { float v = val(); put_f(b, v, big); f.px[at] = v; }
			else { float a = val(), c = val(), e = val(); put_f(b, a, big); put_f(b, c, big); put_f(b, e, big); f.px[at] = (float)(((double)a + c + e) / 3); }
		}
		s.t.fr.push_back(f);
	}
	mark(s, b.size());
	s.t.w = w; s.t.h = h;
	return s;
}
// ---------------------------------------------------------------- Y4M
struct Csp { const char* name; unsigned depth; int layout; };      // layout: 0 mono 1 420 2 411 3 422 4 444 5 444alpha
static const Csp csps[] = {
	{ "420jpeg", 8, 1 }, { "mono", 8, 0 }, { "420", 8, 1 }, { "420mpeg2", 8, 1 }, { "420paldv", 8, 1 }, { "411", 8, 2 }, { "422", 8, 3 }, { "444", 8, 4 }, { "444alpha", 8, 5 },
	{ "mono9", 9, 0 }, { "mono10", 10, 0 }, { "mono12", 12, 0 }, { "mono16", 16, 0 },
	{ "420p9", 9, 1 }, { "420p10", 10, 1 }, { "420p12", 12, 1 }, { "420p14", 14, 1 }, { "420p16", 16, 1 },
	{ "422p10", 10, 3 }, { "422p12", 12, 3 }, { "422p16", 16, 3 }, { "444p9", 9, 4 }, { "444p10", 10, 4 }, { "444p14", 14, 4 }, { "444p16", 16, 4 },
};
static size_t chroma(int layout, size_t w, size_t h) {
	switch(layout) {
		case 0: return 0;
		case 1: return ((w + 1) / 2) * ((h + 1) / 2) * 2;
		case 2: return ((w + 3) / 4) * h * 2;
		case 3: return ((w + 1) / 2) * h * 2;
		case 4: return w * h * 2;
		default: return w * h * 3;
	}
}
Bytes enc_y4m_header(size_t w, size_t h, const char* csp) {
	Bytes b; put(b, "YUV4MPEG2 W" + std::to_string(w) + " H" + std::to_string(h) + (csp ? std::string(" C") + csp : "") + "\n"); return b;
}
static Sample gen_y4m(const Limits& l) {
	Sample s; s.fm = FM_Y4M; s.ext = "y4m";
	auto d = std::make_shared<Bytes>(); s.data = d;
	Bytes& b = *d;
	size_t w = l.fixed_w ? l.fixed_w : dim(l), h = l.fixed_h ? l.fixed_h : dim(l);
	size_t n = draw(l.maxframes + 1);
	if(n == 0 && !chance(1, 3)) n = 1;
	const Csp& c = csps[draw(sizeof csps / sizeof *csps)];
	put(b, "YUV4MPEG2"); mark(s, b.size());
	std::vector<std::string> tags = { "W" + std::to_string(w), "H" + std::to_string(h) };
	if(strcmp(c.name, "420jpeg") || chance(1, 2)) tags.push_back(std::string("C") + c.name);
	if(chance(1, 2)) { static const char* t[] = { "F25:1", "F30000:1001", "F0:0" }; tags.push_back(t[draw(3)]); }
	if(chance(1, 3)) { static const char* t[] = { "Ip", "It", "Ib", "I?" }; tags.push_back(t[draw(4)]); }
	if(chance(1, 3)) { static const char* t[] = { "A1:1", "A0:0", "A128:117" }; tags.push_back(t[draw(3)]); }
	if(chance(1, 3)) { static const char* t[] = { "XYSCSS=420JPEG", "XW=12", "XCOLORRANGE=LIMITED", "Xfoo", "XC444", "XHIDDEN" }; tags.push_back(t[draw(6)]); }
	if(chance(1, 30)) for(size_t i = draw(30); i-- > 0;) tags.push_back("X" + std::string(draw(12), 'W'));
	if(chance(1, 30)) tags.push_back("X" + std::string(draw(400), 'x'));
	for(size_t i = tags.size(); i > 1; i--) { size_t j = i - 1 - draw(i); std::swap(tags[i - 1], tags[j]); }
	for(auto& t : tags) { put(b, " " + t); mark(s, b.size()); }
	b.push_back('\n'); mark(s, b.size());
	unsigned bw = c.depth > 8 ? 2 : 1;
	unsigned max = (1u << c.depth) - 1;
	size_t uv = chroma(c.layout, w, h);
	for(size_t k = 0; k < n; k++) {
		mark(s, b.size());
		put(b, "FRAME");
		if(chance(1, 4)) { static const char* t[] = { " Ip", " It1p", " XFOO=1", " Ip XY=Z" }; put(b, t[draw(4)]); if(chance(1, 25)) put(b, " X" + std::string(draw(600), 'F')); }
		b.push_back('\n'); mark(s, b.size());
		FrameT f;
		Prng r(draw(1u << 30));
		for(size_t i = 0; i < w * h; i++) { unsigned v = (unsigned)r.below(max + 1); b.push_back((uint8_t)v); if(bw == 2) b.push_back((uint8_t)(v >> 8)); f.px.push_back((float)(v / (double)max)); }
		mark(s, b.size());
		for(size_t i = 0; i < uv * bw; i++) b.push_back((uint8_t)r.next());
		s.t.fr.push_back(f);
	}
	mark(s, b.size());
	s.t.w = w; s.t.h = h;
	s.note = std::string(" ") + c.name;
	return s;
}
// ---------------------------------------------------------------- PNG
static void be32(Bytes& b, uint32_t v) { for(int i = 3; i >= 0; i--) b.push_back((uint8_t)(v >> (8 * i))); }
static void chunk(Bytes& b, const char* type, const uint8_t* d, size_t n) {
	be32(b, (uint32_t)n);
	size_t p = b.size();
	b.insert(b.end(), type, type + 4);
	if(n) b.insert(b.end(), d, d + n);
	be32(b, (uint32_t)crc32(0, b.data() + p, (uInt)(n + 4)));
}
static int png_channels(int color) { return color == 0 || color == 3 ? 1 : color == 2 ? 3 : color == 4 ? 2 : 4; }
Bytes enc_png(size_t w, size_t h, int bits, int color, bool interlace, const std::vector<uint16_t>& smp, const Bytes* plte, bool trns, Prng& r, std::vector<uint64_t>* marks) {
	Bytes b;
	static const uint8_t sig[8] = { 137, 80, 78, 71, 13, 10, 26, 10 };
	b.insert(b.end(), sig, sig + 8);
	auto mk = [&] { if(marks) marks->push_back(b.size()); };
	mk();
	Bytes ih; be32(ih, (uint32_t)w); be32(ih, (uint32_t)h);
	ih.push_back((uint8_t)bits); ih.push_back((uint8_t)color); ih.push_back(0); ih.push_back(0); ih.push_back(interlace);
	chunk(b, "IHDR", ih.data(), ih.size()); mk();
	int ch = png_channels(color);
	if(r.below(3) == 0) { uint8_t g[4] = { 0, 0, 0xb1, 0x8f }; chunk(b, "gAMA", g, 4); mk(); }
	if(r.below(4) == 0) { chunk(b, "tEXt", (const uint8_t*)"Title\0x", 7); mk(); }
	if(plte) { chunk(b, "PLTE", plte->data(), plte->size()); mk(); }
	if(trns) {
		Bytes t;
		if(color == 3) { size_t n = 1 + r.below(plte->size() / 3); for(size_t i = 0; i < n; i++) t.push_back((uint8_t)r.next()); }
		else for(int c = 0; c < ch; c++) { uint16_t v = (uint16_t)r.below(1u << bits); t.push_back((uint8_t)(v >> 8)); t.push_back((uint8_t)v); }
		chunk(b, "tRNS", t.data(), t.size()); mk();
	}
	Bytes raw;
	auto pass = [&](size_t x0, size_t y0, size_t dx, size_t dy) {
		size_t pw = w > x0 ? (w - x0 + dx - 1) / dx : 0, ph = h > y0 ? (h - y0 + dy - 1) / dy : 0;
		if(!pw || !ph) return;
		size_t bpp = std::max<size_t>(1, (size_t)ch * bits / 8), rb = (pw * ch * bits + 7) / 8;
		Bytes prev(rb, 0), cur(rb);
		for(size_t y = 0; y < ph; y++) {
			std::fill(cur.begin(), cur.end(), 0);
			for(size_t x = 0; x < pw; x++) for(int c = 0; c < ch; c++) {
				uint16_t v = smp[((y0 + y * dy) * w + x0 + x * dx) * ch + c];
				size_t i = x * ch + c;
				if(bits == 16) { cur[2 * i] = (uint8_t)(v >> 8); cur[2 * i + 1] = (uint8_t)v; }
				else if(bits == 8) cur[i] = (uint8_t)v;
				else cur[i * bits / 8] |= (uint8_t)(v << (8 - bits - (i * bits) % 8));
			}
			int ft = (int)r.below(5);
			raw.push_back((uint8_t)ft);
			for(size_t i = 0; i < rb; i++) {
				int a = i >= bpp ? cur[i - bpp] : 0, u = prev[i], c = i >= bpp ? prev[i - bpp] : 0, p = 0;
				if(ft == 1) p = a; else if(ft == 2) p = u; else if(ft == 3) p = (a + u) / 2;
				else if(ft == 4) { int q = a + u - c, pa = abs(q - a), pb = abs(q - u), pc = abs(q - c); p = pa <= pb && pa <= pc ? a : pb <= pc ? u : c; }
				raw.push_back((uint8_t)(cur[i] - p));
			}
			prev = cur;
		}
	};
	if(!interlace) pass(0, 0, 1, 1);
	else { pass(0, 0, 8, 8); pass(4, 0, 8, 8); pass(0, 4, 4, 8); pass(2, 0, 4, 4); pass(0, 2, 2, 4); pass(1, 0, 2, 2); pass(0, 1, 1, 2); }
	uLongf zl = compressBound(raw.size());
	Bytes z(zl);
	compress2(z.data(), &zl, raw.data(), raw.size(), (int)r.below(10));
	z.resize(zl);
	size_t parts = 1 + r.below(4), at = 0;
	for(size_t i = 0; i < parts; i++) {
		size_t n = i + 1 == parts ? z.size() - at : r.below(z.size() - at + 1);
		chunk(b, "IDAT", z.data() + at, n); mk();
		at += n;
	}
	if(r.below(4) == 0) { chunk(b, "tEXt", (const uint8_t*)"Comment\0late", 12); mk(); }
	chunk(b, "IEND", nullptr, 0); mk();
	return b;
}
static Sample gen_png(const Limits& l) {
	Sample s; s.fm = FM_PNG; s.ext = "png";
	size_t w = l.fixed_w ? l.fixed_w : dim(l), h = l.fixed_h ? l.fixed_h : dim(l);
	static const int kinds[][2] = { { 0, 8 }, { 2, 8 }, { 3, 8 }, { 0, 1 }, { 0, 2 }, { 0, 4 }, { 0, 16 }, { 2, 16 }, { 3, 1 }, { 3, 2 }, { 3, 4 }, { 4, 8 }, { 4, 16 }, { 6, 8 }, { 6, 16 } };
	auto& k = kinds[draw(15)];
	int color = k[0], bits = k[1], ch = png_channels(color);
	bool interlace = chance(1, 3);
	bool trns = (color == 0 || color == 2 || color == 3) && chance(1, 3);
	Prng r(draw(1u << 30));
	Bytes plte; size_t np = 0;
	if(color == 3) { np = 1 + r.below(1u << bits); for(size_t i = 0; i < np * 3; i++) plte.push_back((uint8_t)r.next()); }
	std::vector<uint16_t> smp(w * h * ch);
	for(auto& v : smp) v = (uint16_t)r.below(color == 3 ? np : (size_t)1 << bits);
	auto d = std::make_shared<Bytes>(enc_png(w, h, bits, color, interlace, smp, color == 3 ? &plte : nullptr, trns, r, &s.marks));
	s.data = d;
	FrameT f;
	double max = color == 3 ? 255 : (double)((1u << bits) - 1);
	for(size_t i = 0; i < w * h; i++) {
		double v = 0;
		if(color == 3) { for(int c = 0; c < 3; c++) v += plte[smp[i] * 3 + c]; v /= 3; }
		else if(color == 2 || color == 6) { for(int c = 0; c < 3; c++) v += smp[i * ch + c]; v /= 3; }
		else v = smp[i * ch];
		f.px.push_back((float)(v / max));
	}
	s.t.fr.push_back(f); s.t.w = w; s.t.h = h; s.t.single = true;
	s.t.tol = bits == 16 ? 1.01 / 255 : 2e-6;            // 16-bit samples may be reduced to 8 bits
	if(chance(1, 6)) put(*d, "trailing bytes after IEND");
	char t[80]; snprintf(t, sizeof t, " color=%d bits=%d%s%s", color, bits, interlace ? " interlaced" : "", trns ? " tRNS" : "");
	s.note = t;
	return s;
}
// ---------------------------------------------------------------- JPEG
struct JErr { jpeg_error_mgr m; jmp_buf jb; };
static void j_exit(j_common_ptr c) { longjmp(((JErr*)c->err)->jb, 1); }
static void j_emit(j_common_ptr, int) {}
static Bytes enc_jpeg(size_t w, size_t h, int kind, Prng& r) {
	jpeg_compress_struct c; JErr e;
	c.err = jpeg_std_error(&e.m); e.m.error_exit = j_exit; e.m.emit_message = j_emit;
	if(setjmp(e.jb)) harness_error("jpeg encode");
	jpeg_create_compress(&c);
	unsigned char* out = nullptr; unsigned long n = 0;
	jpeg_mem_dest(&c, &out, &n);
	c.image_width = (JDIMENSION)w; c.image_height = (JDIMENSION)h;
	bool gray = kind == 0 || kind == 4;
	c.input_components = gray ? 1 : 3; c.in_color_space = gray ? JCS_GRAYSCALE : JCS_RGB;
	jpeg_set_defaults(&c);
	if(kind == 5) jpeg_set_colorspace(&c, JCS_RGB);
	jpeg_set_quality(&c, 30 + (int)r.below(70), TRUE);
	if(kind == 2) for(int i = 0; i < 3; i++) c.comp_info[i].h_samp_factor = c.comp_info[i].v_samp_factor = 1;
	if(kind == 3 || kind == 4) jpeg_simple_progression(&c);
	if(kind == 1) c.restart_interval = 1 + (unsigned)r.below(3);
	jpeg_start_compress(&c, TRUE);
	if(r.below(3) == 0) jpeg_write_marker(&c, JPEG_COM, (const JOCTET*)"comment", 7);
	std::vector<JSAMPLE> row(w * 3);
	while(c.next_scanline < c.image_height) {
		for(auto& x : row) x = (JSAMPLE)r.below(256);
		JSAMPROW p = row.data();
		jpeg_write_scanlines(&c, &p, 1);
	}
	jpeg_finish_compress(&c);
	jpeg_destroy_compress(&c);
	Bytes b(out, out + n);
	free(out);
	return b;
}
static FrameT dec_jpeg(const Bytes& b, size_t* w, size_t* h) {
	jpeg_decompress_struct c; JErr e; FrameT f;
	c.err = jpeg_std_error(&e.m); e.m.error_exit = j_exit; e.m.emit_message = j_emit;
	if(setjmp(e.jb)) harness_error("jpeg decode");
	jpeg_create_decompress(&c);
	jpeg_mem_src(&c, b.data(), b.size());
	jpeg_read_header(&c, TRUE);
	c.out_color_space = JCS_GRAYSCALE;
	jpeg_start_decompress(&c);
	*w = c.output_width; *h = c.output_height;
	std::vector<JSAMPLE> row(*w);
	while(c.output_scanline < c.output_height) { JSAMPROW p = row.data(); jpeg_read_scanlines(&c, &p, 1); for(auto x : row) f.px.push_back(x / 255.f); }
	jpeg_finish_decompress(&c);
	jpeg_destroy_decompress(&c);
	return f;
}
static Sample gen_jpeg(const Limits& l) {
	Sample s; s.fm = FM_JPEG; s.ext = chance(1, 2) ? "jpeg" : "jpg";
	size_t w = l.fixed_w ? l.fixed_w : 1 + draw(l.maxdim * 2), h = l.fixed_h ? l.fixed_h : 1 + draw(l.maxdim * 2);
	if(w > 65500) w = 65500;
	if(h > 65500) h = 65500;
	int kind = (int)draw(6);
	Prng r(draw(1u << 30));
	auto d = std::make_shared<Bytes>(enc_jpeg(w, h, kind, r));
	s.data = d;
	size_t dw, dh;
	s.t.fr.push_back(dec_jpeg(*d, &dw, &dh));
	if(dw != w || dh != h) harness_error("jpeg size");
	s.t.w = w; s.t.h = h; s.t.single = true; s.t.tolerant = true;
	for(size_t i = 0; i + 1 < d->size(); i++) if((*d)[i] == 0xff && (*d)[i + 1]) s.marks.push_back(i);
	s.marks.push_back(d->size());
	static const char* kn[] = { " gray", " restart", " 444", " progressive", " gray progressive", " rgb" };
	s.note = kn[kind];
	return s;
}

// ---------------------------------------------------------------- containers, built once
struct Entry { std::string name, ext; Format fm; Bytes data; Truth t; bool varying = false, pipe_ok = true; };
static std::vector<Entry> g_corpus;

struct Clip { size_t w, h; };
static Bytes av_encode(const char* muxer, AVCodecID cid, AVPixelFormat pf, const std::vector<Clip>& clips, bool audio, int bframes) {
	AVFormatContext* fc = nullptr;
	if(avformat_alloc_output_context2(&fc, nullptr, muxer, nullptr) < 0) return {};
	const AVCodec* enc = avcodec_find_encoder(cid);
	if(!enc) { avformat_free_context(fc); return {}; }
	if(avio_open_dyn_buf(&fc->pb) < 0) harness_error("dyn buf");
	fc->flags |= AVFMT_FLAG_BITEXACT;
	AVStream* vs = avformat_new_stream(fc, nullptr);
	AVStream* as = audio ? avformat_new_stream(fc, nullptr) : nullptr;
	AVCodecContext* cc = nullptr;
	auto mk = [&](Clip c) {
		AVCodecContext* x = avcodec_alloc_context3(enc);
		x->width = (int)c.w; x->height = (int)c.h; x->pix_fmt = pf; x->time_base = AVRational{ 1, 25 }; x->framerate = AVRational{ 25, 1 };
		x->max_b_frames = bframes; x->gop_size = 12; x->flags |= AV_CODEC_FLAG_BITEXACT; x->strict_std_compliance = FF_COMPLIANCE_UNOFFICIAL; x->thread_count = 1;
		if(fc->oformat->flags & AVFMT_GLOBALHEADER) x->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
		if(avcodec_open2(x, enc, nullptr) < 0) { avcodec_free_context(&x); return (AVCodecContext*)nullptr; }
		return x;
	};
	cc = mk(clips[0]);
	if(!cc) return {};
	avcodec_parameters_from_context(vs->codecpar, cc);
	vs->time_base = cc->time_base; vs->avg_frame_rate = cc->framerate;
	if(as) { as->codecpar->codec_type = AVMEDIA_TYPE_AUDIO; as->codecpar->codec_id = AV_CODEC_ID_PCM_S16LE; as->codecpar->sample_rate = 8000; as->codecpar->format = AV_SAMPLE_FMT_S16; as->codecpar->ch_layout = AV_CHANNEL_LAYOUT_MONO; as->codecpar->bits_per_coded_sample = 16; as->codecpar->block_align = 2; as->codecpar->bit_rate = 128000; as->time_base = AVRational{ 1, 8000 }; }
	if(avformat_write_header(fc, nullptr) < 0) return {};
	Prng r(clips.size() * 977 + (uint64_t)cid * 31 + pf);
	AVPacket* pk = av_packet_alloc();
	AVFrame* f = av_frame_alloc();
	auto drain = [&] {
		while(avcodec_receive_packet(cc, pk) == 0) { pk->stream_index = 0; av_packet_rescale_ts(pk, cc->time_base, vs->time_base); if(!pk->duration) pk->duration = 1; av_interleaved_write_frame(fc, pk); }
	};
	for(size_t i = 0; i < clips.size(); i++) {
		if(i && (clips[i].w != clips[i - 1].w || clips[i].h != clips[i - 1].h)) { avcodec_send_frame(cc, nullptr); drain(); avcodec_free_context(&cc); cc = mk(clips[i]); if(!cc) return {}; }
		f->width = (int)clips[i].w; f->height = (int)clips[i].h; f->format = pf;
		if(av_frame_get_buffer(f, 0) < 0) harness_error("frame");
		for(int p = 0; p < 4 && f->data[p]; p++) {
			int hh = p && pf == AV_PIX_FMT_YUV420P || p && pf == AV_PIX_FMT_YUVJ420P ? (f->height + 1) / 2 : f->height;
			int ww = av_image_get_linesize(pf, f->width, p);
			for(int y = 0; y < hh; y++) for(int x = 0; x < ww; x++) f->data[p][y * f->linesize[p] + x] = (uint8_t)(i * 37 + r.below(97) + (x * 5 + y * 3) % 90);
		}
		f->pts = (int64_t)i;
		if(avcodec_send_frame(cc, f) < 0) harness_error("send_frame");
		av_frame_unref(f);
		drain();
		if(as) { av_new_packet(pk, 640); memset(pk->data, (int)i, 640); pk->stream_index = 1; pk->pts = pk->dts = (int64_t)i * 320; pk->duration = 320; av_packet_rescale_ts(pk, AVRational{ 1, 8000 }, as->time_base); av_interleaved_write_frame(fc, pk); }
	}
	avcodec_send_frame(cc, nullptr);
	drain();
	av_write_trailer(fc);
	av_frame_free(&f); av_packet_free(&pk); avcodec_free_context(&cc);
	uint8_t* out; int n = avio_close_dyn_buf(fc->pb, &out);
	fc->pb = nullptr;
	Bytes b(out, out + n);
	av_free(out);
	avformat_free_context(fc);
	return b;
}
// reference decode: the plainest possible loop
static bool av_decode(const Bytes& data, bool seekable, Truth& t) {
	SimFile f; f.name = "<corpus>"; f.data = std::make_shared<Bytes>(data); f.size = data.size(); f.cfg.seekable = seekable;
	AvioBox box = avio_for(&f, nullptr);
	AVFormatContext* fc = avformat_alloc_context();
	fc->pb = box.pb;
	int oe = avformat_open_input(&fc, "<corpus>", nullptr, nullptr); if(oe < 0) { if(getenv("SIM_VERBOSE")) { char eb[100]; av_strerror(oe, eb, 100); fprintf(stderr, "open: %s\n", eb); for(size_t i = 0; i < 64 && i < data.size(); i++) fprintf(stderr, "%02x", data[i]); fprintf(stderr, "\n"); } return false; }
	bool ok = avformat_find_stream_info(fc, nullptr) >= 0;
	const AVCodec* dec = nullptr;
	int si = ok ? av_find_best_stream(fc, AVMEDIA_TYPE_VIDEO, -1, -1, &dec, 0) : -1;
	if(si < 0 && getenv("SIM_VERBOSE")) fprintf(stderr, "streams %u ok %d si %d w %d\n", fc->nb_streams, ok, si, fc->nb_streams ? fc->streams[0]->codecpar->width : -1);
	if(si >= 0) {
		AVCodecContext* cc = avcodec_alloc_context3(dec);
		avcodec_parameters_to_context(cc, fc->streams[si]->codecpar);
		if(avcodec_open2(cc, dec, nullptr) < 0) harness_error("corpus decoder");
		t.w = cc->width; t.h = cc->height;
		if(cc->pix_fmt == AV_PIX_FMT_NONE || !t.w || !t.h) { avcodec_free_context(&cc); avformat_close_input(&fc); avio_drop(box); return false; }
		AVPacket* pk = av_packet_alloc(); AVFrame* fr = av_frame_alloc();
		SwsContext* sws = sws_getContext(cc->width, cc->height, cc->pix_fmt, cc->width, cc->height, AV_PIX_FMT_GRAYF32LE, SWS_BICUBIC, nullptr, nullptr, nullptr);
		bool stop = false;
		const int cc0_fmt = cc->pix_fmt;
		auto drain = [&] {
			while(!stop) {
				int e = avcodec_receive_frame(cc, fr);
				if(e == AVERROR(EAGAIN) || e == AVERROR_EOF) break;
				if(e < 0 || (size_t)fr->width != t.w || (size_t)fr->height != t.h || fr->format != cc0_fmt) { stop = true; t.end = END_ERROR; break; }
				FrameT o; o.px.assign(t.w * t.h, 0);
				uint8_t* dst[4] = { (uint8_t*)o.px.data() }; int ls[4] = { (int)t.w * 4 };
				// swscale may write past the row end of an unaligned buffer, so go through a padded one
				AVFrame* g = av_frame_alloc(); g->width = (int)t.w; g->height = (int)t.h; g->format = AV_PIX_FMT_GRAYF32LE; av_frame_get_buffer(g, 0);
				(void)dst; (void)ls;
				sws_scale(sws, fr->data, fr->linesize, 0, (int)t.h, g->data, g->linesize);
				for(size_t y = 0; y < t.h; y++) memcpy(o.px.data() + y * t.w, g->data[0] + y * g->linesize[0], t.w * 4);
				av_frame_free(&g);
				t.fr.push_back(o);
			}
		};
		int re = 0;
		while(!stop && (re = av_read_frame(fc, pk)) == 0) { if(pk->stream_index == si) { if(avcodec_send_packet(cc, pk) < 0) { stop = true; t.end = END_ERROR; } drain(); } av_packet_unref(pk); }
		if(!stop && re != AVERROR_EOF) { stop = true; t.end = END_ERROR; }
		if(!stop) { avcodec_send_packet(cc, nullptr); drain(); }
		sws_freeContext(sws);
		av_frame_free(&fr); av_packet_free(&pk); avcodec_free_context(&cc);
	}
	avformat_close_input(&fc);
	avio_drop(box);
	return si >= 0;
}
static Bytes magick_encode(const char* fmt, const std::vector<Clip>& clips, std::vector<FrameT>& truth, int style) {
	MagickWand* wd = NewMagickWand();
	Prng r(clips.size() * 31 + hash_str(fmt) + style);
	for(auto& c : clips) {
		FrameT f; std::vector<float> px(c.w * c.h * (style == 2 ? 3 : 1));
		for(auto& v : px) v = style == 1 ? (r.below(2) ? 1.f : 0.f) : r.below(256) / 255.f;
		MagickConstituteImage(wd, c.w, c.h, style == 2 ? "RGB" : "I", FloatPixel, px.data());
		// colours count with the weights ImageMagick gives them
		if(style == 2) { px.resize(c.w * c.h); MagickExportImagePixels(wd, 0, 0, c.w, c.h, "I", FloatPixel, px.data()); }
		f.px = px;
		truth.push_back(f);
	}
	MagickResetIterator(wd);
	MagickSetFormat(wd, fmt);
	for(MagickBooleanType ok = (MagickResetIterator(wd), MagickNextImage(wd)); ok; ok = MagickNextImage(wd)) MagickSetImageFormat(wd, fmt);
	MagickResetIterator(wd);
	size_t n; unsigned char* b = MagickGetImagesBlob(wd, &n);
	Bytes out;
	if(b) out.assign(b, b + n);
	MagickRelinquishMemory(b);
	DestroyMagickWand(wd);
	return out;
}
void corpus_init() {
	if(!variant_libs) return;
	av_log_set_level(AV_LOG_QUIET);
	auto same = [](size_t n, size_t w, size_t h) { return std::vector<Clip>(n, Clip{ w, h }); };
	struct A { const char* mux, *ext; AVCodecID c; AVPixelFormat p; std::vector<Clip> clips; bool audio; int b; bool varying; size_t expect; };
	std::vector<A> as = {
		{ "avi", "avi", AV_CODEC_ID_RAWVIDEO, AV_PIX_FMT_BGR24, same(4, 8, 6), true, 0, false, 4 },
		{ "avi", "avi", AV_CODEC_ID_HUFFYUV, AV_PIX_FMT_YUV422P, same(3, 16, 8), true, 0, false, 3 },
		{ "avi", "avi", AV_CODEC_ID_RAWVIDEO, AV_PIX_FMT_BGR24, same(5, 12, 4), true, 0, false, 5 },
		{ "avi", "avi", AV_CODEC_ID_MJPEG, AV_PIX_FMT_YUVJ420P, same(4, 18, 10), true, 0, false, 4 },
		{ "matroska", "mkv", AV_CODEC_ID_FFV1, AV_PIX_FMT_YUV420P, same(4, 16, 16), false, 0, false, 4 },
		{ "matroska", "mkv", AV_CODEC_ID_MPEG4, AV_PIX_FMT_YUV420P, same(9, 32, 16), false, 2, false, 9 },
		{ "matroska", "mkv", AV_CODEC_ID_MPEG4, AV_PIX_FMT_YUV420P, same(6, 16, 16), true, 1, false, 6 },
		{ "matroska", "mkv", AV_CODEC_ID_MPEG4, AV_PIX_FMT_YUV420P, same(1, 16, 16), false, 2, false, 1 },
		{ "nut", "nut", AV_CODEC_ID_FFV1, AV_PIX_FMT_GRAY8, same(3, 10, 7), false, 0, false, 3 },
		{ "yuv4mpegpipe", "y4m", AV_CODEC_ID_WRAPPED_AVFRAME, AV_PIX_FMT_YUV420P, same(3, 10, 6), false, 0, false, 3 },
		{ "matroska", "mkv", AV_CODEC_ID_PNG, AV_PIX_FMT_GRAY8, { { 8, 8 }, { 8, 8 }, { 12, 4 }, { 8, 8 } }, false, 0, true, 2 },
		{ "mjpeg", "mjpeg", AV_CODEC_ID_MJPEG, AV_PIX_FMT_YUVJ420P, { { 16, 16 }, { 16, 16 }, { 32, 8 }, { 16, 16 } }, false, 0, true, 2 },
		{ "avi", "avi", AV_CODEC_ID_MJPEG, AV_PIX_FMT_YUVJ420P, { { 16, 16 }, { 24, 24 }, { 16, 16 } }, true, 0, true, 1 },
		{ "nut", "nut", AV_CODEC_ID_PNG, AV_PIX_FMT_RGB24, { { 9, 9 }, { 9, 9 }, { 9, 9 }, { 6, 9 } }, false, 0, true, 3 },
		{ "matroska", "mkv", AV_CODEC_ID_PNG, AV_PIX_FMT_GRAY8, { { 8, 8 }, { 8, 8 }, { 8, 12 }, { 8, 8 } }, false, 0, true, 2 },
		{ "matroska", "mkv", AV_CODEC_ID_PNG, AV_PIX_FMT_GRAY8, { { 9, 8 }, { 9, 5 } }, false, 0, true, 1 },
		{ "nut", "nut", AV_CODEC_ID_PNG, AV_PIX_FMT_GRAY8, { { 9, 9 }, { 12, 9 }, { 9, 9 } }, false, 0, true, 1 },
		{ "avi", "avi", AV_CODEC_ID_MJPEG, AV_PIX_FMT_YUVJ420P, { { 32, 16 }, { 16, 16 }, { 8, 8 } }, true, 0, true, 1 },
		{ "mp4", "mp4", AV_CODEC_ID_MPEG4, AV_PIX_FMT_YUV420P, same(6, 32, 16), false, 2, false, 6 },
		{ "mov", "mov", AV_CODEC_ID_PNG, AV_PIX_FMT_GRAY8, same(4, 9, 7), true, 0, false, 4 },
		{ "flv", "flv", AV_CODEC_ID_FLV1, AV_PIX_FMT_YUV420P, same(5, 16, 16), false, 0, false, 4 },
		{ "mpegts", "ts", AV_CODEC_ID_MPEG2VIDEO, AV_PIX_FMT_YUV420P, same(6, 32, 32), false, 0, false, 6 },
		{ "mpeg", "mpg", AV_CODEC_ID_MPEG1VIDEO, AV_PIX_FMT_YUV420P, same(6, 32, 32), false, 0, false, 6 },
		{ "mpeg1video", "m1v", AV_CODEC_ID_MPEG1VIDEO, AV_PIX_FMT_YUV420P, same(4, 16, 16), false, 0, false, 4 },
		{ "m4v", "m4v", AV_CODEC_ID_MPEG4, AV_PIX_FMT_YUV420P, same(4, 16, 16), false, 0, false, 4 },
		{ "gif", "gif", AV_CODEC_ID_GIF, AV_PIX_FMT_GRAY8, same(4, 8, 8), false, 0, false, 4 },
		{ "mxf", "mxf", AV_CODEC_ID_MPEG2VIDEO, AV_PIX_FMT_YUV420P, same(4, 32, 32), false, 0, false, 4 },
		{ "swf", "swf", AV_CODEC_ID_FLV1, AV_PIX_FMT_YUV420P, same(4, 16, 16), false, 0, false, 4 },
		{ "ivf", "ivf", AV_CODEC_ID_AV1, AV_PIX_FMT_YUV420P, same(3, 16, 16), false, 0, false, 3 },
		{ "ivf", "ivf", AV_CODEC_ID_VP8, AV_PIX_FMT_YUV420P, same(3, 16, 16), false, 0, false, 3 },
		{ "webm", "webm", AV_CODEC_ID_VP9, AV_PIX_FMT_YUV420P, same(3, 16, 16), false, 0, false, 3 },
		{ "mp4", "mp4", AV_CODEC_ID_H264, AV_PIX_FMT_YUV420P, same(4, 32, 32), false, 1, false, 4 },
		{ "image2pipe", "bmp", AV_CODEC_ID_BMP, AV_PIX_FMT_BGR24, same(1, 7, 5), false, 0, false, 1 },
		{ "image2pipe", "webp", AV_CODEC_ID_WEBP, AV_PIX_FMT_YUV420P, same(1, 8, 6), false, 0, false, 1 },
	};
	int k = 0;
	for(auto& a : as) {
		Entry e; e.fm = FM_AV; e.ext = a.ext;
		e.data = av_encode(a.mux, a.c, a.p, a.clips, a.audio, a.b);
		char nm[80]; snprintf(nm, sizeof nm, "%s/%s#%d%s%s", a.mux, avcodec_get_name(a.c), k++, a.audio ? "+audio" : "", a.varying ? " varying" : ""); e.name = nm;
		if(e.data.empty()) { if(getenv("SIM_VERBOSE")) fprintf(stderr, "corpus: cannot encode %s\n", nm); continue; }
		Truth tp;
		if(!av_decode(e.data, true, e.t)) { if(getenv("SIM_VERBOSE")) fprintf(stderr, "corpus: cannot decode %s\n", nm); continue; }
		// moov boxes and index tables at the end are only reachable by seeking
		e.pipe_ok = strcmp(a.mux, "mp4") && strcmp(a.mux, "mov") && strcmp(a.mux, "mxf") && av_decode(e.data, false, tp) && tp.fr.size() == e.t.fr.size() && tp.w == e.t.w && tp.end == e.t.end;
		if(a.varying != (e.t.end == END_ERROR)) { if(getenv("SIM_VERBOSE")) fprintf(stderr, "corpus: %s does not end as expected (%d, pipe %d)\n", nm, e.t.end, tp.end); continue; }
		if(e.t.fr.size() != a.expect) { if(getenv("SIM_VERBOSE")) fprintf(stderr, "corpus: %s has %zu frames, expected %zu\n", nm, e.t.fr.size(), a.expect); continue; }
		e.varying = a.varying;
		e.t.tolerant = true; e.t.tol = 1e-5;
		if(getenv("SIM_VERBOSE")) fprintf(stderr, "corpus: %s %zu bytes %zu frames %zux%zu pipe=%d end=%d\n", nm, e.data.size(), e.t.fr.size(), e.t.w, e.t.h, e.pipe_ok, e.t.end);
		g_corpus.push_back(e);
	}
	struct M { const char* fmt, *ext; std::vector<Clip> clips; int style; };
	std::vector<M> ms = {
		{ "MIFF", "miff", same(1, 7, 5), 0 }, { "MIFF", "miff", same(4, 6, 6), 0 }, { "TIFF", "tiff", same(3, 9, 4), 0 }, { "GIF", "gif", same(3, 8, 8), 1 },
		{ "MIFF", "miff", { { 6, 6 }, { 6, 6 }, { 9, 3 }, { 6, 6 } }, 0 }, { "TIFF", "tiff", { { 5, 5 }, { 3, 3 } }, 0 }, { "MIFF", "miff", { { 4, 4 }, { 8, 8 } }, 0 }, { "MIFF", "miff", { { 8, 8 }, { 4, 4 }, { 8, 8 } }, 0 },
		{ "MIFF", "miff", same(3, 7, 4), 2 }, { "TIFF", "tiff", same(2, 6, 6), 2 }, { "SUN", "sun", same(1, 6, 9), 2 },
		{ "MIFF", "miff", same(40, 5, 5), 0 }, { "DCX", "dcx", same(3, 8, 6), 2 }, { "FITS", "fits", same(1, 9, 7), 0 }, { "VIFF", "viff", same(2, 9, 7), 2 },
		{ "BMP", "bmp", same(1, 5, 5), 2 }, { "SGI", "sgi", same(2, 9, 4), 2 }, { "MNG", "mng", same(3, 8, 8), 2 }, { "PDB", "pdb", same(1, 16, 16), 1 }, { "TIFF", "tiff", { { 6, 4 }, { 6, 4 }, { 6, 4 }, { 4, 6 } }, 2 },
		{ "MIFF", "miff", { { 6, 6 }, { 6, 6 }, { 12, 3 }, { 6, 6 } }, 0 }, { "TIFF", "tiff", { { 8, 4 }, { 4, 8 } }, 0 },
		{ "MIFF", "miff", { { 6, 6 }, { 6, 3 } }, 0 }, { "MIFF", "miff", { { 5, 7 }, { 5, 7 }, { 5, 9 }, { 5, 7 } }, 0 }, { "TIFF", "tiff", { { 6, 4 }, { 4, 4 } }, 0 }, { "MIFF", "miff", { { 6, 5 }, { 8, 5 } }, 0 },
	};
	for(auto& m : ms) {
		Entry e; e.fm = FM_MAGICK; e.ext = m.ext;
		std::vector<FrameT> tr;
		e.data = magick_encode(m.fmt, m.clips, tr, m.style);
		if(e.data.empty()) { if(getenv("SIM_VERBOSE")) fprintf(stderr, "corpus: cannot encode %s\n", m.fmt); continue; }
		e.t.w = m.clips[0].w; e.t.h = m.clips[0].h; e.t.tol = 1e-4; e.t.tolerant = true;
		for(size_t i = 0; i < m.clips.size(); i++) {
			if(m.clips[i].w != e.t.w || m.clips[i].h != e.t.h) { e.t.end = END_ERROR; e.varying = true; break; }
			e.t.fr.push_back(tr[i]);
		}
		// sanity of the stored truth against ImageMagick itself
		MagickWand* wd = NewMagickWand();
		bool ok = MagickReadImageBlob(wd, e.data.data(), e.data.size());
		size_t n = ok ? MagickGetNumberImages(wd) : 0;
		if(n != m.clips.size()) { if(getenv("SIM_VERBOSE")) fprintf(stderr, "corpus: %s has %zu images, expected %zu\n", m.fmt, n, m.clips.size()); DestroyMagickWand(wd); continue; }
		bool good = true;
		MagickResetIterator(wd);
		for(auto& f : e.t.fr) {
			MagickNextImage(wd);
			std::vector<float> px(e.t.w * e.t.h);
			MagickExportImagePixels(wd, 0, 0, e.t.w, e.t.h, "I", FloatPixel, px.data());
			size_t at; if(!px_equal(px.data(), f, e.t.tol, &at)) { good = false; if(getenv("SIM_VERBOSE")) fprintf(stderr, "corpus: %s pixel %zu is %g expected %g\n", m.fmt, at, px[at], f.px[at]); break; }
		}
		DestroyMagickWand(wd);
		if(!good) continue;
		char nm[80]; snprintf(nm, sizeof nm, "magick/%s x%zu%s", m.fmt, m.clips.size(), e.varying ? " varying" : ""); e.name = nm;
		if(getenv("SIM_VERBOSE")) fprintf(stderr, "corpus: %s %zu bytes\n", nm, e.data.size());
		g_corpus.push_back(e);
	}
}
bool g_force_varying;
static Sample gen_corpus(Format fm) {
	std::vector<const Entry*> c;
	for(auto& e : g_corpus) if(e.fm == fm && (!g_force_varying || e.varying)) c.push_back(&e);
	if(c.empty()) harness_error("empty corpus");
	const Entry& e = *c[draw(c.size())];
	Sample s; s.fm = fm; s.ext = e.ext; s.data = std::make_shared<Bytes>(e.data); s.t = e.t; s.note = " " + e.name;
	for(int i = 0; i < 12; i++) s.marks.push_back(e.data.size() * i / 11);
	if(!e.pipe_ok) s.note += " (file only)";
	return s;
}
Format draw_format(bool native_only) {
	static const Format order[] = { FM_PGM, FM_PFM, FM_Y4M, FM_PNG, FM_JPEG, FM_AV, FM_MAGICK };
	if(native_only) return order[draw(3)];
	// native multi-frame formats carry most of the state, so they come up more often
	static const Format w[] = { FM_PGM, FM_PFM, FM_Y4M, FM_PNG, FM_JPEG, FM_AV, FM_MAGICK, FM_PFM, FM_Y4M, FM_PFM, FM_Y4M, FM_PNG, FM_AV };
	return variant_libs ? w[draw(13)] : order[draw(3)];
}
Sample gen_sample(Format fm, const Limits& l) {
	switch(fm) {
		case FM_PGM: return gen_pgm(l);
		case FM_PFM: return gen_pfm(l);
		case FM_Y4M: return gen_y4m(l);
		case FM_PNG: return gen_png(l);
		case FM_JPEG: return gen_jpeg(l);
		default: return gen_corpus(fm);
	}
}
bool px_equal(const float* a, const FrameT& f, double tol, size_t* at) {
	if(f.loose) return true;
	for(size_t i = 0; i < f.px.size(); i++) {
		float x = a[i], y = f.px[i];
		if(std::isnan(y) ? std::isnan(x) : x == y) continue;
		double m = fabs(y) > 1 ? fabs(y) : 1;
		if(fabs((double)x - y) <= tol * m) continue;
		bool rounding = false;
		for(auto& k : f.slack) if(k.first == i && (k.second >= 1e31 || fabs((double)x - y) <= k.second)) rounding = true;
		if(!rounding) { *at = i; return false; }
	}
	return true;
}
std::string draw_case(const std::string& s) {
	std::string o = s;
	if(chance(1, 2)) for(auto& c : o) if(draw(2)) c = (char)(isupper((unsigned char)c) ? tolower((unsigned char)c) : toupper((unsigned char)c));
	return o;
}

// ---------------------------------------------------------------- strict reference parser
namespace {
struct In {
	const Bytes& b; size_t p = 0;
	int peek(size_t k = 0) const { return p + k < b.size() ? b[p + k] : -1; }
	int get() { return p < b.size() ? b[p++] : -1; }
	bool eof() const { return p >= b.size(); }
};
bool isws(int c) { return c == ' ' || (c >= 9 && c <= 13); }
bool isdig(int c) { return c >= '0' && c <= '9'; }
// decimal dimension
Verdict number(In& in, uint64_t& v, bool skip) {
	if(skip) while(isws(in.peek())) in.p++;
	int c = in.peek();
	if(c < 0) return REJECT;
	if(c == '#' || c == '+') return UNSPEC;
	if(c == '-') { in.p++; size_t n = 0; while(isdig(in.peek())) { in.p++; n++; } return n > 9 ? UNSPEC : REJECT; }
	if(!isdig(c)) return REJECT;
	size_t n = 0; v = 0;
	while(isdig(in.peek())) { v = v * 10 + (in.get() - '0'); if(++n > 9) return UNSPEC; }
	return ACCEPT;
}
Verdict after_magic(In& in) {
	int c = in.peek();
	if(c < 0) return REJECT;
	if(!isws(c)) return isdig(c) || c == '#' || c == '+' || c == '-' ? UNSPEC : REJECT;
	while(isws(in.peek())) in.p++;
	while(in.peek() == '#') { int x; while((x = in.get()) != '\n') if(x < 0) return REJECT; }
	return in.eof() ? REJECT : ACCEPT;
}
#define TRY(x) do { Verdict v_ = (x); if(v_ != ACCEPT) return v_; } while(0)
Verdict pgm_header(In& in, uint64_t& w, uint64_t& h, uint64_t& max) {
	if(in.get() != 'P') return REJECT;
	if(in.get() != '5') return REJECT;
	TRY(after_magic(in));
	TRY(number(in, w, true)); TRY(number(in, h, true)); TRY(number(in, max, true));
	int c = in.get();
	if(c == '#') return UNSPEC;
	if(c < 0 || !isws(c)) return REJECT;
	if(!w || !h || !max || max > 65535) return REJECT;
	return ACCEPT;
}
Verdict pfm_header(In& in, uint64_t& w, uint64_t& h, bool& rgb, bool& big) {
	if(in.get() != 'P') return REJECT;
	int t = in.get();
	if(t != 'f' && t != 'F') return REJECT;
	rgb = t == 'F';
	TRY(after_magic(in));
	TRY(number(in, w, true)); TRY(number(in, h, true));
	while(isws(in.peek())) in.p++;
	int c = in.peek();
	if(c < 0) return REJECT;
	if(c == '#') return UNSPEC;
	std::string s;
	if(c == '-' || c == '+') s += (char)in.get();
	size_t nd = 0; bool dot = false;
	for(;; ) { c = in.peek(); if(isdig(c)) nd++; else if(c == '.' && !dot) dot = true; else break; s += (char)in.get(); if(nd > 9) return UNSPEC; }
	if(!nd) return isws(c) || c < 0 ? REJECT : UNSPEC;
	if(s.back() == '.' || s[0] == '.' || s.find("-.") == 0 || s.find("+.") == 0) return UNSPEC;
	if(c < 0) return REJECT;
	if(!isws(c)) return strchr("eExXpP.#", c) ? UNSPEC : REJECT;
	in.p++;
	double v = atof(s.c_str());
	if(v == 0) return UNSPEC;
	big = v > 0;
	if(!w || !h) return REJECT;
	return ACCEPT;
}
Verdict y4m_header(In& in, uint64_t& w, uint64_t& h, unsigned& depth, int& layout) {
	static const char m[] = "YUV4MPEG2 ";
	for(int i = 0; i < 10; i++) if(in.get() != m[i]) return REJECT;
	bool hw = false, hh = false, hc = false, sep = true, unspec = false, reject = false;
	std::string csp = "420jpeg";
	for(;;) {
		int c = in.get();
		if(c < 0) return unspec ? UNSPEC : REJECT;
		if(c == '\n') { if(sep && (hw || hh || hc)) unspec = true; break; }
		if(c == ' ') { if(sep) unspec = true; sep = true; continue; }
		if(!sep) unspec = true;
		sep = false;
		if(c == 'W' || c == 'H') {
			uint64_t v = 0;
			if(isws(in.peek())) { unspec = true; continue; }
			Verdict r = number(in, v, false);
			if(r == UNSPEC) return UNSPEC;
			if(r == REJECT) { reject = true; while(in.peek() >= 0 && !isws(in.peek())) in.p++; continue; }
			if(in.peek() != ' ' && in.peek() != '\n') unspec = true;
			bool& have = c == 'W' ? hw : hh;
			if(have) unspec = true;
			have = true;
			(c == 'W' ? w : h) = v;
		}
		else {
			std::string tok;
			while(in.peek() >= 0 && !isws(in.peek())) tok += (char)in.get();
			if(tok.empty() && c != 'X') unspec = true;
			int e = in.peek();
			if(e >= 0 && e != ' ' && e != '\n') unspec = true;
			if(c == 'C') { if(hc || tok.size() > 9) unspec = true; hc = true; csp = tok; for(char x : tok) if((unsigned char)x < 33 || (unsigned char)x > 126) unspec = true; }
			else if(c != 'A' && c != 'F' && c != 'I' && c != 'X') unspec = true;
		}
	}
	if(unspec) return UNSPEC;
	if(reject || !hw || !hh || !w || !h) return REJECT;
	for(auto& k : csps) if(csp == k.name) { depth = k.depth; layout = k.layout; return ACCEPT; }
	const char* s = csp.c_str();
	bool mono = !strncmp(s, "mono", 4);
	if(!mono && strncmp(s, "420", 3) && strncmp(s, "411", 3) && strncmp(s, "422", 3) && strncmp(s, "444", 3)) return REJECT;
	const char* d = mono ? s + 4 : s[3] == 'p' ? s + 4 : nullptr;
	if(d && *d && strlen(d) <= 6 && strspn(d, "0123456789") == strlen(d)) { long v = atol(d); if(v < 8 || v > 16) return REJECT; }
	return UNSPEC;
}
}
Truth ref_parse(Format fm, const Bytes& b, size_t max_px) {
	Truth t; In in{ b };
	uint64_t w = 0, h = 0;
	if(fm == FM_PGM) {
		uint64_t max = 0;
		t.single = true;
		t.open = pgm_header(in, w, h, max);
		t.w = w; t.h = h;
		if(t.open != ACCEPT) return t;
		if(w * h > max_px) { t.open = UNSPEC; return t; }
		size_t bw = max > 255 ? 2 : 1;
		if(bw == 2) t.may_reject = true;
		if(b.size() - in.p < w * h * bw) { t.end = END_ERROR; return t; }
		FrameT f;
		for(uint64_t i = 0; i < w * h; i++) { unsigned v = in.get(); if(bw == 2) v = v << 8 | in.get(); if(v > max) f.loose = true; f.px.push_back(v / (float)max); }
		if(f.loose) t.end = END_ANY;
		t.fr.push_back(f);
		return t;
	}
	if(fm == FM_PFM) {
		bool rgb, big;
		t.open = pfm_header(in, w, h, rgb, big);
		t.w = w; t.h = h;
		if(t.open != ACCEPT) return t;
		if(w * h > max_px) { t.open = UNSPEC; return t; }
		for(;;) {
			size_t ch = rgb ? 3 : 1;
			if(b.size() - in.p < w * h * ch * 4) { t.end = END_ERROR; return t; }
			FrameT f; f.px.assign(w * h, 0);
			auto rd = [&] { uint8_t q[4]; for(int i = 0; i < 4; i++) q[big ? 3 - i : i] = (uint8_t)in.get(); float v; memcpy(&v, q, 4); return v; };
			for(uint64_t y = 0; y < h; y++) for(uint64_t x = 0; x < w; x++) {
				size_t at = (h - 1 - y) * w + x;
				if(!rgb) f.px[at] = rd();
				else {
					float a = rd(), c = rd(), e = rd();
					f.px[at] = (float)(((double)a + c + e) / 3);
					// large components that cancel, or whose sum leaves the range of a float
					double m = 0;
					for(double v : { a, c, e }) if(std::isfinite(v)) m = std::max(m, fabs(v));
					if((m > 1e37 || (m > 1 && m > 4 * fabs((double)f.px[at])))) f.slack.push_back({ at, m * 1e-6 });
				}
			}
			t.fr.push_back(f);
			if(in.eof()) return t;
			if(in.peek() != 'P') { t.end = END_ERROR; return t; }
			uint64_t nw = 0, nh = 0;
			Verdict v = pfm_header(in, nw, nh, rgb, big);
			if(v == UNSPEC) { t.end = END_ANY; return t; }
			if(v == REJECT || nw != w || nh != h) { t.end = END_ERROR; return t; }
		}
	}
	unsigned depth = 8; int layout = 0;
	t.open = y4m_header(in, w, h, depth, layout);
	t.w = w; t.h = h;
	if(t.open != ACCEPT) return t;
	if(w * h > max_px) { t.open = UNSPEC; return t; }
	size_t bw = depth > 8 ? 2 : 1, uv = chroma(layout, w, h) * bw;
	for(;;) {
		if(in.eof()) return t;
		static const char m[] = "FRAME";
		for(int i = 0; i < 5; i++) if(in.get() != m[i]) { t.end = END_ERROR; return t; }
		int c = in.peek();
		if(c >= 0 && c != ' ' && c != '\n') { t.end = END_ANY; return t; }
		while((c = in.get()) != '\n') if(c < 0) { t.end = END_ERROR; return t; }
		if(b.size() - in.p < w * h * bw + uv) { t.end = END_ERROR; return t; }
		FrameT f;
		for(uint64_t i = 0; i < w * h; i++) { unsigned v = in.get(); if(bw == 2) v |= in.get() << 8; f.px.push_back((float)(v / (double)((1u << depth) - 1))); }
		in.p += uv;
		t.fr.push_back(f);
	}
}

void mutate(Bytes& b, const std::vector<uint64_t>& marks, std::string* note) {
	size_t n = 1 + draw(3);
	if(chance(1, 3)) n = 1;
	for(size_t k = 0; k < n && !b.empty(); k++) {
		size_t at;
		if(!marks.empty() && chance(2, 3)) { int64_t q = (int64_t)marks[draw(marks.size())] + (int64_t)draw(7) - 3; at = q < 0 ? 0 : (size_t)q; if(at >= b.size()) at = b.size() - 1; }
		else at = draw(b.size());
		char t[80];
		switch(draw(7)) {
			case 0: { int bit = (int)draw(8); b[at] ^= (uint8_t)(1 << bit); snprintf(t, sizeof t, " flip@%zu.%d", at, bit); break; }
			case 1: { uint8_t v = (uint8_t)draw(256); b[at] = v; snprintf(t, sizeof t, " set@%zu=%02x", at, v); break; }
			case 2: { static const char sp[] = "0 \n#-P59fFWHCE+\xff"; uint8_t v = (uint8_t)sp[draw(sizeof sp)]; b[at] = v; snprintf(t, sizeof t, " set@%zu=%02x", at, v); break; }
			case 3: { uint8_t v = (uint8_t)draw(256); b.insert(b.begin() + at, v); snprintf(t, sizeof t, " insert@%zu=%02x", at, v); break; }
			case 4: { static const char sp[] = "0 \n#-P59fFWHCE+\xff"; uint8_t v = (uint8_t)sp[draw(sizeof sp)]; b.insert(b.begin() + at, v); snprintf(t, sizeof t, " insert@%zu=%02x", at, v); break; }
			case 5: { size_t len = 1 + draw(4); if(at + len > b.size()) len = b.size() - at; b.erase(b.begin() + at, b.begin() + at + len); snprintf(t, sizeof t, " delete@%zu+%zu", at, len); break; }
			default: { size_t len = 1 + draw(8); if(at + len > b.size()) len = b.size() - at; Bytes c(b.begin() + at, b.begin() + at + len); size_t to = draw(b.size() + 1); b.insert(b.begin() + to, c.begin(), c.end()); snprintf(t, sizeof t, " copy@%zu+%zu>%zu", at, len, to); break; }
		}
		*note += t;
	}
}
