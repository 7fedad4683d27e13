// Formats: generated streams with frames known by construction, and a strict reference parser.
#pragma once
#include "core.h"

enum Verdict { ACCEPT, REJECT, UNSPEC };
enum EndKind { END_CLEAN, END_ERROR, END_ANY };
struct FrameT { std::vector<float> px; bool loose = false; std::vector<std::pair<size_t, double>> slack; };   // loose: not judged
struct Truth {
	Verdict open = ACCEPT;
	size_t w = 0, h = 0;
	std::vector<FrameT> fr;
	EndKind end = END_CLEAN;
	bool single = false;        // holds at most one image; skipping it does not look at it
	bool may_reject = false;    // an error instead of success is acceptable (optional feature)
	bool tolerant = false;      // the decoding library defines recovery from truncation
	double tol = 1e-6;
	std::string why;
};
enum Format { FM_PGM, FM_PFM, FM_Y4M, FM_PNG, FM_JPEG, FM_AV, FM_MAGICK, FM_COUNT };
extern const char* fm_name[];
extern const char* fm_reader[];
struct Sample {
	Format fm = FM_PGM;
	std::shared_ptr<Bytes> data;
	Truth t;
	std::vector<uint64_t> marks;
	std::string ext, note;
};
struct Limits { size_t maxdim = 12, maxframes = 5; bool finite = false; size_t fixed_w = 0, fixed_h = 0; };
Sample gen_sample(Format fm, const Limits& l);
Format draw_format(bool native_only = false);
Truth ref_parse(Format fm, const Bytes& b, size_t max_px = 1 << 20);     // native formats only
void corpus_init();
bool px_equal(const float* a, const FrameT& f, double tol, size_t* at);
std::string draw_case(const std::string& s);
// generates raw bytes
Bytes enc_pgm(size_t w, size_t h, const std::vector<uint8_t>& px, unsigned maxval);
Bytes enc_y4m_header(size_t w, size_t h, const char* csp);
Bytes enc_png(size_t w, size_t h, int bits, int color, bool interlace, const std::vector<uint16_t>& samples, const Bytes* plte, bool trns, Prng& r, std::vector<uint64_t>* marks);
void mutate(Bytes& b, const std::vector<uint64_t>& marks, std::string* note);
uint64_t crc_bytes(const Bytes& b);
