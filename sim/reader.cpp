#include "reader.h"
#include "libs.h"
#include <algorithm>
std::string g_prop;
bool on(const char* props) { return g_prop.empty() || strstr(props, g_prop.c_str()); }
static bool onr(const char* props) { return g_prop == "C18" || on(props); }
extern uint64_t steps_now();

// a call may use this many basic blocks: generous multiples of the input and of the image
bool g_no_budgets;
void op_budget(uint64_t size, uint64_t px, uint64_t extra) { if(g_no_budgets) return; set_step_budget(steps_now() + 300000 + 600 * size + 400 * px + extra); }
void op_done() { if(g_no_budgets) return; set_step_budget(UINT64_MAX); }

bool valid_error(int e) { return e < 0 ? e > -4096 : e <= (int)resdet_get_max_error(); }
const char* err_name(int e) {
	static const char* n[] = { "OK", "NOMEM", "INTERNAL", "INVAL", "UNSUPP", "TOOBIG", "PARAM", "NOIMG" };
	static char b[8][32]; static int k;
	if(e >= 0 && e < 8) return n[e];
	k = (k + 1) & 7; snprintf(b[k], 32, "errno %d", -e); return b[k];
}
static void alloc_rule(const char* op, int err, bool only_own) {
	// an error whose only cause is the library's own failed allocation is RDENOMEM
	if(only_own && err != RDENOMEM && onr("C05")) violation("wrong-error", "%s: only an allocation of the library failed, but the error is %s", op, err_name(err));
}
static bool only_own_alloc(uint64_t f0, uint64_t own0) { return cx->faults() != f0 && cx->faults() - f0 == cx->own_alloc_faults - own0; }

bool tame(const Sample& s) {
	if(s.fm <= FM_Y4M) return true;
	Ctx* keep = cx; static Ctx quiet; quiet = Ctx(); quiet.id = 77; cx = &quiet;
	StreamCfg plain; std::string n = "tame." + s.ext;
	vfs_add(n, s.data, plain);
	size_t w = 0, h = 0; RDError e;
	op_budget(0, 0, 1ull << 31);
	RDImage* im = resdet_open_image(n.c_str(), nullptr, &w, &h, nullptr, &e);
	op_done();
	resdet_close_image(im);
	cx = keep;
	return !im || w * h <= 20000;
}
bool Handle::open(const OpenSpec& o) {
	faults0 = cx->faults();
	uint64_t own0 = cx->own_alloc_faults, io0 = cx->io_faults;
	size_t live0 = ledger_count(cx->id);
	int err = 12345;
	float* b = (float*)0x10;
	w = h = 777;
	op_budget(nobuf ? 1000 : file ? file->size : 0, 0);
	bool want_buf = !o.own_buf;
	if(o.by_reader) im = resdet_open_image_with_reader(o.name.c_str(), o.reader.c_str(), &w, &h, want_buf ? &b : nullptr, &err);
	else im = resdet_open_image(o.name.c_str(), o.type.empty() ? nullptr : o.type.c_str(), &w, &h, want_buf ? &b : nullptr, &err);
	op_done();
	logf("%sopen %s %s%s -> %s %zux%zu %s", label.c_str(), o.name.c_str(), o.by_reader ? "reader=" : "type=", o.by_reader ? o.reader.c_str() : o.type.c_str(), im ? "ok" : "null", w, h, err_name(err));
	hist(hash_str("open") + err + (im != nullptr));
	outcomes.push_back(0x1000000 + (unsigned)err); outcomes.push_back(w); outcomes.push_back(h);
	last_err = err;
	if(!valid_error(err)) violation("bad-error-code", "%sopen returned error %d", label.c_str(), err);
	if((im != nullptr) != (err == 0)) violation("open-inconsistent", "%sopen returned %s with error %s", label.c_str(), im ? "a handle" : "null", err_name(err));
	if(!im) {
		if(w || h) violation("open-outputs", "%sfailed open left dimensions %zux%zu", label.c_str(), w, h);
		if(want_buf && b) violation("open-outputs", "%sfailed open left the buffer pointer set", label.c_str());
		if(ledger_count(cx->id) != live0 && onr("C06,C05")) violation("leak", "%sfailed open (%s) kept: %s", label.c_str(), err_name(err), ledger_dump().c_str());
		if(strict()) {
			if(t->open == ACCEPT && !t->may_reject && !(t->tolerant && t->end == END_ERROR && t->fr.empty()) && onr("C01,C02,C03,C04,C13,C05,C12")) violation("rejected-valid", "%sopening a well-formed %zux%zu stream failed: %s", label.c_str(), t->w, t->h, err_name(err));
		}
		else {
			if(file && file->cfg.open_errno && cx->faults() - faults0 == 1 && cx->io_faults > io0 && err != -file->cfg.open_errno && onr("C03")) violation("wrong-error", "%sopen failed with errno %d but reported %s", label.c_str(), file->cfg.open_errno, err_name(err));
			alloc_rule("open", err, only_own_alloc(faults0, own0));
		}
		errored = true;
		return false;
	}
	if(t->open == REJECT && onr("C04,C03,C01")) violation("accepted-invalid", "%sa stream that breaks its format was opened as %zux%zu (%s)", label.c_str(), w, h, t->why.c_str());
	if(t->open == ACCEPT && (w != t->w || h != t->h) && onr("C01,C02,C03,C04,C05")) violation("wrong-dimensions", "%sopened as %zux%zu, the stream is %zux%zu", label.c_str(), w, h, t->w, t->h);
	if(!w || !h) violation("zero-dimensions", "%sopened as %zux%zu", label.c_str(), w, h);
	if(t->open != ACCEPT) unknown = true;
	if(want_buf) {
		if(!b) violation("open-outputs", "%ssuccessful open left no buffer", label.c_str());
		buf = b;
	}
	else {
		// exactly the documented size, so that a write beyond it is caught
		if(nobuf) return true;
		if(w > (1u << 28) / h) { unknown = true; return true; }
		buf = (float*)malloc(w * h * sizeof(float));
		harness_buf = true;
	}
	return true;
}
bool Handle::read() {
	if(!buf) return false;
	int err = 12345;
	uint64_t own0 = cx->own_alloc_faults, f0 = cx->faults();
	uint64_t px = (uint64_t)w * h;
	for(uint64_t i = 0; i < px && i < (1 << 20); i++) buf[i] = 123.5f;
	op_budget(file ? file->size : 0, px);
	bool r = resdet_read_image_frame(im, buf, &err);
	op_done();
	uint64_t ph = 0;
	if(r) for(uint64_t i = 0; i < px && i < 4096; i++) { uint32_t u; memcpy(&u, buf + i, 4); ph = mix64(ph ^ u); }
	logf("%sread -> %s %s", label.c_str(), r ? "frame" : "false", err_name(err));
	loghash(ph);
	hist(hash_str("read") + err + r * 77);
	outcomes.push_back(0x2000000 + (unsigned)err + r * 0x100); outcomes.push_back(ph);
	last_err = err;
	if(!valid_error(err)) violation("bad-error-code", "%sread returned error %d", label.c_str(), err);
	if(r && err) violation("read-inconsistent", "%sread returned true with error %s", label.c_str(), err_name(err));
	if(errored || unknown) return r;
	if(r) {
		if(pos >= t->fr.size()) {
			if(t->end != END_ANY && onr("C01,C02,C03,C04,C05")) {
				if(t->end == END_CLEAN) violation("extra-frame", "%sread returned a frame after all %zu frames", label.c_str(), t->fr.size());
				violation("delivered-bad-frame", "%sread delivered frame %zu, which is damaged, incomplete or of another size", label.c_str(), pos);
			}
			unknown = true;
			return r;
		}
		size_t at = 0;
		if(!px_equal(buf, t->fr[pos], t->tol, &at) && onr("C01,C02,C03,C04,C05")) {
			char which[100] = "";
			for(size_t k = 0; k < t->fr.size(); k++) { size_t x; if(k != pos && px_equal(buf, t->fr[k], t->tol, &x)) { snprintf(which, sizeof which, " (it is frame %zu)", k); break; } }
			violation("wrong-pixels", "%sframe %zu of %zux%zu: pixel %zu is %g, should be %g%s", label.c_str(), pos, w, h, at, buf[at], t->fr[pos].px[at], which);
		}
		pos++;
	}
	else if(!err) {
		if(pos < t->fr.size() && onr("C01,C02,C03,C04,C05")) violation("early-end", "%send of stream reported after %zu of %zu frames", label.c_str(), pos, t->fr.size());
		if(t->end == END_ERROR && !skipped_single && !t->tolerant && onr("C03,C04,C01")) violation("silent-truncation", "%send of stream reported although damaged or incomplete data follows frame %zu", label.c_str(), pos);
		if(t->end == END_ERROR && t->tolerant && onr("C04,C01") && !skipped_single) violation("silent-bad-frame", "%send of stream reported although a frame of another size follows frame %zu", label.c_str(), pos);
	}
	else {
		errored = true;
		if(f0 == cx->faults() && strict() && !(pos >= t->fr.size() && t->end != END_CLEAN) && !(pos < t->fr.size() && t->fr[pos].loose) && onr("C01,C02,C03,C04,C12"))
			violation("spurious-error", "%sreading frame %zu of %zu failed without a cause: %s", label.c_str(), pos, t->fr.size(), err_name(err));
		if(cx->faults() - faults0 == cx->own_alloc_faults - own0 && cx->faults() != f0) alloc_rule("read", err, true);
	}
	return r;
}
namespace { struct Prog { uint64_t next = 1; void* self; const char* bad = nullptr; uint64_t limit; }; }
static void prog_cb(void* c, uint64_t n) {
	Prog* p = (Prog*)c;
	if(p->self != p) { p->bad = "wrong context"; return; }
	if(n != p->next) p->bad = "wrong number";
	p->next++;
}
bool Handle::seek(uint64_t k, bool progress) {
	int err = 12345;
	uint64_t own0 = cx->own_alloc_faults, f0 = cx->faults();
	Prog p; p.self = &p;
	op_budget(nobuf ? 100000 : file ? file->size : 0, nobuf ? 0 : (uint64_t)w * h);
	bool r = resdet_seek_frame(im, k, progress ? prog_cb : nullptr, progress ? &p : nullptr, &err);
	op_done();
	uint64_t done = p.next - 1;
	logf("%sseek %llu%s -> %s %s, %llu skipped", label.c_str(), (unsigned long long)k, progress ? " with progress" : "", r ? "true" : "false", err_name(err), (unsigned long long)(progress ? done : 0));
	hist(hash_str("seek") + err + r * 77 + k * 3);
	outcomes.push_back(0x3000000 + (unsigned)err + r * 0x100); outcomes.push_back(done);
	last_err = err;
	if(!valid_error(err)) violation("bad-error-code", "%sseek returned error %d", label.c_str(), err);
	if(r && err) violation("seek-inconsistent", "%sseek returned true with error %s", label.c_str(), err_name(err));
	if(p.bad && onr("C02,C01")) violation("progress-callback", "%sprogress callback: %s", label.c_str(), p.bad);
	if(errored || unknown) return r;
	if(progress && r && done != k && onr("C02")) violation("progress-callback", "%sprogress reported %llu of %llu skipped frames", label.c_str(), (unsigned long long)done, (unsigned long long)k);
	size_t have = left();
	if(t->single) have = pos == 0 && !skipped_single ? 1 : 0;      // the only image is skipped unseen
	const char* who = "C02,C03,C01,C04,C12";
	if(r) {
		if(k > have && t->end != END_ANY && onr(who)) violation("seek-past-end", "%sseeking by %llu succeeded with %zu frames left", label.c_str(), (unsigned long long)k, have);
		if(k > have) { unknown = true; return r; }
		pos += k;
		if(t->single && k) { skipped_single = true; pos = t->fr.size(); }
	}
	else if(!err) {
		if(k <= have && onr(who)) violation("seek-failed", "%sseeking by %llu returned false with %zu frames left", label.c_str(), (unsigned long long)k, have);
		if(t->end == END_ERROR && !t->single && onr("C03,C04")) violation("silent-truncation", "%sseek reported the end of the stream although damaged or incomplete data follows", label.c_str());
		if(progress && done != have && t->end == END_CLEAN && onr("C02")) violation("progress-callback", "%sprogress reported %llu skipped frames of %zu left", label.c_str(), (unsigned long long)done, have);
		pos = t->fr.size();
		if(t->single) skipped_single = true;
	}
	else {
		errored = true;
		if(f0 == cx->faults() && strict() && !(k > have && t->end != END_CLEAN) && onr(who)) violation("spurious-error", "%sseeking by %llu with %zu frames left failed without a cause: %s", label.c_str(), (unsigned long long)k, have, err_name(err));
		if(cx->faults() - faults0 == cx->own_alloc_faults - own0 && cx->faults() != f0) alloc_rule("seek", err, true);
	}
	return r;
}
void Handle::close() {
	op_budget(0, 0);
	if(im) resdet_close_image(im);
	op_done();
	im = nullptr;
	if(buf) { if(harness_buf) free(buf); else sim_free(buf); }
	buf = nullptr;
}

// FFmpeg is offered the names its demuxers list; y4m belongs to the native reader
bool av_claims(const std::string& ext) {
	if(ext == "y4m") return false;
	void* st = nullptr;
	while(const AVInputFormat* f = av_demuxer_iterate(&st)) if(f->extensions && ("," + std::string(f->extensions) + ",").find("," + ext + ",") != std::string::npos) return true;
	return false;
}
OpenSpec draw_open(const Sample& s, bool is_stdin, bool exotic) {
	OpenSpec o;
	o.from_stdin = is_stdin;
	std::string base = is_stdin ? "-" : "in";
	static const char* mime[] = { "image/x-portable-graymap", "image/x-portable-floatmap", "video/yuv4mpeg", "image/png", "image/jpeg" };
	bool by_ext_ok = s.fm != FM_AV || av_claims(s.ext);
	if(s.fm == FM_MAGICK && s.ext != "miff") by_ext_ok = false;    // other readers may claim it
	unsigned how = (unsigned)draw(4);
	if(!by_ext_ok) how = 1;
	if(is_stdin && how == 0) how = 2;
	if(how == 3 && s.fm > FM_JPEG) how = 2;
	o.own_buf = chance(1, 3);
	switch(how) {
		case 0: {
			static const char* pre[] = { "in", "dir.d/in", "./a.b.c", "in.pgm.x", "in y4m" };
			o.name = std::string(exotic ? pre[draw(5)] : "in") + "." + (exotic ? draw_case(s.ext) : s.ext); break; }
		case 1: o.name = base; o.by_reader = true; o.reader = exotic ? draw_case(fm_reader[s.fm]) : fm_reader[s.fm]; break;
		case 2: o.name = is_stdin ? base : exotic && s.fm < FM_AV && chance(1, 2) ? "in.png" : "in"; o.type = exotic ? draw_case(s.ext) : s.ext; break;
		default: o.name = base; o.type = mime[s.fm]; break;
	}
	return o;
}
SimFile* install(Sample& s, bool faults, bool* is_stdin) {
	bool file_only = s.note.find("(file only)") != std::string::npos;
	bool sin = chance(1, 5) && !file_only;
	StreamCfg c = draw_transport(!file_only, false, faults, s.data->size(), s.marks);
	if(s.fm == FM_AV) c.seek_fail_den = 0;        // demuxers swallow failed seeks, and the reader cannot see them
	*is_stdin = sin;
	SimFile* f = vfs_add("in", s.data, c);
	logf("stream %s%s: %zu bytes, %s %zux%zu, %zu frames then %s; %s%s", fm_name[s.fm], s.note.c_str(), s.data->size(), s.t.open == ACCEPT ? "valid" : s.t.open == REJECT ? "invalid" : "unspecified", s.t.w, s.t.h, s.t.fr.size(), s.t.end == END_CLEAN ? "end" : s.t.end == END_ERROR ? "damage" : "unspecified", cfg_str(c).c_str(), sin ? " on stdin" : "");
	loghash(crc_bytes(*s.data));
	hist(crc_bytes(*s.data)); hist(hash_str(cfg_str(c).c_str()) + sin);
	return f;
}
void finish_run(bool leaks) {
	if(!sim_stdin_open()) violation("stdin-closed", "standard input was closed");
	if(leaks && ledger_count() && onr("C05,C06")) violation("leak", "%zu resources still held after everything was closed: %s", ledger_count(), ledger_dump().c_str());
}
