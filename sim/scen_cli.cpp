// C12: the resdet command, its arguments, output streams and exit status.
#include "model.h"
#include <algorithm>
#include <getopt.h>
#include <cstdarg>
#include <strings.h>

extern "C" int resdet_main(int, char**);
static std::string contents(SimStream* s) { fflush(s->f); return std::string(s->file->data->begin(), s->file->data->end()); }
static std::string fmt(const char* f, ...) { char b[200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// what the chosen verbosity shows of the results
static std::string render(int v, RDResolution* rw, size_t cw, RDResolution* rh, size_t ch) {
	std::string s;
	if(v == 0) return s;
	if(v == 1) return fmt("%zu %zu\n", rw[0].index, rh[0].index);
	if(v == 2 || v == 3) {
		for(int d = 0; d < 2; d++) {
			RDResolution* r = d ? rh : rw; size_t c = d ? ch : cw;
			for(size_t i = 0; i < c; i++) { s += fmt("%zu", r[i].index); if(v == 3) s += fmt(":%f", r[i].confidence); s += " "; }
			s += "\n";
		}
		return s;
	}
	s = fmt("given: %zux%zu\nbest guess: %zux%zu%s\n", rw[cw - 1].index, rh[ch - 1].index, rw[0].index, rh[0].index, cw == 1 && ch == 1 ? " (not upsampled)" : "");
	cw--; ch--;
	if(cw || ch) s += "all width        height\n";
	for(size_t i = 0; i < std::max(cw, ch); i++) {
		s += i < cw ? fmt("%5zu (%5.2f%%)   ", rw[i].index, rw[i].confidence * 100) : std::string(17, ' ');
		if(i < ch) s += fmt("%5zu (%5.2f%%)", rh[i].index, rh[i].confidence * 100);
		s += "\n";
	}
	return s;
}
static int command(const std::vector<std::string>& args, uint64_t steps) {
	std::vector<char*> av;
	for(auto& a : args) av.push_back((char*)strdup(a.c_str()));
	av.push_back(nullptr);
	optind = 0; opterr = 1;
	op_budget(0, 0, steps);
	int r = call_with_exit([&] { return resdet_main((int)args.size(), av.data()); });
	op_done();
	return r;
}
static void bad_usage() {
	SimStream* out = sim_std_capture(1),* err = sim_std_capture(2);
	static const std::vector<std::vector<std::string>> k = {
		{ "-x", "abc" }, { "-x", "101" }, { "-x", "-1" }, { "-x", "nan" }, { "-r", "0" }, { "-r", "z" }, { "-f", "32" }, { "-f", "300" }, { "-f", "256" }, { "-f", "259" }, { "-f", "4294967298" }, { "-f", "-254" }, { "-f", "q" }, { "-o", "x" }, { "-n", "0" }, { "-n", "few" }, { "-m", "nosuch" }, { "-Q" }, { "-t", "pgm", "-R", "PGM" }, { "-R", "nosuch" }, { "-n" },
	};
	StreamCfg c; auto d = std::make_shared<Bytes>(enc_pgm(4, 4, std::vector<uint8_t>(16, 7), 255));
	vfs_add("in.pgm", d, c);
	std::vector<std::string> a = k[draw(k.size())], v = { "resdet" };
	if(a.size() == 1 && a[0] == "-n") { v.push_back("in.pgm"); v.push_back("-n"); }
	else if(chance(1, 12)) { v.push_back("-v1"); a.clear(); }     // no input at all
	else { for(auto& x : a) v.push_back(x); v.push_back("in.pgm"); }
	std::string line; for(auto& x : v) line += " " + x;
	int st = command(v, 1000000);
	std::string o = contents(out), e = contents(err);
	logf("command%s -> status %d, %zu bytes out, %zu bytes error", line.c_str(), st, o.size(), e.size());
	hist(hash_str(line.c_str()) + st);
	if(!st) violation("bad-usage-accepted", "\"%s\" exited with 0", line.c_str() + 1);
	if(e.empty()) violation("no-message", "\"%s\" failed without a message", line.c_str() + 1);
	if(a.size() < 2 || a[0] != "-R") if(!o.empty()) violation("results-on-error", "\"%s\" failed but printed: %s", line.c_str() + 1, o.c_str());
}
// -h, -V and -R list: what there is
static void info() {
	SimStream* out = sim_std_capture(1),* err = sim_std_capture(2);
	static const std::vector<std::vector<std::string>> pre = { {}, { "-p" }, { "-v", "2" }, { "-n", "3", "-o", "1" }, { "-m", "orig" } };
	std::vector<std::string> v = { "resdet" };
	for(auto& x : pre[draw(pre.size())]) v.push_back(x);
	unsigned k = (unsigned)draw(3);
	v.push_back(k == 0 ? "-h" : k == 1 ? "-V" : "-R"); if(k == 2) v.push_back("list");
	if(chance(1, 3)) v.push_back("in.pgm");
	std::string line; for(auto& x : v) line += " " + x;
	int st = command(v, 1000000);
	std::string o = contents(out), e = contents(err);
	logf("command%s -> status %d, %zu bytes out, %zu bytes error", line.c_str(), st, o.size(), e.size());
	hist(hash_str(line.c_str()) + st);
	const char* c = line.c_str() + 1;
	if(st) violation("wrong-status", "\"%s\" exited with %d", c, st);
	if(!e.empty()) violation("unexpected-message", "\"%s\" wrote to standard error: %s", c, e.c_str());
	auto lines_with = [&](const std::string& a, const std::string& b) {
		for(size_t p = 0; p < o.size();) { size_t q = o.find('\n', p); if(q == std::string::npos) q = o.size(); std::string l = o.substr(p, q - p); p = q + 1; size_t i = l.find(a); if(i != std::string::npos && l.find(b, i + a.size()) != std::string::npos) return true; }
		return false;
	};
	std::string list; for(const char* const* r = resdet_list_image_readers(); *r; r++) list += std::string(*r) + "\n";
	if(k == 0) {
		for(RDMethod* m = resdet_methods(); m->name; m++) if(!lines_with(std::string(" ") + m->name + " ", fmt(" %.0f%%", m->threshold * 100))) violation("wrong-output", "the help does not show %s and its threshold of %.0f%%:\n%s", m->name, m->threshold * 100, o.c_str());
		if(o.find(fmt("%zu", resdet_default_range())) == std::string::npos) violation("wrong-output", "the help does not show the default range of %zu:\n%s", resdet_default_range(), o.c_str());
	}
	if(k == 1) {
		if(o.find(resdet_libversion()) == std::string::npos) violation("wrong-output", "-V does not show the library's version %s:\n%s", resdet_libversion(), o.c_str());
		for(const char* const* r = resdet_list_image_readers(); *r; r++) if(o.find(*r) == std::string::npos) violation("wrong-output", "-V does not show the reader %s:\n%s", *r, o.c_str());
	}
	if(k == 2 && o != list) violation("wrong-output", "-R list printed:\n%s\nshould be:\n%s", o.c_str(), list.c_str());
	count("probe.information");
}
void scen_cli() {
	if(chance(1, 12)) { if(chance(1, 5)) info(); else bad_usage(); finish_run(false); return; }
	Limits l; l.maxdim = chance(1, 8) ? 40 : 16; l.maxframes = 6; l.finite = chance(3, 4);
	if(chance(1, 80)) { l.maxdim = 4; l.maxframes = 520; l.finite = true; }
	Sample s = gen_sample(draw_format(), l);
	bool faulty = chance(1, 2);
	if(s.fm <= FM_Y4M && chance(1, 6)) {
		auto d = std::make_shared<Bytes>(*s.data);
		if(chance(1, 2)) mutate(*d, s.marks, &s.note); else { d->resize(draw(d->size() + 1)); s.note += " truncated"; }
		s.data = d; s.t = ref_parse(s.fm, *d); R->nontrivial = 1; count("fault.damaged_bytes");
	}
	bool sin;
	SimFile* f0 = install(s, faulty && chance(1, 2), &sin);
	OpenSpec o = draw_open(s, sin, false);
	if(o.by_reader && chance(1, 4)) o.reader = draw_case(o.reader);
	else if(o.type == s.ext && chance(1, 4)) o.type = draw_case(o.type);
	if(o.name == "in" && !sin && chance(2, 3)) { static const char* x[] = { ".mkv", ".mp4", ".jpg", ".jpeg", ".webp", ".webm", ".avif", ".heic", ".xyz", ".", ".mp", ".mp4v" }; o.name = s.fm >= FM_AV ? "clip.mkv" : "clip" + draw_case(x[draw(12)]); }            // a name that says something else
	std::vector<std::string> argv = { "resdet" };
	auto opt = [&](const char* k, const std::string& v) { if(chance(1, 2)) argv.push_back(std::string(k) + v); else { argv.push_back(k); argv.push_back(v); } };
	if(o.by_reader) opt("-R", o.reader); else if(!o.type.empty()) opt("-t", o.type);
	int verb = (int)draw(5) - 1;
	if(verb >= 0 || chance(1, 4)) opt("-v", std::to_string(verb));
	MethodId m = M_SIGN; bool has_m = chance(1, 2);
	if(has_m) { m = (MethodId)draw(M_COUNT); opt("-m", method_name[m]); }
	RDParameters* p = resdet_alloc_default_parameters();
	if(chance(2, 3)) { static const size_t big[] = { 255, 256, 257, 65537, 65538, 1ull << 31, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 2, (1ull << 63) + 1, ~0ull }; size_t r = chance(1, 10) ? big[draw(11)] : 1 + draw(6); opt("-r", std::to_string(r)); resdet_parameters_set_range(p, r); }
	if(chance(1, 2)) { static const char* t[] = { "0", "50", "100", "25.5", "60", "1e1", "12.5" }; const char* x = t[draw(7)]; opt("-x", x); resdet_parameters_set_threshold(p, (float)(strtod(x, nullptr) / 100)); }
	bool autof = false;
	if(chance(1, o.name.rfind("clip.", 0) ? 6 : 2)) { autof = chance(1, 2); int v = (int)draw(32); opt("-f", autof ? "auto" : std::to_string(v)); if(!autof) resdet_parameters_set_compression_filter(p, (uint8_t)v); }
	bool progress = chance(1, 4); if(progress) argv.push_back("-p");
	uint64_t off = 0, nfr = 0;
	if(chance(1, 2)) { static const uint64_t big[] = { 100, 1ull << 32, ~0ull, 1ull << 63, 256, 65536, (1ull << 32) + 1 }; off = chance(1, 8) ? big[draw(7)] : draw(s.t.fr.size() + 2); opt("-o", std::to_string(off)); }
	if(chance(1, 2)) { static const uint64_t big[] = { 100, 1ull << 32, ~0ull, 1ull << 63, 257, 65537, (1ull << 32) + 1 }; nfr = chance(1, 8) ? big[draw(7)] : 1 + draw(s.t.fr.size() + 1); opt("-n", std::to_string(nfr)); }
	if(chance(1, 4)) argv.insert(argv.begin() + 1, o.name); else argv.push_back(o.name);
	std::string line; for(auto& x : argv) line += " " + x;
	SimFile* f;
	auto place = [&] { f = vfs_add(sin ? "<stdin>" : o.name, f0->data, f0->cfg); if(sin) sim_stdin_set(f); };
	StreamCfg keep = f0->cfg; auto data = f0->data;
	// reference: the frames of an undisturbed copy, analysed by a session of their own
	std::vector<std::vector<float>> fr; size_t w = 0, h = 0; bool ref_open = false; int ref_err = 0;
	{
		StreamCfg plain; vfs_add(sin ? "copy" : o.name, data, plain);
		float* b = nullptr; int e;
		std::string nm = sin ? "copy" : o.name;
		op_budget(data->size(), 0, 1ull << 31);
		RDImage* im = o.by_reader ? resdet_open_image_with_reader(nm.c_str(), o.reader.c_str(), &w, &h, &b, &e) : resdet_open_image(nm.c_str(), o.type.empty() ? nullptr : o.type.c_str(), &w, &h, &b, &e);
		ref_open = im; ref_err = e;
		if(im) while(resdet_read_image_frame(im, b, &e)) fr.emplace_back(b, b + w * h);
		if(im) ref_err = e;
		op_done();
		resdet_close_image(im); sim_free(b);
	}
	bool single = s.t.single;
	// success is due when every requested frame exists, is finite, and the end is reached without damage
	int due = 1;                                      // 1 must succeed, 0 must fail, -1 either (unspecified input)
	size_t avail = s.t.open == UNSPEC || s.t.end == END_ANY ? fr.size() : s.t.fr.size();
	if(s.t.open == UNSPEC) due = -1;
	else if(s.t.open == REJECT || (s.t.open == ACCEPT && !ref_open)) due = 0;
	else if(off > avail) due = 0;
	uint64_t lo = off, hi = nfr && nfr < avail - std::min<uint64_t>(off, avail) ? off + nfr : avail;
	if(due == 1) {
		bool to_end = !nfr || nfr > avail - off;
		if(lo >= hi) due = 0;
		else if(to_end && s.t.end == END_ERROR) due = 0;
		else if(to_end && s.t.end == END_ANY) due = -1;
		if(fr.size() < hi || w != s.t.w || h != s.t.h) { if(due == 1) due = s.t.tolerant || s.t.may_reject ? -1 : due; }
		for(uint64_t i = lo; due == 1 && i < hi; i++) { if(i >= s.t.fr.size() || s.t.fr[i].loose) due = -1; }
		if(single && s.t.end == END_ERROR) due = off ? 0 : due;
	}
	if(off > avail && s.t.end == END_ANY && s.t.open == ACCEPT) due = -1;
	if(autof) {
		uint8_t v = 0; bool has = false;
		size_t dot = o.name.rfind('.'); std::string ext = dot == std::string::npos ? "" : o.name.substr(dot);
		has = !ext.empty();
		if(!strcasecmp(ext.c_str(), ".jpeg") || !strcasecmp(ext.c_str(), ".jpg") || !strcasecmp(ext.c_str(), ".mp4") || !strcasecmp(ext.c_str(), ".mkv")) v = 3;
		if(!strcasecmp(ext.c_str(), ".webp") || !strcasecmp(ext.c_str(), ".webm")) v = 2;
		if(!strcasecmp(ext.c_str(), ".avif") || !strcasecmp(ext.c_str(), ".heic")) v = 5;
		if(has) resdet_parameters_set_compression_filter(p, v);
	}
	std::string expect; int expect_status = 0; bool have_expect = false; bool nonfinite = false;
	if(due != 0 && fr.size() >= hi && lo < hi) {
		int e;
		op_budget(0, 0, 1ull << 31);
		RDAnalysis* a = resdet_create_analysis(has_m ? resdet_get_method(method_name[m]) : nullptr, w, h, p, &e);
		for(uint64_t i = lo; !e && i < hi; i++) e = resdet_analyze_image(a, fr[i].data());
		RDResolution* rw = nullptr,* rh = nullptr; size_t cw, ch;
		if(!e) e = resdet_analysis_results(a, &rw, &cw, &rh, &ch);
		op_done();
		if(!e) { have_expect = true; expect = render(verb, rw, cw, rh, ch); expect_status = verb == 0 && cw == 1 && ch == 1; }
		else { nonfinite = true; if(due == 1) due = 0; }
		sim_free(rw); sim_free(rh); resdet_destroy_analysis(a);
	}
	else if(due == 1) violation("frames-missing", "an undisturbed copy of a stream with %zu frames of %zux%zu gave %zu frames of %zux%zu and error %d", s.t.fr.size(), s.t.w, s.t.h, fr.size(), w, h, ref_err);
	sim_free(p);
	f0 = vfs_add("unused", data, keep);
	place();
	if(!sin && chance(1, 30)) { f->cfg.open_errno = EACCES; } else if(!sin && chance(1, 40)) { f->exists = false; due = 0; }
	SimStream* out = sim_std_capture(1),* err = sim_std_capture(2);
	bool full = chance(1, 12); if(full) { out->file->cfg.capacity = draw(expect.size() + 2); }
	bool errfull = chance(1, 20); if(errfull) err->file->cfg.capacity = draw(40);
	if(faulty && chance(1, 3)) draw_alloc_plan(cx, 20);
	if(faulty && s.fm >= FM_AV && chance(1, 4)) draw_lib_plan(cx, 30);
	uint64_t ff = cx->faults();
	int st = command(argv, data->size() * 2000 + (uint64_t)w * h * (fr.size() + 4) * 600 + 3000000);
	uint64_t f_in = cx->faults();                     // includes a full output if the command noticed it
	cx->alloc = AllocPlan(); cx->lib = LibPlan();
	std::string got = contents(out), msg = contents(err);
	bool disturbed = f_in != ff;
	logf("command%s -> status %d, %zu bytes out, %zu bytes error%s", line.c_str(), st, got.size(), msg.size(), disturbed ? ", faults met" : "");
	hist(hash_str(line.c_str()) + st); hist(hash_str(got.c_str()));
	loghash(hash_str(got.c_str())); loghash(hash_str(msg.c_str()));
	bool cut = full && expect.size() > out->file->cfg.capacity;
	if(st == 0 || (verb == 0 && have_expect && st == 1 && !errfull && msg.find_first_not_of("\r\n") == std::string::npos)) {
		// claims success
		if(cut && st == 0 && verb != 0) violation("lost-results", "\"%s\" exited with 0 but only %zu of %zu bytes of its results were written", line.c_str() + 1, got.size(), expect.size());
		if(due == 0) violation("success-on-error", "\"%s\" exited with %d although %s; it printed: %s", line.c_str() + 1, st, nonfinite ? "a requested frame is not finite" : off >= avail ? "no requested frame exists" : "the stream is damaged or cannot be opened", got.c_str());
		if(have_expect && st != expect_status && !cut) violation("wrong-status", "\"%s\" exited with %d, should be %d", line.c_str() + 1, st, expect_status);
		if(have_expect && got != expect) violation("wrong-output", "\"%s\" printed:\n%s\nshould be:\n%s", line.c_str() + 1, got.c_str(), expect.c_str());
		if(!progress && !msg.empty() && st == 0) violation("unexpected-message", "\"%s\" succeeded but wrote to standard error: %s", line.c_str() + 1, msg.c_str());
		count("probe.commands_succeeded");
	}
	else {
		if(!got.empty() && !cut && !(verb == 0)) {
			violation("results-on-error", "\"%s\" exited with %d but printed: %s", line.c_str() + 1, st, got.c_str());
		}
		if(verb == 0 && !got.empty()) violation("results-on-error", "\"%s\" with -v0 printed: %s", line.c_str() + 1, got.c_str());
		if(msg.empty() && !errfull && !(verb == 0 && st == expect_status && have_expect)) violation("no-message", "\"%s\" exited with %d without a message", line.c_str() + 1, st);
		if(progress && !errfull) { size_t k = msg.find_last_not_of("\r\n"); size_t b = k == std::string::npos ? k : msg.find_last_of("\r\n", k); std::string last = k == std::string::npos ? "" : msg.substr(b == std::string::npos ? 0 : b + 1, k - (b == std::string::npos ? 0 : b + 1) + 1); if(last.empty() || !last.rfind("Analyzing frame ", 0) || !last.rfind("Seeking past frame ", 0)) if(!(verb == 0 && st == expect_status && have_expect)) violation("no-message", "\"%s\" exited with %d with only progress on standard error", line.c_str() + 1, st); }
		if(due == 1 && !disturbed && !cut && !(st == expect_status && have_expect)) violation("failed-without-cause", "\"%s\" exited with %d and: %s", line.c_str() + 1, st, msg.c_str());
		count("probe.commands_failed");
	}
	finish_run(false);
}
