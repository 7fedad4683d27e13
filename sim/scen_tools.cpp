// C19: the imgread tool: what it writes, its exit status, and what happens when reading or writing fails.
#include "reader.h"
#include <algorithm>
extern "C" int imgread_main(int, char**);
static std::string contents(SimStream* s) { fflush(s->f); return std::string(s->file->data->begin(), s->file->data->end()); }
static int command(const std::vector<std::string>& args, uint64_t steps) {
	std::vector<char*> av;
	for(auto& a : args) av.push_back((char*)a.c_str());
	av.push_back(nullptr);
	op_budget(0, 0, steps);
	int r = call_with_exit([&] { return imgread_main((int)args.size(), av.data()); });
	op_done();
	return r;
}
static std::string pfm_of(const std::vector<float>& px, size_t w, size_t h) {
	char b[80]; snprintf(b, sizeof b, "Pf\n%zu %zu\n-1.0\n", w, h);
	std::string s = b;
	for(size_t y = h; y-- > 0;) s.append((const char*)&px[y * w], w * 4);
	return s;
}
void scen_tools() {
	unsigned usage = (unsigned)draw(30);
	Limits l; l.maxdim = 14; l.maxframes = 5;
	if(chance(1, 50)) { l.maxframes = 2; l.fixed_w = 1 + draw(6); l.fixed_h = 200 + draw(900); if(chance(1, 2)) std::swap(l.fixed_w, l.fixed_h); }
	Sample s = gen_sample(draw_format(), l);
	bool faulty = chance(1, 2);
	if(s.fm <= FM_Y4M && chance(1, 5)) {
		auto d = std::make_shared<Bytes>(*s.data);
		if(chance(1, 2)) mutate(*d, s.marks, &s.note); else { d->resize(draw(d->size() + 1)); s.note += " truncated"; }
		s.data = d; s.t = ref_parse(s.fm, *d); R->nontrivial = 1; count("fault.damaged_bytes");
	}
	bool sin;
	StreamCfg cfg = install(s, faulty && chance(1, 2), &sin)->cfg;
	if(s.fm == FM_AV && !av_claims(s.ext)) return;                   // this name belongs to another reader
	std::string name = "in." + s.ext, other = "out.pfm";
	// reference: the frames of an undisturbed copy
	std::vector<std::vector<float>> fr; size_t w = 0, h = 0; bool opened; int ref_err;
	{
		StreamCfg plain; vfs_add(name, s.data, plain);
		float* b = nullptr; int e;
		op_budget(s.data->size(), 0, 1ull << 31);
		RDImage* im = resdet_open_image(name.c_str(), nullptr, &w, &h, &b, &e);
		opened = im;
		if(im) while(resdet_read_image_frame(im, b, &e)) fr.emplace_back(b, b + w * h);
		op_done();
		ref_err = e;
		resdet_close_image(im); sim_free(b);
	}
	SimFile* f = vfs_add(name, s.data, cfg);
	if(chance(1, 30)) f->cfg.open_errno = EACCES; else if(chance(1, 40)) f->exists = false;
	bool broken = f->cfg.open_errno || !f->exists;
	std::string expect;
	for(auto& x : fr) expect += pfm_of(x, w, h);
	StreamCfg oc; oc.bufmode = (int)draw(3); oc.bufsize = 64;
	uint64_t cap = ~0ull;
	if(chance(1, 4)) { cap = draw(expect.size() + 2); if(chance(1, 4) && expect.size() > 2) cap = expect.size() - 1 - draw(2); oc.capacity = cap; R->nontrivial = 1; }
	bool no_out = chance(1, 25);
	if(no_out) oc.open_errno = chance(1, 2) ? EACCES : EROFS;
	SimFile* of = vfs_add(other, std::make_shared<Bytes>(chance(1, 2) ? 500 : 0, (uint8_t)'x'), oc);
	SimStream* out = sim_std_capture(1),* err = sim_std_capture(2);
	if(faulty && chance(1, 3)) draw_alloc_plan(cx, 20);
	if(faulty && s.fm >= FM_AV && chance(1, 4)) draw_lib_plan(cx, 30);
	std::vector<std::string> args = { "imgread", name, other };
	if(usage == 29) args.resize(1 + draw(2));
	uint64_t f0 = cx->faults();
	int st = command(args, s.data->size() * 2000 + (uint64_t)w * h * (fr.size() + 4) * 600 + 3000000);
	uint64_t f1 = cx->faults();
	cx->alloc = AllocPlan(); cx->lib = LibPlan();
	std::string msg = contents(err), so = contents(out), got(of->data->begin(), of->data->end());
	logf("imgread with %zu arguments -> status %d, %zu of %zu bytes written, message %zu bytes%s", args.size() - 1, st, got.size(), expect.size(), msg.size(), f1 != f0 ? ", faults met" : "");
	hist(st + got.size() * 8 + args.size()); hist(f1 - f0); hist(cap);
	loghash(hash_str(msg.c_str())); loghash(crc_bytes(Bytes(got.begin(), got.end())));
	if(args.size() < 3) {
		if(!st || msg.empty()) violation("bad-usage-accepted", "imgread with %zu arguments exited with %d%s", args.size() - 1, st, msg.empty() ? " without a message" : "");
		finish_run(false); return;
	}
	bool cut = expect.size() > cap;
	bool unsure = s.t.open == UNSPEC || s.t.end == END_ANY || s.t.tolerant || s.t.may_reject;
	for(auto& x : s.t.fr) unsure |= x.loose;
	bool bad = !unsure && (s.t.open == REJECT || s.t.end == END_ERROR);
	if(st == 0) {
		if(broken || no_out || !opened) violation("success-on-error", "imgread exited with 0 although %s", broken ? "its input cannot be opened" : no_out ? "its output cannot be created" : "its input is no image");
		if(bad) violation("success-on-error", "imgread exited with 0 although its input is damaged");
		if(ref_err && !unsure) violation("success-on-error", "imgread exited with 0 although reading fails: %s", err_name(ref_err));
		if(cut) violation("lost-output", "imgread exited with 0 but only %zu of %zu bytes were written", got.size(), expect.size());
		if(got != expect) {
			size_t k = 0; while(k < got.size() && k < expect.size() && got[k] == expect[k]) k++;
			violation("wrong-output", "imgread wrote %zu bytes, should be %zu; the first difference is at %zu", got.size(), expect.size(), k);
		}
		if(!msg.empty()) violation("unexpected-message", "imgread succeeded but wrote to standard error: %s", msg.c_str());
		// what it wrote is read back as the same frames
		if(!fr.empty() && s.fm != FM_AV) {
			StreamCfg plain; vfs_add("back.pfm", std::make_shared<Bytes>(got.begin(), got.end()), plain);
			size_t bw = 0, bh = 0, n = 0; float* b = nullptr; int e;
			op_budget(got.size(), 0, 1ull << 31);
			RDImage* im = resdet_open_image("back.pfm", nullptr, &bw, &bh, &b, &e);
			if(!im || bw != w || bh != h) violation("round-trip", "what imgread wrote opens as %zux%zu (%s), not %zux%zu", bw, bh, err_name(e), w, h);
			while(resdet_read_image_frame(im, b, &e)) { if(n >= fr.size() || memcmp(b, fr[n].data(), w * h * 4)) violation("round-trip", "frame %zu read back from what imgread wrote differs", n); n++; }
			op_done();
			if(e || n != fr.size()) violation("round-trip", "%zu of %zu frames are read back from what imgread wrote (%s)", n, fr.size(), err_name(e));
			resdet_close_image(im); sim_free(b);
			count("probe.round_trip");
		}
		count("probe.commands_succeeded");
	}
	else {
		if(msg.empty()) violation("no-message", "imgread exited with %d without a message", st);
		if(f1 == f0 && !broken && !no_out && !cut && opened && !ref_err && !unsure) violation("failed-without-cause", "imgread exited with %d and: %s", st, msg.c_str());
		if(!no_out && !broken && opened && !unsure && got != std::string(500, 'x') && expect.compare(0, got.size(), got)) violation("wrong-output", "imgread failed after writing something that is not part of the frames");
		count("probe.commands_failed");
	}
	if(!so.empty()) violation("unexpected-message", "imgread wrote to standard output: %s", so.c_str());
	finish_run(true);
}
