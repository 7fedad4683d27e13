// C01-C04, C06, C07: one process, a few readers, arbitrary histories over simulated streams.
#include "reader.h"
#include "heap.h"
#include <algorithm>

static SimFile* bind(Sample& s, OpenSpec& o, bool faults, bool exotic) {
	bool sin;
	SimFile* f = install(s, faults, &sin);
	o = draw_open(s, sin, exotic);
	if(sin) { f = vfs_add("<stdin>", f->data, f->cfg); sim_stdin_set(f); return f; }
	// the file appears under the name that is opened
	return vfs_add(o.name, f->data, f->cfg);
}
static void history(Handle& h, bool seeks, unsigned maxops) {
	unsigned n = (unsigned)range(1, maxops);
	for(unsigned i = 0; i < n; i++) {
		if(seeks && chance(2, 5)) {
			uint64_t k;
			switch(draw(6)) {
				case 0: k = 0; break;
				case 1: k = 1; break;
				case 2: k = draw(h.t->fr.size() + 3); break;
				case 3: k = h.left(); break;
				case 4: k = h.left() + 1; break;
				default: { static const uint64_t big[] = { 255, 256, 65536, (1ull << 32) + 1, 1ull << 63, ~0ull }; k = big[draw(6)]; break; }
			}
			h.seek(k, chance(1, 2));
		}
		else h.read();
	}
}
static void drain(Handle& h) {
	for(size_t i = 0; i < h.t->fr.size() + 2 && !h.errored; i++) h.read();
	if(!h.errored && chance(1, 2)) { h.seek(chance(1, 2) ? 1 : 0, true); h.read(); }
}
static Limits lim() {
	Limits l;
	if(chance(1, 10)) { l.maxdim = 1 + draw(2); return l; }                         // a pixel or two a frame
	if(variant_pixel_max < 16000) { if(chance(1, 10)) l.maxdim = 30; return l; }
	if(chance(1, 10)) { l.maxdim = 60; l.maxframes = 3; }
	else if(chance(1, 120)) { l.maxdim = 3; l.maxframes = 520; }                      // long sequences
	else if(chance(1, 60)) { l.maxframes = 3; l.fixed_w = (size_t)(1u << (6 + draw(8))) + draw(3) - 1; l.fixed_h = 1 + draw(4); if(chance(1, 3)) std::swap(l.fixed_w, l.fixed_h); }     // around the buffer sizes
	else if(chance(1, 400)) { l.maxdim = 260; l.maxframes = 2; }
	else if(chance(1, 150)) { l.maxframes = 2; l.fixed_w = 65530 + draw(12); l.fixed_h = 1 + draw(2); if(chance(1, 2)) std::swap(l.fixed_w, l.fixed_h); }     // around 16 bits
	return l;
}

void scen_clean() {                                  // C01
	Sample s = gen_sample(draw_format(), lim());
	OpenSpec o; Handle h;
	h.file = bind(s, o, false, true); h.t = &s.t;
	if(h.open(o)) { drain(h); h.read(); }
	h.close();
	finish_run(false);
}
void scen_seek() {                                   // C02
	Sample s = gen_sample(draw_format(), lim());
	if(s.t.single && chance(2, 3)) s = gen_sample(chance(1, 2) ? FM_PFM : FM_Y4M, lim());
	OpenSpec o; Handle h;
	h.file = bind(s, o, false, false); h.t = &s.t;
	if(h.open(o)) { history(h, true, 9); drain(h); }
	h.close();
	finish_run(false);
}
static void truncate_sample(Sample& s) {
	size_t at;
	if(!s.marks.empty() && chance(1, 2)) { int64_t q = (int64_t)pick(s.marks) + (int64_t)draw(5) - 2; at = q < 0 ? 0 : (size_t)q; if(at > s.data->size()) at = s.data->size(); }
	else at = draw(s.data->size() + 1);
	auto d = std::make_shared<Bytes>(s.data->begin(), s.data->begin() + at);
	s.data = d;
	char t[60]; snprintf(t, sizeof t, " truncated@%zu", at); s.note += t;
	count("fault.truncation"); R->nontrivial = 1; hist(0x77);
	if(s.fm <= FM_Y4M) s.t = ref_parse(s.fm, *d);
	else if(s.fm == FM_PNG) s.t.open = ACCEPT;
	else { s.t.open = UNSPEC; }
}
void scen_fault() {                                  // C03
	Sample s = gen_sample(draw_format(), lim());
	bool trunc = chance(1, 3);
	bool damaged_png = false;
	if(trunc && s.fm != FM_PNG) truncate_sample(s);
	else if(trunc) { truncate_sample(s); damaged_png = true; }
	bool io = !trunc || chance(1, 3);
	OpenSpec o; Handle h;
	h.file = bind(s, o, io, false); h.t = &s.t;
	if(!o.from_stdin && chance(1, 15)) {
		static const int es[] = { EACCES, EMFILE, EIO, ENOENT, EISDIR, ENFILE, ELOOP };
		h.file->cfg.open_errno = es[draw(7)];
	}
	else if(!o.from_stdin && chance(1, 40)) { h.file->exists = false; s.t.open = REJECT; }
	if(s.fm >= FM_AV && io && chance(1, 3)) draw_lib_plan(cx, 30);
	h.lenient = damaged_png;                      // wrong pixels never, an error always
	if(h.open(o)) {
		if(chance(1, 2)) history(h, true, 7);
		drain(h);
		if(h.errored) history(h, true, 4);
	}
	else if(!h.file->exists && h.strict() && h.last_err != -ENOENT) violation("wrong-error", "opening a file that does not exist reported %s", err_name(h.last_err));
	h.close();
	finish_run(false);
}
void scen_damage() {                                 // C04
	extern bool g_force_varying;
	unsigned what = (unsigned)draw(5);
	if(!variant_libs && what >= 3) what = 0;
	Sample s;
	bool png = false;
	if(what <= 2) {
		Format fm = draw_format(true);
		Limits l; l.maxdim = 6; l.maxframes = 3;
		if(fm == FM_PFM && chance(1, 4)) {           // a later frame of another size
			s = gen_sample(fm, l);
			Limits l2 = l; l2.fixed_w = chance(1, 2) ? s.t.w : 1 + draw(6); l2.fixed_h = 1 + draw(6);
			if(chance(1, 3)) { l2.fixed_w = s.t.h; l2.fixed_h = s.t.w; }
			Sample s2 = gen_sample(fm, l2);
			auto d = std::make_shared<Bytes>(*s.data);
			size_t base = d->size();
			d->insert(d->end(), s2.data->begin(), s2.data->end());
			for(auto m : s2.marks) s.marks.push_back(base + m);
			s.data = d; s.note = " concatenated";
			if(chance(1, 4)) { auto e = std::make_shared<Bytes>(*d); mutate(*e, s.marks, &s.note); s.data = e; }
		}
		else {
			s = gen_sample(fm, l);
			auto d = std::make_shared<Bytes>(*s.data);
			mutate(*d, s.marks, &s.note);
			s.data = d;
		}
		s.t = ref_parse(s.fm, *s.data);
		count(s.t.open == ACCEPT ? s.t.end == END_CLEAN ? "damage.still_valid" : s.t.end == END_ERROR ? "damage.invalid_later" : "damage.unspecified_later" : s.t.open == REJECT ? "damage.invalid" : "damage.unspecified");
	}
	else if(what == 3) {
		s = gen_sample(FM_PNG, lim());
		auto d = std::make_shared<Bytes>(*s.data);
		mutate(*d, s.marks, &s.note);
		s.data = d; png = true;
		count("damage.png");
	}
	else {
		g_force_varying = true;
		s = gen_sample(chance(1, 2) ? FM_AV : FM_MAGICK, lim());
		count("damage.frame_size_change");
	}
	R->nontrivial = 1;
	hist(crc_bytes(*s.data));
	OpenSpec o; Handle h;
	h.lenient = png;
	h.file = bind(s, o, false, false); h.t = &s.t;
	if(h.open(o)) {
		if(chance(1, 3)) history(h, true, 5);
		drain(h);
	}
	h.close();
	finish_run(false);
}
// everything at once; the calls go on after errors
static void hostile(bool thorough_bytes) {
	size_t nh = 1 + draw(3);
	std::vector<std::unique_ptr<Sample>> ss;
	std::vector<std::unique_ptr<Handle>> hs;
	bool alloc = chance(1, 3), lib = chance(1, 5);
	bool stdin_used = false;
	for(size_t i = 0; i < nh; i++) {
		auto s = std::make_unique<Sample>(gen_sample(draw_format(), lim()));
		unsigned k = (unsigned)draw(5);
		if(k == 1 || k == 2) { auto d = std::make_shared<Bytes>(*s->data); for(unsigned j = 0; j <= draw(thorough_bytes ? 4 : 2); j++) mutate(*d, s->marks, &s->note); s->data = d; }
		if(k == 3 && s->data->size()) { auto d = std::make_shared<Bytes>(s->data->begin(), s->data->begin() + draw(s->data->size() + 1)); s->data = d; s->note += " truncated"; }
		if(k == 4 && thorough_bytes) {
			auto d = std::make_shared<Bytes>();
			Prng r(draw(1u << 30)); size_t n = draw(200);
			if(chance(1, 2)) d->assign(s->data->begin(), s->data->begin() + std::min<size_t>(s->data->size(), 2 + draw(20)));
			for(size_t j = 0; j < n; j++) d->push_back((uint8_t)r.next());
			s->data = d; s->note += " noise";
		}
		if(k) { s->t.open = UNSPEC; R->nontrivial = 1; }
		auto h = std::make_unique<Handle>();
		OpenSpec o; bool sin;
		char nm[16]; snprintf(nm, sizeof nm, "[%zu] ", i); h->label = nh > 1 ? nm : "";
		SimFile* f = install(*s, chance(1, 2), &sin);
		if(sin && stdin_used) sin = false;
		o = draw_open(*s, sin, false);
		if(chance(1, 10)) { o.by_reader = true; o.reader = fm_reader[variant_libs ? draw(7) : draw(3)]; s->t.open = UNSPEC; }
		if((s->fm >= FM_AV || o.by_reader) && (k || !f->cfg.faults.empty() || f->cfg.seek_fail_den || o.reader != fm_reader[s->fm])) g_heap_judge = false;
		if(sin) { stdin_used = true; h->file = vfs_add("<stdin>", f->data, f->cfg); sim_stdin_set(h->file); }
		else { o.name = "h" + std::to_string(i) + "/" + o.name; h->file = vfs_add(o.name, f->data, f->cfg); if(chance(1, 20)) h->file->cfg.open_errno = EACCES; }
		h->t = &s->t;
		if(i == 0) { if(alloc) draw_alloc_plan(cx, 25); if(lib) draw_lib_plan(cx, 40); }
		h->open(o);
		ss.push_back(std::move(s)); hs.push_back(std::move(h));
	}
	unsigned n = (unsigned)range(2, 14);
	for(unsigned i = 0; i < n; i++) {
		Handle& h = *pick(hs);
		if(!h.im) continue;
		if(chance(1, 8)) { h.close(); continue; }
		history(h, true, 2);
	}
	// arguments the API documents as errors
	int e = 5;
	if(chance(1, 4)) { if(resdet_read_image_frame(nullptr, nullptr, &e) || e != RDEPARAM) violation("null-handle", "reading a null handle gave %d", e); if(resdet_seek_frame(nullptr, 1, nullptr, nullptr, &e) || e != RDEPARAM) violation("null-handle", "seeking a null handle gave %d", e); resdet_close_image(nullptr); resdet_destroy_analysis(nullptr); }
	std::vector<size_t> order;
	while(!hs.empty()) { size_t k = draw(hs.size()); hs[k]->close(); hs.erase(hs.begin() + k); }
	finish_run(true);
}
void scen_resources() { hostile(false); }            // C06
void scen_hostile() { hostile(true); }               // C07
