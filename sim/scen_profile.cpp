// C20: the profile tool: a dictionary of images with known resolutions in, counts and times per method out.
// The clock it reads (the process's CPU time) is the simulator's.
#include "reader.h"
#include <algorithm>
#include <set>
#include <sys/resource.h>
extern "C" int profile_main(int, char**);
static std::vector<uint64_t> g_readings;
static uint64_t g_now;
static unsigned g_pace;
extern "C" int sim_getrusage(int who, struct rusage* r) {
	memset(r, 0, sizeof *r);
	static const uint64_t step[] = { 0, 1, 999, 250000, 999999, 1000000, 61000000, 4000000000ull };
	uint64_t k = g_pace == 9 ? draw(8) : g_pace;
	g_now += step[k % 8] + (g_pace == 9 ? draw(2000000) : 0);
	r->ru_utime.tv_sec = g_now / 1000000; r->ru_utime.tv_usec = g_now % 1000000;
	r->ru_stime.tv_sec = 77;
	g_readings.push_back(g_now);
	count("clock.readings");
	return 0;
}
static std::string contents(SimStream* s) { fflush(s->f); return std::string(s->file->data->begin(), s->file->data->end()); }
struct Row { std::string name; uint64_t us = 0, plus = 0, minus = 0; };
static bool parse_row(const std::string& l, const std::vector<std::string>& names, Row* r) {
	char nm[40]; unsigned long long p, m; char tm[40]; int end = 0;
	if(sscanf(l.c_str(), "%39s %39s (+%llu -%llu)%n", nm, tm, &p, &m, &end) != 4 || (size_t)end != l.size()) return false;
	bool known = false; for(auto& n : names) known |= n == nm;
	if(!known) return false;
	char* dot = strchr(tm, '.'); if(!dot) return false;
	*dot = 0;
	std::string frac = dot + 1; if(frac.size() < 6 || frac.find_first_not_of("0123456789") != std::string::npos) return false;
	r->name = nm; r->us = strtoull(tm, nullptr, 10) * 1000000 + strtoull(frac.substr(0, 6).c_str(), nullptr, 10);
	if(frac.size() > 6 && frac.find_first_not_of('0', 6) != std::string::npos) return false;
	r->plus = p; r->minus = m;
	return true;
}
enum BlockKind { B_GOOD, B_UNREADABLE, B_BADW, B_BADH, B_NOW, B_NOH };        // the last two end the dictionary
struct Block { BlockKind kind = B_GOOD; std::string name; bool unsure = false; std::vector<std::vector<size_t>> detected[2]; std::vector<size_t> known[2]; std::vector<uint64_t> plus, minus; };
void scen_profile() {
	g_readings.clear(); g_now = draw(3) * 999999 + 1; g_pace = (unsigned)draw(10);
	std::vector<std::string> names; std::vector<RDMethod*> methods;
	for(RDMethod* m = resdet_methods(); m->name; m++) { names.push_back(m->name); methods.push_back(m); }
	size_t nm = names.size();
	bool faulty = chance(1, 2);
	if(chance(1, 30)) {
		SimStream* out = sim_std_capture(1),* err = sim_std_capture(2);
		bool none = chance(1, 2); bool den = chance(1, 2);
		if(den) { StreamCfg c; c.open_errno = EACCES; vfs_add("dict.txt", std::make_shared<Bytes>(), c); }
		char* av[] = { (char*)"profile", none ? nullptr : (char*)"dict.txt", nullptr };
		op_budget(0, 0, 1000000);
		int st = call_with_exit([&] { return profile_main(none ? 1 : 2, av); });
		op_done();
		std::string e = contents(err);
		logf("profile without a dictionary -> %d", st); hist(st + none * 2 + den * 4);
		if(!st || e.empty()) violation("success-on-error", "profile %s exited with %d, message: %s", none ? "without arguments" : "with a dictionary that cannot be opened", st, e.c_str());
		finish_run(false); return;
	}
	size_t nb = draw(4) + (chance(1, 8) ? 0 : 1);
	std::vector<Block> bl(nb);
	std::string dict; uint64_t work = 0;
	auto list = [&](const std::vector<size_t>& v) { std::string s; for(size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + std::to_string(v[i]); return s; };
	bool ended = false; size_t shown = 0;
	std::vector<uint64_t> marks;
	for(size_t i = 0; i < nb && !ended; i++) {
		Block& b = bl[i]; shown = i + 1;
		Limits l; l.maxdim = chance(1, 4) ? 60 : 30; l.maxframes = 3; l.finite = chance(7, 8);
		Sample s = gen_sample(draw_format(), l);
		if(s.fm <= FM_Y4M && chance(1, 8)) {
			auto d = std::make_shared<Bytes>(*s.data);
			if(chance(1, 2)) mutate(*d, s.marks, &s.note); else { d->resize(draw(d->size() + 1)); s.note += " truncated"; }
			s.data = d; R->nontrivial = 1; count("fault.damaged_bytes");
		}
		b.name = (chance(1, 6) ? "an image " : "img") + std::to_string(i) + "." + s.ext;
		float* px = nullptr; size_t d, w, h; int e;
		StreamCfg plain; SimFile* f = vfs_add(b.name, s.data, plain);
		bool missing = chance(1, 15), denied = !missing && chance(1, 20);
		op_budget(s.data->size(), 0, 1ull << 31);
		e = resdet_read_image(b.name.c_str(), nullptr, &px, &d, &w, &h);
		std::set<size_t> all[2];
		if(!e) for(size_t m = 0; m < nm; m++) {
			RDResolution* rw = nullptr,* rh = nullptr; size_t cw = 0, ch = 0;
			int e2 = resdetect(px, d, w, h, &rw, &cw, &rh, &ch, methods[m], nullptr);
			std::vector<size_t> v[2];
			if(e2) b.unsure = true;                // detection fails on such an image; the tool stops with it
			else for(int k = 0; k < 2; k++) { RDResolution* r = k ? rh : rw; size_t c = k ? ch : cw; for(size_t j = 0; j < c; j++) if(r[j].confidence >= 0) { v[k].push_back(r[j].index); all[k].insert(r[j].index); } }
			for(int k = 0; k < 2; k++) b.detected[k].push_back(v[k]);
			sim_free(rw); sim_free(rh);
		}
		op_done();
		work += s.data->size() * 3000 + (e ? 0 : d * w * h * 3000);
		sim_free(px);
		for(int k = 0; k < 2; k++) {
			std::set<size_t> kn;
			size_t n = 1 + draw(4);
			for(size_t j = 0; j < n; j++) {
				if(!all[k].empty() && chance(2, 3)) { auto it = all[k].begin(); std::advance(it, draw(all[k].size())); kn.insert(*it); }
				else kn.insert(chance(1, 10) ? (chance(1, 2) ? 0 : 1ull << 40) : 1 + draw(70));
			}
			b.known[k].assign(kn.begin(), kn.end());
			for(size_t j = b.known[k].size(); j > 1; j--) std::swap(b.known[k][j - 1], b.known[k][draw(j)]);
		}
		if(!e && !b.unsure) for(size_t m = 0; m < nm; m++) {
			uint64_t p = 0, q = 0;
			for(int k = 0; k < 2; k++) {
				auto& dv = b.detected[k][m]; auto& kv = b.known[k];
				for(size_t x : dv) p += std::find(kv.begin(), kv.end(), x) == kv.end();
				for(size_t x : kv) q += std::find(dv.begin(), dv.end(), x) == dv.end();
			}
			b.plus.push_back(p); b.minus.push_back(q);
		}
		if(e || missing || denied) b.kind = B_UNREADABLE;
		else if(chance(1, 12)) b.kind = (BlockKind)(B_BADW + draw(4));
		else if(b.unsure) b.kind = B_GOOD;
		StreamCfg c = draw_transport(false, false, faulty && chance(1, 3), s.data->size(), s.marks);
		if(s.fm == FM_AV) c.seek_fail_den = 0;
		f->cfg = c; if(denied) f->cfg.open_errno = EACCES; f->exists = !missing;
		loghash(crc_bytes(*s.data)); hist(crc_bytes(*s.data));
		for(size_t j = chance(1, 4) ? draw(3) : 0; j; j--) dict += "\n";
		marks.push_back(dict.size());
		dict += b.name + "\n";
		static const char* bad[] = { "", "x", "-", "12 y", "none 5" };
		bool cut_here = b.kind == B_UNREADABLE && chance(1, 10);       // an unreadable image without its lists
		if(b.kind == B_NOW || cut_here) { if(cut_here) b.kind = B_NOW; ended = true; if(chance(1, 2) && b.kind == B_NOW) dict.pop_back(); continue; }
		marks.push_back(dict.size());
		dict += (b.kind == B_BADW ? bad[draw(5)] : list(b.known[0])) + std::string("\n");
		if(b.kind == B_NOH) { ended = true; if(chance(1, 2)) dict.pop_back(); continue; }
		marks.push_back(dict.size());
		dict += (b.kind == B_BADH ? bad[draw(5)] : list(b.known[1])) + std::string("\n");
	}
	bl.resize(shown);
	if(!ended && !dict.empty() && chance(1, 2)) { size_t n = dict.size(); if(n > 1 && dict[n - 2] != '\n') { dict.pop_back(); count("probe.no_final_newline"); } }
	for(size_t j = !dict.empty() && dict.back() == '\n' && chance(1, 4) && !ended ? draw(3) : 0; j; j--) dict += "\n";
	StreamCfg dc = draw_transport(true, false, faulty && chance(1, 3), dict.size(), marks);
	SimFile* df = vfs_add("dict.txt", std::make_shared<Bytes>(dict.begin(), dict.end()), dc);
	SimStream* out = sim_std_capture(1),* err = sim_std_capture(2);
	if(chance(1, 12)) out->file->cfg.capacity = draw(120 * bl.size() * nm + 300);
	if(faulty && chance(1, 3)) draw_alloc_plan(cx, 20);
	if(faulty && chance(1, 6)) draw_lib_plan(cx, 30);
	uint64_t f0 = cx->faults();
	char* av[] = { (char*)"profile", (char*)"dict.txt", nullptr };
	op_budget(0, 0, work * (nm + 2) + 3000000);
	g_readings.clear();
	int st = call_with_exit([&] { return profile_main(2, av); });
	op_done();
	bool disturbed = cx->faults() != f0;
	cx->alloc = AllocPlan(); cx->lib = LibPlan();
	std::string got = contents(out), msg = contents(err);
	bool full = ferror(out->f);
	logf("profile of %zu images (%zu bytes of dictionary) -> status %d, %zu bytes out, %zu bytes error, %zu clock readings%s", bl.size(), dict.size(), st, got.size(), msg.size(), g_readings.size(), disturbed ? ", faults met" : "");
	loghash(hash_str(got.c_str())); loghash(hash_str(msg.c_str()));
	hist(hash_str(dict.c_str())); hist(hash_str(got.c_str())); hist(st);
	if(full) {
		if(!st) violation("lost-results", "profile exited with 0 although its report could not be written:\n%s", got.c_str());
		if(msg.empty()) violation("no-message", "profile exited with %d without a message after its output was full", st);
		count("probe.full_output"); finish_run(false); return;
	}
	std::vector<std::string> lines;
	for(size_t p = 0; p < got.size();) { size_t q = got.find('\n', p); if(q == std::string::npos) q = got.size(); lines.push_back(got.substr(p, q - p)); p = q + 1; }
	if(disturbed && st && got.empty() && !msg.empty()) { count("probe.commands_failed"); finish_run(false); return; }   // the dictionary could not be opened
	bool dictfault = false; for(auto& p : dc.faults) (void)p, dictfault = true;
	// walk the report
	size_t at = 0, rows = 0; bool stop = false, incomplete = false, all_rows = true;
	std::vector<Row> sum(nm);
	bool lost = disturbed && dictfault;                               // lines of the dictionary itself may be wrong
	auto show = [&] { return got.c_str(); };
	if(!lost) {
		for(size_t i = 0; i < bl.size() && !stop; i++) {
			Block& b = bl[i];
			if(at >= lines.size() || lines[at] != b.name) {
				if(disturbed && at < lines.size() && lines[at] == "totals") { incomplete = true; break; }
				violation("image-missing", "image \"%s\" of the dictionary is not in the report:\n%s", b.name.c_str(), show());
			}
			at++;
			size_t have = 0;
			for(size_t m = 0; m < nm; m++) {
				Row r;
				if(at >= lines.size() || !parse_row(lines[at], names, &r) || r.name != names[m]) continue;
				if(b.kind != B_GOOD) violation("counts-invented", "\"%s\" cannot be profiled but the report has \"%s\"", b.name.c_str(), lines[at].c_str());
				if(!b.unsure && (r.plus != b.plus[m] || r.minus != b.minus[m])) violation("wrong-counts", "%s on \"%s\": the report says +%llu -%llu, should be +%llu -%llu", names[m].c_str(), b.name.c_str(), (unsigned long long)r.plus, (unsigned long long)r.minus, (unsigned long long)b.plus[m], (unsigned long long)b.minus[m]);
				if(!disturbed && !b.unsure && all_rows && g_readings.size() > 2 * rows + 1) {
					uint64_t us = g_readings[2 * rows + 1] - g_readings[2 * rows];
					if(us != r.us) violation("wrong-time", "%s on \"%s\" took %llu us of CPU time, the report says \"%s\"", names[m].c_str(), b.name.c_str(), (unsigned long long)us, lines[at].c_str());
				}
				sum[m].us += r.us; sum[m].plus += r.plus; sum[m].minus += r.minus;
				rows++; at++; have++;
			}
			if(b.kind == B_GOOD && have != nm) {
				all_rows = false;
				if(!disturbed && !b.unsure) violation("row-missing", "\"%s\" has %zu rows in the report, should have %zu:\n%s", b.name.c_str(), have, nm, show());
				if(have || !disturbed) incomplete = true;
			}
			if(disturbed && !have) continue;                  // may be an image that could not be read
			if(b.kind >= B_BADW || (b.unsure && b.kind == B_GOOD)) stop = true;
			if(b.kind >= B_BADW || b.unsure) if(!(b.kind == B_UNREADABLE)) incomplete = true;
		}
	}
	else while(at < lines.size() && lines[at] != "totals") {
		Row r;
		if(parse_row(lines[at], names, &r)) for(size_t m = 0; m < nm; m++) if(names[m] == r.name) { sum[m].us += r.us; sum[m].plus += r.plus; sum[m].minus += r.minus; }
		at++;
	}
	// totals
	if(!lost && !incomplete && (at >= lines.size() || lines[at] != "totals")) violation("totals", "the report has \"%s\" instead of its totals:\n%s", at < lines.size() ? lines[at].c_str() : "", show());
	while(at < lines.size() && lines[at] != "totals") at++;
	if(at >= lines.size()) { if(!st || !disturbed) violation("totals", "the report has no totals:\n%s", show()); }
	else for(size_t m = 0; m < nm; m++) {
		Row r;
		if(at + 1 + m >= lines.size() || !parse_row(lines[at + 1 + m], names, &r) || r.name != names[m]) violation("totals", "the totals lack %s:\n%s", names[m].c_str(), show());
		if(r.plus != sum[m].plus || r.minus != sum[m].minus) violation("totals", "totals of %s are +%llu -%llu, the rows above add up to +%llu -%llu", names[m].c_str(), (unsigned long long)r.plus, (unsigned long long)r.minus, (unsigned long long)sum[m].plus, (unsigned long long)sum[m].minus);
		if(r.us != sum[m].us) violation("totals", "the total time of %s is %llu us, the rows above add up to %llu us", names[m].c_str(), (unsigned long long)r.us, (unsigned long long)sum[m].us);
	}
	// status: an image that cannot be read is skipped with a message, everything else is a failure
	size_t skipped = 0; for(auto& b : bl) skipped += b.kind == B_UNREADABLE;
	if(st == 0) {
		if(incomplete) violation("success-on-error", "profile exited with 0 although %s:\n%s%s", stop ? "its dictionary is malformed or detection failed" : "part of its dictionary was not profiled", show(), msg.c_str());
		if(lost) {
			size_t k = 0; for(size_t i = 0; i < at && i < lines.size(); i++) for(auto& b : bl) k += lines[i] == b.name;
			if(k < bl.size()) violation("success-on-error", "profile exited with 0 after losing part of its dictionary to a read error:\n%s", show());
		}
		if(disturbed ? !all_rows && msg.empty() : (skipped > 0) != !msg.empty()) violation("unexpected-message", "profile skipped %zu images and wrote to standard error: %s", skipped, msg.c_str());
		count("probe.commands_succeeded");
	}
	else {
		if(!disturbed && !incomplete) violation("failed-without-cause", "profile exited with %d and: %s", st, msg.c_str());
		count("probe.commands_failed");
	}
	finish_run(false);
}
