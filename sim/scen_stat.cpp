// C21: the stat tool: a summary of the detections in each dimension and those that stand out.
#include "model.h"
#include <algorithm>
#include <set>
extern "C" int stat_main(int, char**);
uint64_t steps_now();
static std::string contents(SimStream* s) { fflush(s->f); return std::string(s->file->data->begin(), s->file->data->end()); }
typedef std::vector<std::pair<size_t, double>> Dets;
struct Summary { bool numbers = false; double median = 0, inner = 0, outer = 0; Dets mild, extreme; std::vector<double> ratio_m, ratio_e; };
static bool parse(const std::string& text, Summary out[2], std::string* why) {
	int dim = -1, list = -1;
	size_t at = 0;
	bool seen[2] = {};
	while(at < text.size()) {
		size_t nl = text.find('\n', at); if(nl == std::string::npos) { *why = "the last line is not finished"; return false; }
		std::string l = text.substr(at, nl - at); at = nl + 1;
		if(l == "width:" || l == "height:") { dim = l == "height:"; if(seen[dim] || (dim && !seen[0])) { *why = "the dimensions are not reported once each, width first"; return false; } seen[dim] = true; list = -1; continue; }
		if(dim < 0) { *why = "\"" + l + "\" belongs to no dimension"; return false; }
		Summary& s = out[dim];
		if(l == "mild outliers:") { list = 0; continue; }
		if(l == "extreme outliers:") { list = 1; continue; }
		double a, b, c; int end = 0; unsigned long long i;
		if(sscanf(l.c_str(), "median: %lf%% inner fence: %lf%% outer fence: %lf%%%n", &a, &b, &c, &end) == 3 && (size_t)end == l.size()) { if(s.numbers) { *why = "two summaries for a dimension"; return false; } s.numbers = true; s.median = a; s.inner = b; s.outer = c; continue; }
		if(list >= 0 && sscanf(l.c_str(), "\t%llu (%lf%%) - %lf%%%n", &i, &a, &b, &end) == 3 && (size_t)end == l.size()) { (list ? s.extreme : s.mild).push_back({ i, a }); (list ? s.ratio_e : s.ratio_m).push_back(b); continue; }
		if(l == "no detections") continue;
		*why = "\"" + l + "\" is no line of a report"; return false;
	}
	if(!seen[0] || !seen[1]) { *why = "a dimension is missing"; return false; }
	return true;
}
static void judge(const char* dim, const Summary& s, const Dets& det) {
	const double tol = 0.0101;                      // of percentages with two decimals
	size_t n = det.size();
	std::vector<double> v; for(auto& d : det) v.push_back(d.second * 100);
	std::sort(v.begin(), v.end());
	std::set<size_t> listed;
	for(int k = 0; k < 2; k++) for(size_t j = 0; j < (k ? s.extreme : s.mild).size(); j++) {
		auto& x = (k ? s.extreme : s.mild)[j]; double ratio = (k ? s.ratio_e : s.ratio_m)[j];
		auto it = std::find_if(det.begin(), det.end(), [&](const std::pair<size_t, double>& d) { return d.first == x.first; });
		if(it == det.end()) violation("false-outlier", "%s: %zu is listed but was not detected", dim, x.first);
		if(!listed.insert(x.first).second) violation("listed-twice", "%s: %zu is listed twice", dim, x.first);
		if(fabs(it->second * 100 - x.second) > tol) violation("wrong-confidence", "%s: %zu is listed with %g%%, was detected with %g%%", dim, x.first, x.second, it->second * 100);
		if(s.numbers && s.median < 99.5) { double r = (x.second - s.median) / (100 - s.median) * 100; if(!(fabs(r - ratio) <= 4 * tol * 100 / (100 - s.median) + tol)) violation("wrong-excess", "%s: %zu is listed %g%% above a median of %g%%, should be %g%%", dim, x.first, ratio, s.median, r); }
	}
	if(!n) { if(s.numbers) violation("numbers-of-nothing", "%s: nothing was detected, but the median is given as %g%%", dim, s.median); return; }
	if(!s.numbers) violation("summary-missing", "%s: no summary of %zu detections", dim, n);
	double med = (v[(n - 1) / 2] + v[n / 2]) / 2;
	if(!(fabs(med - s.median) <= tol)) violation("wrong-median", "%s: the median of %zu detections is %g%%, not %g%%", dim, n, med, s.median);
	// the fences lie 3 and 6 interquartile ranges above the upper quartile; definitions of quartiles differ by less than a position
	double iq = (s.outer - s.inner) / 3, hq = 2 * s.inner - s.outer, lq = hq - iq;
	auto pos = [&](double p) { return v[p < 0 ? 0 : p > n - 1.0 ? n - 1 : (size_t)p]; };
	if(!(hq >= pos(floor(n * .75 - 1)) - 4 * tol && hq <= pos(ceil(n * .75 - .25)) + 4 * tol)) violation("wrong-fences", "%s: the fences %g%% and %g%% of %zu detections mean an upper quartile of %g%%, which lies between %g%% and %g%%", dim, s.inner, s.outer, n, hq, pos(floor(n * .75 - 1)), pos(ceil(n * .75 - .25)));
	if(!(lq >= pos(floor(n * .25 - 1)) - 5 * tol && lq <= pos(ceil(n * .25 - .25)) + 5 * tol)) violation("wrong-fences", "%s: the fences %g%% and %g%% of %zu detections mean a lower quartile of %g%%, which lies between %g%% and %g%%", dim, s.inner, s.outer, n, lq, pos(floor(n * .25 - 1)), pos(ceil(n * .25 - .25)));
	for(auto& d : det) {
		double c = d.second * 100;
		bool m = std::find_if(s.mild.begin(), s.mild.end(), [&](const std::pair<size_t, double>& x) { return x.first == d.first; }) != s.mild.end();
		bool x = std::find_if(s.extreme.begin(), s.extreme.end(), [&](const std::pair<size_t, double>& y) { return y.first == d.first; }) != s.extreme.end();
		if((m || x) && c < s.inner - tol) violation("false-outlier", "%s: %zu (%g%%) is listed below the inner fence of %g%%", dim, d.first, c, s.inner);
		if(m && c > s.outer + tol) violation("wrong-list", "%s: %zu (%g%%) is called mild beyond the outer fence of %g%%", dim, d.first, c, s.outer);
		if(x && c < s.outer - tol) violation("wrong-list", "%s: %zu (%g%%) is called extreme within the outer fence of %g%%", dim, d.first, c, s.outer);
		if(!m && !x && c > s.inner + tol) violation("outlier-missing", "%s: %zu (%g%%) lies beyond the inner fence of %g%% and is not listed", dim, d.first, c, s.inner);
	}
	if(!s.mild.empty()) count("probe.mild_outliers");
	if(!s.extreme.empty()) count("probe.extreme_outliers");
	count(n == 1 ? "probe.one_detection" : n < 5 ? "probe.few_detections" : "probe.many_detections");
}
static Sample frames_as_pfm() {
	Sample s; s.fm = FM_PFM; s.ext = "pfm"; s.note = " of generated frames";
	size_t w = chance(1, 4) ? 1 + draw(200) : 24 + draw(60), h = chance(1, 4) ? 1 + draw(8) : 24 + draw(60);
	auto d = std::make_shared<Bytes>();
	s.t.w = w; s.t.h = h; s.t.open = ACCEPT; s.t.end = END_CLEAN;
	for(size_t i = 0, n = 1 + draw(3); i < n; i++) {
		FrameData f = gen_frame(w, h);
		// enlarged from a smaller size in some places, so that one position stands out
		if(chance(1, 2)) { size_t sw = 1 + w / (2 + draw(2)); for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) { double p = (double)x * (sw - 1) / (w > 1 ? w - 1 : 1); size_t k = (size_t)p; double a = f.px[y * w + k], b = f.px[y * w + (k + 1 < sw ? k + 1 : k)]; f.px[y * w + x] = (float)(a + (b - a) * (p - k)); } }
		char b[80]; int k = snprintf(b, sizeof b, "Pf\n%zu %zu\n-1.0\n", w, h);
		s.marks.push_back(d->size());
		d->insert(d->end(), b, b + k);
		for(size_t y = h; y-- > 0;) d->insert(d->end(), (uint8_t*)&f.px[y * w], (uint8_t*)&f.px[y * w] + w * 4);
	}
	s.data = d;
	return s;
}
void scen_stat() {
	bool faulty = chance(1, 2);
	Sample s;
	bool own = chance(3, 5);
	if(own) s = frames_as_pfm(); else { Limits l; l.maxdim = chance(1, 2) ? 60 : 30; l.maxframes = 3; l.finite = chance(7, 8); s = gen_sample(draw_format(), l); }
	if(s.fm <= FM_Y4M && chance(1, 8)) {
		auto d = std::make_shared<Bytes>(*s.data);
		if(chance(1, 2)) mutate(*d, s.marks, &s.note); else { d->resize(draw(d->size() + 1)); s.note += " truncated"; }
		s.data = d; s.t.open = UNSPEC; R->nontrivial = 1; count("fault.damaged_bytes");
	}
	if(s.fm == FM_AV && !av_claims(s.ext)) return;
	bool sin;
	StreamCfg cfg = install(s, faulty && chance(1, 2), &sin)->cfg;
	std::string name = "in." + s.ext;
	unsigned which = (unsigned)draw(7);              // no method, each of them, one that does not exist
	const char* mname = which < 2 ? nullptr : which < 6 ? method_name[which - 2] : "nosuch";
	Dets det[2]; int ref_err; uint64_t work = s.data->size() * 3000 + 4000000;
	{
		StreamCfg plain; vfs_add(name, s.data, plain);
		RDResolution* rw = nullptr,* rh = nullptr; size_t cw = 0, ch = 0;
		uint64_t t0 = steps_now();
		op_budget(0, 0, 1ull << 32);
		ref_err = resdetect_file(name.c_str(), nullptr, &rw, &cw, &rh, &ch, resdet_get_method(mname), nullptr);
		op_done();
		work += (steps_now() - t0) * 3;
		for(size_t i = 0; i < cw; i++) if(rw[i].confidence >= 0) det[0].push_back({ rw[i].index, rw[i].confidence });
		for(size_t i = 0; i < ch; i++) if(rh[i].confidence >= 0) det[1].push_back({ rh[i].index, rh[i].confidence });
		sim_free(rw); sim_free(rh);
	}
	SimFile* f = vfs_add(name, s.data, cfg);
	if(chance(1, 30)) f->cfg.open_errno = EACCES; else if(chance(1, 40)) f->exists = false;
	bool broken = f->cfg.open_errno || !f->exists;
	SimStream* out = sim_std_capture(1),* err = sim_std_capture(2);
	if(chance(1, 15)) out->file->cfg.capacity = draw(400);
	if(faulty && chance(1, 3)) draw_alloc_plan(cx, 20);
	if(faulty && s.fm >= FM_AV && chance(1, 4)) draw_lib_plan(cx, 30);
	std::vector<std::string> args = { "stat", name };
	if(mname) args.push_back(mname);
	if(chance(1, 40)) args.resize(1);
	std::vector<char*> av; for(auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr); av.push_back(nullptr);
	uint64_t f0 = cx->faults();
	op_budget(0, 0, work);
	int st = call_with_exit([&] { return stat_main((int)args.size(), av.data()); }) & 255;      // what a shell sees
	op_done();
	uint64_t f1 = cx->faults();
	cx->alloc = AllocPlan(); cx->lib = LibPlan();
	std::string text = contents(out), msg = contents(err);
	logf("stat %s -> status %d, %zu bytes printed, message %zu bytes%s; %zu widths and %zu heights are detected (%s)", mname ? mname : "", st, text.size(), msg.size(), f1 != f0 ? ", faults met" : "", det[0].size(), det[1].size(), err_name(ref_err));
	hist(st + text.size() * 256); hist(which); hist(hash_str(text.c_str())); hist(f1 - f0);
	loghash(hash_str(text.c_str())); loghash(hash_str(msg.c_str()));
	if(ferror(out->f)) {
		if(!st) violation("lost-results", "stat exited with 0 although its report could not be written: %s", text.c_str());
		if(msg.empty()) violation("no-message", "stat exited with %d without a message after its output was full", st);
		count("probe.full_output"); finish_run(false); return;
	}
	if(args.size() < 2) { if(!st || msg.empty()) violation("bad-usage-accepted", "stat without arguments exited with %d%s", st, msg.empty() ? " and no message" : ""); finish_run(false); return; }
	bool unsure = s.t.tolerant || s.t.may_reject || which == 6;
	if(st == 0) {
		if(broken) violation("success-on-error", "stat exited with 0 although its input cannot be opened");
		if(ref_err && (f1 == f0 || !unsure)) violation("success-on-error", "stat exited with 0 although detection fails: %s", err_name(ref_err));
		Summary sm[2]; std::string why;
		if(!parse(text, sm, &why)) violation("bad-report", "stat's report cannot be understood: %s", why.c_str());
		if(!ref_err && (f1 == f0 || !unsure)) { judge("width", sm[0], det[0]); judge("height", sm[1], det[1]); }
		if(!msg.empty()) violation("unexpected-message", "stat succeeded but wrote to standard error: %s", msg.c_str());
		count("probe.commands_succeeded");
	}
	else {
		if(msg.empty()) violation("no-message", "stat exited with %d without a message", st);
		if(f1 == f0 && !broken && !ref_err && which != 6) violation("failed-without-cause", "stat exited with %d and: %s", st, msg.c_str());
		count("probe.commands_failed");
	}
	finish_run(true);
}
