#include "model.h"
#include <algorithm>
#include <set>
const char* method_name[] = { "sign", "mag", "orig", "zerox" };
const float method_threshold[] = { .55f, .40f, .64f, .5f };

FrameData gen_frame(size_t w, size_t h) {
	FrameData f; f.w = w; f.h = h; f.px.resize(w * h);
	Prng r(draw(1u << 28) + 1);
	auto u = [&] { return (float)(r.next() >> 40) / (1 << 24); };
	switch(draw(9)) {
		case 0: f.kind = "noise"; for(auto& v : f.px) v = u(); break;
		case 1: case 2: {                                   // really upscaled, by interpolation
			size_t sw = 1 + r.below(w), sh = 1 + r.below(h);
			std::vector<float> s(sw * sh); for(auto& v : s) v = u();
			for(size_t y = 0; y < h; y++) for(size_t x = 0; x < w; x++) {
				double fx = std::max(0., (x + .5) * sw / w - .5), fy = std::max(0., (y + .5) * sh / h - .5);
				size_t x0 = std::min((size_t)fx, sw - 1), y0 = std::min((size_t)fy, sh - 1), x1 = std::min(x0 + 1, sw - 1), y1 = std::min(y0 + 1, sh - 1);
				double ax = fx - x0, ay = fy - y0;
				f.px[y * w + x] = (float)((s[y0 * sw + x0] * (1 - ax) + s[y0 * sw + x1] * ax) * (1 - ay) + (s[y1 * sw + x0] * (1 - ax) + s[y1 * sw + x1] * ax) * ay);
			}
			char b[40]; snprintf(b, sizeof b, "upscaled from %zux%zu", sw, sh); f.kind = b; break; }
		case 3: { f.kind = "constant"; float c = u(); for(auto& v : f.px) v = c; break; }
		case 4: f.kind = "zero"; for(auto& v : f.px) v = 0; break;
		case 5: f.kind = "gradient"; for(size_t i = 0; i < f.px.size(); i++) f.px[i] = (float)((i % w) * 3 + i / w) / (3 * w + h) + u() * 1e-3f; break;
		case 6: f.kind = "impulse"; for(auto& v : f.px) v = 0; f.px[r.below(w * h)] = 1; break;
		case 7: f.kind = "signed, large"; for(auto& v : f.px) v = (u() - .5f) * 1e4f; break;
		default: { f.kind = "bits"; for(auto& v : f.px) v = (float)(r.next() >> 63); break; }
	}
	return f;
}
static std::vector<double> cos_table(size_t n) {
	static std::map<size_t, std::vector<double>> memo;
	auto& t = memo[n];
	if(t.empty()) { t.resize(4 * n); for(size_t k = 0; k < 4 * n; k++) t[k] = cos(M_PI * k / (2. * n)); }
	return t;
}
// powers of two too long for the definition
static bool long_dct(size_t n) { return n >= 2048 && !(n & (n - 1)); }
static std::vector<double> fast_dct(const std::vector<double>& x) {
	size_t n = x.size();
	std::vector<double> re(n), im(n), o(n);
	unsigned bits = 0; while((size_t)1 << bits < n) bits++;
	for(size_t i = 0; i < n; i++) {
		size_t k = i < (n + 1) / 2 ? 2 * i : 2 * (n - 1 - i) + 1, r = 0;
		for(unsigned j = 0; j < bits; j++) r |= (i >> j & 1) << (bits - 1 - j);
		re[r] = x[k];
	}
	for(size_t m = 2; m <= n; m *= 2) for(size_t j = 0; j < m / 2; j++) {
		double c = cos(2 * M_PI * j / m), s = -sin(2 * M_PI * j / m);
		for(size_t i = j; i < n; i += m) {
			size_t q = i + m / 2; double a = re[q] * c - im[q] * s, b = re[q] * s + im[q] * c;
			re[q] = re[i] - a; im[q] = im[i] - b; re[i] += a; im[i] += b;
		}
	}
	for(size_t k = 0; k < n; k++) { double t = M_PI * k / (2. * n); o[k] = 2 * (re[k] * cos(t) + im[k] * sin(t)); }
	return o;
}
static std::vector<double> dct(const FrameData& f, double* eps) {
	size_t w = f.w, h = f.h;
	std::vector<double> a(w * h), b(w * h);
	auto cw = long_dct(w) ? std::vector<double>() : cos_table(w), ch = long_dct(h) ? std::vector<double>() : cos_table(h);
	double norm = 0;
	for(float v : f.px) norm += fabs(v);
	for(size_t y = 0; y < h; y++) {
		if(long_dct(w)) { std::vector<double> x(&f.px[y * w], &f.px[y * w] + w), o = fast_dct(x); std::copy(o.begin(), o.end(), &a[y * w]); continue; }
		for(size_t k = 0; k < w; k++) { double s = 0; for(size_t x = 0; x < w; x++) s += f.px[y * w + x] * cw[((2 * x + 1) * k) % (4 * w)]; a[y * w + k] = 2 * s; }
	}
	if(long_dct(h)) for(size_t x = 0; x < w; x++) { std::vector<double> c(h); for(size_t y = 0; y < h; y++) c[y] = a[y * w + x]; c = fast_dct(c); for(size_t y = 0; y < h; y++) b[y * w + x] = c[y]; }
	else for(size_t k = 0; k < h; k++) for(size_t x = 0; x < w; x++) { double s = 0; for(size_t y = 0; y < h; y++) s += a[y * w + x] * ch[((2 * y + 1) * k) % (4 * h)]; b[k * w + x] = 2 * s; }
	*eps = norm * 4 * 3e-6;
	return b;
}
size_t positions(size_t len, size_t range) { return range < (len + 1) / 2 ? len - 2 * range : 0; }

static DimModel dim(const std::vector<double>& F, double eps, size_t len, size_t n, size_t stride, size_t dist, MethodId m, size_t range) {
	DimModel d;
	size_t np = positions(len, range);
	d.denom = m == M_ZEROX ? n : n * range;
	d.first = range;
	if(!np) return d;
	auto at = [&](size_t y, size_t x) { return F[y * stride + x * dist]; };
	auto differ = [&](double a, double b, uint64_t& lo, uint64_t& hi) {   // signs differ
		if(fabs(a) <= eps || fabs(b) <= eps) hi++;
		else if((a < 0) != (b < 0)) { lo++; hi++; }
	};
	std::vector<double> sum;
	if(m == M_ORIG) { sum.resize(len); for(size_t x = 0; x < len; x++) { for(size_t y = 0; y < n; y++) sum[x] += fabs(at(y, x)); sum[x] /= n; } }
	for(size_t x = range; x < range + np; x++) {
		uint64_t lo = 0, hi = 0;
		switch(m) {
			case M_ORIG: case M_SIGN:
				for(size_t y = 0; y < n; y++) for(size_t i = 1; i <= range; i++) differ(at(y, x - i), at(y, x + i), lo, hi);
				if(m == M_ORIG) {
					double l = 0, r = 0, mid = sum[x] * range, e = eps * range * 4;
					for(size_t i = 1; i <= range; i++) { l += sum[x - i]; r += sum[x + i]; }
					auto less = [&](double a, double b) { return a < b - e ? 1 : a > b + e ? -1 : 0; };
					int c1 = less(mid, std::min(l, r)), c2 = less(fabs(l - r), fabs(l - mid)), c3 = less(fabs(l - r), fabs(r - mid));
					if(c1 < 0 || c2 < 0 || c3 < 0) lo = hi = 0;
					else if(!(c1 > 0 && c2 > 0 && c3 > 0)) lo = 0;
				}
				break;
			case M_MAG:
				for(size_t y = 0; y < n; y++) for(size_t i = 1; i <= range; i++) {
					// opposite sign and less than twice the magnitude
					double a = at(y, x - i), b = at(y, x + i);
					if(fabs(b) <= eps + 1e-6 || fabs(a) <= eps + 1e-6 * fabs(b)) { if(fabs(a) > eps && fabs(b) > eps && (a < 0) == (b < 0)) continue; hi++; continue; }
					if((a < 0) == (b < 0)) continue;
					double q = 2 * fabs(b) - fabs(a);
					if(fabs(q) <= 4 * eps + 1e-6 * fabs(b)) hi++;
					else if(q > 0) { lo++; hi++; }
				}
				break;
			default:
				for(size_t y = 0; y < n; y++) {
					double l = at(y, x - 1), c = at(y, x), r = at(y, x + 1);
					bool sure_no = (fabs(l) > eps && fabs(r) > eps && (l < 0) == (r < 0)) || (l < c - 2 * eps && c > r + 2 * eps) || (l > c + 2 * eps && c < r - 2 * eps);
					bool sure_yes = fabs(l) > eps && fabs(r) > eps && (l < 0) != (r < 0) && ((l < c - 2 * eps && c < r - 2 * eps) || (l > c + 2 * eps && c > r + 2 * eps));
					lo += sure_yes; hi += !sure_no;
				}
		}
		d.c.push_back({ lo, hi });
	}
	return d;
}
FrameModel model_frame(const FrameData& f, MethodId m, size_t range) {
	if(m == M_ZEROX) range = 1;
	double eps; auto F = dct(f, &eps);
	FrameModel r;
	r.x = dim(F, eps, f.w, f.h, f.w, 1, m, range);
	r.y = dim(F, eps, f.h, f.w, 1, f.w, m, range);
	return r;
}

// ---------------------------------------------------------------- parameters
RDParameters* ParamSpec::make() const {
	if(null) return nullptr;
	AllocPlan save = cx->alloc; cx->alloc = AllocPlan();
	RDParameters* q = resdet_alloc_default_parameters();
	cx->alloc = save;
	if(!q) violation("spurious-error", "allocating default parameters failed without a cause");
	if(set_range && resdet_parameters_set_range(q, range)) violation("rejected-parameter", "range %zu was rejected", range);
	if(set_threshold && resdet_parameters_set_threshold(q, threshold)) violation("rejected-parameter", "threshold %g was rejected", threshold);
	if(set_filter && resdet_parameters_set_compression_filter(q, filter)) violation("rejected-parameter", "filter value %d was rejected", filter);
	return q;
}
std::string ParamSpec::str() const {
	if(null) return "defaults";
	std::string s; char b[60];
	if(set_range) { snprintf(b, sizeof b, " range=%zu", range); s += b; }
	if(set_threshold) { snprintf(b, sizeof b, " threshold=%.9g", threshold); s += b; }
	if(set_filter) { snprintf(b, sizeof b, " filter=%d", filter); s += b; }
	return s.empty() ? " default" : s;
}
ParamSpec draw_params() {
	ParamSpec p;
	if(chance(1, 6)) { p.null = true; return p; }
	if(chance(3, 4)) { p.set_range = true; static const size_t big[] = { 1000, (size_t)-1, (size_t)1 << 63, ((size_t)1 << 63) - 1, 1u << 31, 65536, 65537, 257, (1ull << 32) + 1, 1ull << 32, (1ull << 32) + 3 }; p.range = chance(1, 12) ? big[draw(11)] : chance(1, 2) ? 1 + draw(4) : 1 + draw(14); }
	if(chance(2, 3)) { p.set_threshold = true; static const float t[] = { 0, 1, .5f, .25f, .75f, .55f, 1e-9f, .999f }; p.threshold = chance(1, 2) ? t[draw(8)] : (float)draw(1001) / 1000; }
	return p;
}

// ---------------------------------------------------------------- probes
static void counts_of(const RDResolution* r, size_t n, size_t len, size_t range, uint64_t denom, const DimModel& dm, std::vector<uint64_t>& out, const char* dn, const char* mn) {
	size_t np = positions(len, range);
	if(!r) violation("results-missing", "%s: results are null", dn);
	if(n != np + 1) violation("wrong-positions", "%s method, %s: a session of one frame with threshold 0 reported %zu positions of a length of %zu, should be %zu (range %zu)", mn, dn, n - 1, len, np, range);
	if(r[n - 1].index != len || r[n - 1].confidence != -1) violation("wrong-last", "%s method, %s: the last result is %zu (%g), should be the input length %zu (-1)", mn, dn, r[n - 1].index, r[n - 1].confidence, len);
	out.assign(np, ~0ull);
	for(size_t i = 0; i < np; i++) {
		size_t p = r[i].index;
		if(p < range || p >= len - range) violation("wrong-positions", "%s method, %s: position %zu is outside [%zu, %zu)", mn, dn, p, range, len - range);
		if(out[p - range] != ~0ull) violation("wrong-positions", "%s method, %s: position %zu is reported twice", mn, dn, p);
		double c = r[i].confidence;
		if(!(c >= 0 && c <= 1)) violation("confidence-range", "%s method, %s: position %zu has a confidence of %g", mn, dn, p, c);
		double k = c * denom, kr = floor(k + .5);
		if(fabs(k - kr) > 1e-5 * denom + 1e-9) violation("wrong-confidence", "%s method, %s: the confidence %g at position %zu is no fraction of %llu", mn, dn, c, p, (unsigned long long)denom);
		const Interval& iv = dm.c[p - range];
		if(kr < iv.lo || kr > iv.hi) violation("wrong-confidence", "%s method, %s of %zu: position %zu has %g of %llu detections, should be %llu..%llu", mn, dn, len, p, kr, (unsigned long long)denom, (unsigned long long)iv.lo, (unsigned long long)iv.hi);
		out[p - range] = (uint64_t)kr;
	}
}
Probe probe_frame(const FrameData& f, MethodId m, size_t range) {
	if(m == M_ZEROX) range = 1;
	AllocPlan save = cx->alloc; cx->alloc = AllocPlan();
	LibPlan lsave = cx->lib; cx->lib = LibPlan();
	ParamSpec ps; ps.set_range = true; ps.range = range; ps.set_threshold = true; ps.threshold = 0;
	RDParameters* q = ps.make();
	RDError e = 77;
	RDAnalysis* a = resdet_create_analysis(resdet_get_method(method_name[m]), f.w, f.h, q, &e);
	sim_free(q);
	if(!a || e) violation("spurious-error", "creating a %zux%zu analysis failed without a cause: %s", f.w, f.h, err_name(e));
	std::vector<float> px = f.px;
	e = resdet_analyze_image(a, px.data());
	if(e) violation("spurious-error", "analysing a finite %zux%zu frame failed without a cause: %s", f.w, f.h, err_name(e));
	if(memcmp(px.data(), f.px.data(), px.size() * 4)) violation("input-modified", "analysing a frame changed the caller's image");
	RDResolution* rw,* rh; size_t cw, ch;
	e = resdet_analysis_results(a, &rw, &cw, &rh, &ch);
	if(e) violation("spurious-error", "results failed without a cause: %s", err_name(e));
	FrameModel fm = model_frame(f, m, range);
	Probe r; r.dx = fm.x.denom; r.dy = fm.y.denom;
	counts_of(rw, cw, f.w, range, r.dx, fm.x, r.x, "width", method_name[m]);
	counts_of(rh, ch, f.h, range, r.dy, fm.y, r.y, "height", method_name[m]);
	sim_free(rw); sim_free(rh);
	resdet_destroy_analysis(a);
	cx->alloc = save; cx->lib = lsave;
	return r;
}

// ---------------------------------------------------------------- sessions
static bool dyadic(uint64_t c, uint64_t d) { return (c << 24) % d == 0; }
SessionModel::SessionModel(size_t w_, size_t h_, MethodId m_, const ParamSpec& p_) : w(w_), h(h_), m(m_), p(p_) {
	size_t r = p.eff_range(m);
	sx.assign(positions(w, r), 0); sy.assign(positions(h, r), 0);
	exx.assign(sx.size(), 1); exy.assign(sy.size(), 1);
	dx = m == M_ZEROX ? h : h * r; dy = m == M_ZEROX ? w : w * r;
}
void SessionModel::add(const Probe& q) {
	for(size_t i = 0; i < sx.size(); i++) { sx[i] += q.x[i]; exx[i] &= dyadic(q.x[i], dx); }
	for(size_t i = 0; i < sy.size(); i++) { sy[i] += q.y[i]; exy[i] &= dyadic(q.y[i], dy); }
	n++;
}
std::string judge_dimension(const SessionModel& s, bool xdim, const RDResolution* r, size_t count_) {
	char b[300];
	size_t len = xdim ? s.w : s.h, range = s.p.eff_range(s.m);
	auto& sum = xdim ? s.sx : s.sy; auto& ex = xdim ? s.exx : s.exy; uint64_t d = xdim ? s.dx : s.dy;
	const char* dn = xdim ? "width" : "height";
	double thr = s.p.eff_threshold(s.m);
	if(!count_ || !r) { snprintf(b, sizeof b, "%s: no results at all", dn); return b; }
	if(r[count_ - 1].index != len || r[count_ - 1].confidence != -1) { snprintf(b, sizeof b, "%s: the last result is %zu (%g), should be the input length %zu (-1)", dn, r[count_ - 1].index, r[count_ - 1].confidence, len); return b; }
	std::set<size_t> have;
	for(size_t i = 0; i + 1 < count_; i++) {
		size_t p = r[i].index; double c = r[i].confidence;
		if(p < range || p >= range + sum.size()) { snprintf(b, sizeof b, "%s: %zu is outside the positions of the session", dn, p); return b; }
		if(!have.insert(p).second) { snprintf(b, sizeof b, "%s: %zu is reported twice", dn, p); return b; }
		if(!(c >= 0 && c <= 1)) { snprintf(b, sizeof b, "%s: confidence %g at %zu", dn, c, p); return b; }
		double mean = (double)sum[p - range] / d / s.n;
		if(fabs(mean - c) > 2e-6) { snprintf(b, sizeof b, "%s: confidence %.7f at %zu, the mean of the %zu analysed frames is %.7f", dn, c, p, s.n, mean); return b; }
		if(i && r[i - 1].confidence < r[i].confidence) { snprintf(b, sizeof b, "%s: results are not sorted by confidence", dn); return b; }
	}
	auto judge = [&](const std::function<int(size_t)>& keep, std::string* why) {       // keep: 1 kept, 0 removed, -1 either
		for(size_t i = 0; i < sum.size(); i++) {
			double mean = (double)sum[i] / d / s.n;
			int in = fabs(mean - thr) > 2e-7 ? mean > thr : -1;                            // within float rounding either is right
			if(in < 0 && ex[i] && (double)sum[i] / d == thr * (double)s.n) in = 1;      // exactly at the threshold
			int k = keep(i);
			int want = in == 0 || k == 0 ? 0 : in < 0 || k < 0 ? -1 : 1;
			int got = have.count(i + range);
			if(want >= 0 && got != want) {
				snprintf(b, sizeof b, "%s: position %zu with a mean confidence of %.9f is %s at a threshold of %.9f", dn, i + range, mean, got ? "reported" : "missing", thr);
				*why = b; return false;
			}
		}
		return true;
	};
	std::string why;
	if(!s.p.filter) { if(!judge([](size_t) { return 1; }, &why)) return why; return ""; }
	// with a filter: the frequencies where blocks of 2^filter leave traces are suppressed
	float interval = (float)(len / (float)(1u << s.p.filter));
	std::string w1;
	if(judge([&](size_t i) { double p = i + range, a = round(p / interval) * interval; return fabs(a - p) < .499 ? 0 : fabs(a - p) < .501 ? -1 : 1; }, &w1)) return "";
	// what the code has always done instead: keep multiples of 2^filter counted from the first position
	if(judge([&](size_t i) { double q = (double)i / (1u << s.p.filter); double a = round(q) * (1u << s.p.filter); double fr = fabs(q - floor(q) - .5); return fr < 1e-4 ? (a == (double)i ? -1 : 0) : a == (double)i ? 1 : 0; }, &why)) {
		const char* kn = getenv("SIM_KNOWN");
		if(kn && strstr(kn, "compression-filter-inverted")) { count("known.compression-filter-inverted"); return ""; }
		violation("compression-filter-inverted", "with a compression filter of %d, %s", s.p.filter, w1.c_str());
	}
	return why + " (with a compression filter)";
}
