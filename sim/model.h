// Reference model of an analysis session: definitions of the methods on an independent double precision DCT.
#pragma once
#include "reader.h"
enum MethodId { M_SIGN, M_MAG, M_ORIG, M_ZEROX, M_COUNT };
extern const char* method_name[];
extern const float method_threshold[];
struct FrameData { size_t w, h; std::vector<float> px; std::string kind; };
FrameData gen_frame(size_t w, size_t h);
// detections at one position out of a fixed number of tests, known up to rounding
struct Interval { uint64_t lo, hi; };
struct DimModel { std::vector<Interval> c; uint64_t denom = 1; size_t first = 0; };
struct FrameModel { DimModel x, y; };
FrameModel model_frame(const FrameData& f, MethodId m, size_t range);
size_t positions(size_t length, size_t range);       // how many positions a dimension has
struct ParamSpec {
	bool null = false;                                  // NULL parameters: all defaults
	size_t range = 12; bool set_range = false;
	float threshold = -1; bool set_threshold = false;
	uint8_t filter = 0; bool set_filter = false;
	RDParameters* make() const;                         // never fails
	size_t eff_range(MethodId m) const { return m == M_ZEROX ? 1 : range; }
	float eff_threshold(MethodId m) const { return threshold < 0 ? method_threshold[m] : threshold; }
	std::string str() const;
};
ParamSpec draw_params();
// exact detection counts of one frame as the library itself reports them for a session of that frame alone, checked against the model
struct Probe { std::vector<uint64_t> x, y; uint64_t dx = 1, dy = 1; };
Probe probe_frame(const FrameData& f, MethodId m, size_t range);
struct SessionModel {
	size_t w, h; MethodId m; ParamSpec p;
	size_t n = 0;
	std::vector<uint64_t> sx, sy; std::vector<char> exx, exy;
	uint64_t dx = 1, dy = 1;
	SessionModel(size_t w_, size_t h_, MethodId m_, const ParamSpec& p_);
	void add(const Probe& q);
};
// judges one dimension's results; returns a description of the first discrepancy, or ""
std::string judge_dimension(const SessionModel& s, bool xdim, const RDResolution* r, size_t count);
