// A reader under test: performs API calls and judges every outcome against the truth.
#pragma once
#include "fmt.h"
extern "C" {
#include "resdet_api.h"
}
extern std::string g_prop;                       // property whose oracles are active

void op_budget(uint64_t size, uint64_t px, uint64_t extra = 0);
void op_done();

struct OpenSpec { std::string name, type, reader; bool by_reader = false, own_buf = false, from_stdin = false; };
struct Handle {
	const Truth* t = nullptr;
	std::string label;
	SimFile* file = nullptr;
	RDImage* im = nullptr;
	size_t w = 0, h = 0;
	float* buf = nullptr;
	bool harness_buf = false, nobuf = false;
	size_t pos = 0;
	bool errored = false, unknown = false, skipped_single = false;
	bool lenient = false;                        // an error is always an acceptable outcome
	uint64_t faults0 = 0;
	int last_err = 0;
	std::vector<uint64_t> outcomes;              // for comparisons between runs
	bool strict() const { return !lenient && cx->faults() == faults0; }
	bool open(const OpenSpec& o);                // true if open
	bool read();                                 // result of the call
	bool seek(uint64_t k, bool progress);
	void close();
	size_t left() const { return t->fr.size() > pos ? t->fr.size() - pos : 0; }
};
bool tame(const Sample& s);                       // what decoders find in altered bytes is small enough to be analysed
bool valid_error(int e);
bool av_claims(const std::string& ext);
OpenSpec draw_open(const Sample& s, bool is_stdin, bool exotic);
void finish_run(bool leaks);
Sample setup_sample(Format fm, const Limits& l, bool faults, bool* is_stdin, SimFile** f);
SimFile* install(Sample& s, bool faults, bool* is_stdin);
extern bool g_force_varying;
const char* err_name(int e);
