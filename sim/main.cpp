#include "reader.h"
#include "libs.h"
void scen_python(); void scen_clean(); void scen_seek(); void scen_fault(); void scen_damage(); void scen_resources(); void scen_hostile(); void scen_sessions(); void scen_failing(); void scen_oneshot(); void scen_alloc(); void scen_threads(); void scen_cli(); void scen_limits(); void scen_args(); void scen_tools(); void scen_profile(); void scen_stat();
const Scenario scenarios[] = {
#ifdef SIM_PY
	{ "python", scen_python },
#endif
	{ "clean", scen_clean }, { "seek", scen_seek }, { "fault", scen_fault }, { "damage", scen_damage }, { "resources", scen_resources }, { "hostile", scen_hostile }, { "sessions", scen_sessions }, { "failing", scen_failing }, { "oneshot", scen_oneshot }, { "alloc", scen_alloc }, { "threads", scen_threads }, { "cli", scen_cli }, { "limits", scen_limits }, { "args", scen_args }, { "tools", scen_tools }, { "profile", scen_profile }, { "stat", scen_stat },
	{ nullptr, nullptr }
};
#define STR_(x) #x
#define STR(x) STR_(x)
const char* variant_name = STR(VARIANT);
#ifdef VAR_FFTW
bool variant_fftw = true;
#else
bool variant_fftw = false;
#endif
#ifdef HAVE_FFMPEG
bool variant_libs = true;
#else
bool variant_libs = false;
#endif
#ifdef VAR_DOUBLE
bool variant_double = true;
#else
bool variant_double = false;
#endif
#ifdef PIXEL_MAX
size_t variant_pixel_max = PIXEL_MAX;
#else
size_t variant_pixel_max = SIZE_MAX;
#endif
void world_warmup() {
	if(variant_libs) MagickWandGenesis();
	extern bool g_force_varying, g_no_budgets;
	reset_hooks().push_back([] { g_force_varying = false; g_no_budgets = false; });
	corpus_init();
	if(const char* p = getenv("SIM_PROP")) g_prop = p;
}
