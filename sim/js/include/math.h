#pragma once
#define M_PI 3.14159265358979323846
#define NAN __builtin_nanf("")
#define INFINITY __builtin_inff()
#define HUGE_VAL __builtin_inf()
#define isnan(x) __builtin_isnan(x)
#define isinf(x) __builtin_isinf(x)
#define isfinite(x) __builtin_isfinite(x)
#define signbit(x) __builtin_signbit(x)
#define F1(n) double n(double); float n##f(float);
F1(sin) F1(cos) F1(tan) F1(atan) F1(acos) F1(asin) F1(exp) F1(log) F1(log2) F1(log10) F1(sqrt) F1(fabs) F1(floor) F1(ceil) F1(round) F1(trunc) F1(rint) F1(nearbyint) F1(exp2) F1(cbrt) F1(log1p) F1(expm1) F1(sinh) F1(cosh) F1(tanh)
#undef F1
double atan2(double, double); double pow(double, double); double fmod(double, double); double fmin(double, double); double fmax(double, double); double copysign(double, double); double frexp(double, int*); double ldexp(double, int);
float atan2f(float, float); float powf(float, float); float fmodf(float, float); float fminf(float, float); float fmaxf(float, float); float copysignf(float, float); float frexpf(float, int*); float ldexpf(float, int);
long lround(double); long lrint(double); long lroundf(float); long lrintf(float);
double hypot(double, double); double fma(double, double, double); double modf(double, double*); double fdim(double, double); double scalbn(double, int);
float hypotf(float, float); float fmaf(float, float, float); float modff(float, float*); float fdimf(float, float); float scalbnf(float, int);
long long llround(double); long long llroundf(float);
#define isnormal(x) __builtin_isnormal(x)
#define FP_NAN 0
#define FP_INFINITE 1
#define FP_ZERO 2
#define FP_SUBNORMAL 3
#define FP_NORMAL 4
#define fpclassify(x) __builtin_fpclassify(0, 1, 4, 3, 2, x)
#define M_PI_2 1.57079632679489661923
#define M_PI_4 0.78539816339744830962
#define M_SQRT2 1.41421356237309504880
#define M_SQRT1_2 0.70710678118654752440
#define M_E 2.7182818284590452354
#define M_LN2 0.69314718055994530942
#define HUGE_VALF __builtin_inff()
typedef float float_t; typedef double double_t;
