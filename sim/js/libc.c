/* What the library needs of a C library in the simulated WebAssembly instance. Memory and transcendental functions come from outside (module.mjs). */
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <errno.h>
#include <ctype.h>
int errno;
#define NB __attribute__((no_builtin))
NB void* memcpy(void* restrict d, const void* restrict s, size_t n) { char* a = d; const char* b = s; while(n--) *a++ = *b++; return d; }
NB void* memmove(void* d, const void* s, size_t n) { char* a = d; const char* b = s; if(a < b) while(n--) *a++ = *b++; else while(n--) a[n] = b[n]; return d; }
NB void* memset(void* d, int c, size_t n) { char* a = d; while(n--) *a++ = c; return d; }
NB int memcmp(const void* x, const void* y, size_t n) { const unsigned char* a = x,* b = y; for(; n--; a++, b++) if(*a != *b) return *a - *b; return 0; }
NB void* memchr(const void* x, int c, size_t n) { const unsigned char* a = x; for(; n--; a++) if(*a == (unsigned char)c) return (void*)a; return 0; }
NB size_t strlen(const char* s) { size_t n = 0; while(s[n]) n++; return n; }
NB int strcmp(const char* a, const char* b) { while(*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
NB int strncmp(const char* a, const char* b, size_t n) { for(; n--; a++, b++) { if(*a != *b) return (unsigned char)*a - (unsigned char)*b; if(!*a) break; } return 0; }
int strcasecmp(const char* a, const char* b) { while(*a && tolower(*a) == tolower(*b)) a++, b++; return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { for(; n--; a++, b++) { int d = tolower((unsigned char)*a) - tolower((unsigned char)*b); if(d || !*a) return d; } return 0; }
NB char* strchr(const char* s, int c) { for(;; s++) { if(*s == (char)c) return (char*)s; if(!*s) return 0; } }
NB char* strrchr(const char* s, int c) { const char* r = 0; for(;; s++) { if(*s == (char)c) r = s; if(!*s) return (char*)r; } }
NB char* strstr(const char* s, const char* t) { size_t n = strlen(t); for(;; s++) { if(!strncmp(s, t, n)) return (char*)s; if(!*s) return 0; } }
NB char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = malloc(n); return r ? memcpy(r, s, n) : 0; }
char* strerror(int e) { (void)e; return "system error"; }
int isspace(int c) { return c == ' ' || c >= 9 && c <= 13; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
void abort(void) { __builtin_trap(); }
void exit(int c) { (void)c; __builtin_trap(); }
NB void* calloc(size_t n, size_t m) { if(m && n > (size_t)-1 / m) return 0; void* p = malloc(n * m); return p ? memset(p, 0, n * m) : 0; }
void qsort(void* base, size_t n, size_t w, int(*cmp)(const void*, const void*)) {    /* heapsort: any order of equals is allowed */
	char* b = base;
#define SWAP(i, j) for(size_t k = 0; k < w; k++) { char t = b[(i) * w + k]; b[(i) * w + k] = b[(j) * w + k]; b[(j) * w + k] = t; }
	for(size_t s = n / 2, e = n; e > 1;) {
		if(s) s--; else { e--; SWAP(0, e) }
		for(size_t r = s, c; (c = 2 * r + 1) < e; r = c) {
			if(c + 1 < e && cmp(b + c * w, b + (c + 1) * w) < 0) c++;
			if(cmp(b + r * w, b + c * w) >= 0) break;
			SWAP(r, c)
		}
	}
}
NB double copysign(double a, double b) { union { double d; unsigned long long u; } x = { a }, y = { b }; x.u = x.u << 1 >> 1 | y.u >> 63 << 63; return x.d; }
NB float copysignf(float a, float b) { return copysign(a, b); }
NB double frexp(double v, int* e) {
	union { double d; unsigned long long u; } x = { v };
	int ee = x.u >> 52 & 0x7ff;
	if(!ee) { if(v) { v = frexp(v * 0x1p64, e); *e -= 64; } else *e = 0; return v; }
	if(ee == 0x7ff) { *e = 0; return v; }
	*e = ee - 0x3fe; x.u = x.u & 0x800fffffffffffffull | 0x3fe0000000000000ull; return x.d;
}
NB float frexpf(float v, int* e) { return frexp(v, e); }
NB double ldexp(double v, int e) { while(e > 0) { int k = e > 1000 ? 1000 : e; for(int i = 0; i < k; i++) v *= 2; e -= k; if(!v || __builtin_isinf(v)) break; } while(e < 0 && v) v /= 2, e++; return v; }
NB float ldexpf(float v, int e) { return ldexp(v, e); }
NB double fabs(double x) { return copysign(x, 1); }
NB float fabsf(float x) { return copysign(x, 1); }
NB double round(double x) { double f = floor(fabs(x)); if(fabs(x) - f >= 0.5) f += 1; return copysign(f, x); }
NB float roundf(float x) { return round(x); }
long lround(double x) { return round(x); }
long lroundf(float x) { return round(x); }
long lrint(double x) { return nearbyint(x); }
long lrintf(float x) { return nearbyint(x); }
#define F(n) NB float n##f(float x) { return n(x); }
F(sin) F(cos) F(tan) F(atan) F(acos) F(asin) F(exp) F(log) F(log2) F(log10) F(sqrt) F(floor) F(ceil) F(trunc)
NB double rint(double x) { return nearbyint(x); }
NB float rintf(float x) { return nearbyint(x); }
NB float nearbyintf(float x) { return nearbyint(x); }
float atan2f(float a, float b) { return atan2(a, b); }
float powf(float a, float b) { return pow(a, b); }
float fmodf(float a, float b) { return fmod(a, b); }
NB double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
NB double fmax(double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; }
NB float fminf(float a, float b) { return fmin(a, b); }
NB float fmaxf(float a, float b) { return fmax(a, b); }
NB void* reallocarray(void* p, size_t n, size_t m) { if(m && n > (size_t)-1 / m) return 0; return realloc(p, n * m); }
void* aligned_alloc(size_t a, size_t n) { (void)a; return malloc(n); }
NB size_t strnlen(const char* s, size_t m) { size_t n = 0; while(n < m && s[n]) n++; return n; }
NB char* strcpy(char* d, const char* s) { memcpy(d, s, strlen(s) + 1); return d; }
NB char* strncpy(char* d, const char* s, size_t n) { size_t l = strnlen(s, n); memcpy(d, s, l); memset(d + l, 0, n - l); return d; }
NB char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
NB char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* r = malloc(n + 1); if(r) { memcpy(r, s, n); r[n] = 0; } return r; }
void* bsearch(const void* k, const void* b, size_t n, size_t w, int(*cmp)(const void*, const void*)) {
	while(n) { const char* m = (const char*)b + n / 2 * w; int c = cmp(k, m); if(!c) return (void*)m; if(c > 0) { b = m + w; n -= n / 2 + 1; } else n /= 2; }
	return 0;
}
F(exp2) F(cbrt) F(log1p) F(expm1) F(sinh) F(cosh) F(tanh)
NB double fma(double a, double b, double c) { return a * b + c; }
NB float fmaf(float a, float b, float c) { return (double)a * b + c; }
NB float hypotf(float a, float b) { return hypot(a, b); }
NB double modf(double x, double* i) { *i = trunc(x); return copysign(x - *i, x); }
NB float modff(float x, float* i) { *i = truncf(x); return copysignf(x - *i, x); }
NB double fdim(double a, double b) { return a > b ? a - b : 0; }
NB float fdimf(float a, float b) { return a > b ? a - b : 0; }
long long llround(double x) { return round(x); }
long long llroundf(float x) { return round(x); }
long long llabs(long long x) { return x < 0 ? -x : x; }
NB double scalbn(double x, int e) { return ldexp(x, e); }
NB float scalbnf(float x, int e) { return ldexp(x, e); }
