#pragma once
#include <stddef.h>
void* malloc(size_t); void* calloc(size_t, size_t); void* realloc(void*, size_t); void free(void*);
void qsort(void*, size_t, size_t, int(*)(const void*, const void*));
void abort(void) __attribute__((noreturn)); void exit(int) __attribute__((noreturn));
int abs(int); long labs(long);
unsigned long strtoul(const char*, char**, int); long strtol(const char*, char**, int); double strtod(const char*, char**); float strtof(const char*, char**);
void* reallocarray(void*, size_t, size_t); void* aligned_alloc(size_t, size_t); void* bsearch(const void*, const void*, size_t, size_t, int(*)(const void*, const void*)); long long llabs(long long);
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
