#pragma once
#include <stddef.h>
#include <stdarg.h>
typedef struct SimFILE FILE;
extern FILE* stderr, * stdin, * stdout;
#define EOF (-1)
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
int fprintf(FILE*, const char*, ...); int printf(const char*, ...); int snprintf(char*, size_t, const char*, ...); int fputs(const char*, FILE*); int puts(const char*);
