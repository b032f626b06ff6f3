/* native builds: allocation goes through counting wrappers with an injectable failure */
#pragma once
#include <stdlib.h>
#include <string.h>
void *vx_malloc(size_t); void *vx_calloc(size_t, size_t); void *vx_realloc(void *, size_t); void vx_free(void *); char *vx_strdup(const char *); char *vx_strndup(const char *, size_t);
#include <stdio.h>
#include <stdarg.h>
int vx_asprintf(char **, const char *, ...); int vx_vasprintf(char **, const char *, va_list); void *vx_reallocarray(void *, size_t, size_t);
FILE *vx_open_memstream(char **, size_t *); char *vx_strtok(char *, const char *);
#define strtok vx_strtok
#ifndef VX_NOALLOC
#define open_memstream vx_open_memstream
#define asprintf vx_asprintf
#define vasprintf vx_vasprintf
#define reallocarray vx_reallocarray
#define malloc vx_malloc
#define calloc vx_calloc
#define realloc vx_realloc
#define free vx_free
#undef strdup
#undef strndup
#define strdup vx_strdup
#define strndup vx_strndup
#endif
#ifdef VX_LINT
#include <unistd.h>
#include <stdio.h>
FILE *vx_fopen(const char *, const char *); int vx_fclose(FILE *); int vx_fileno(FILE *); int vx_isatty(int);
#define fopen vx_fopen
#define fclose vx_fclose
#define fileno vx_fileno
#define isatty vx_isatty
#endif
