// Included before every C file: announces what the functions of the C library read and write.
#if defined(VS_TSAN) && !defined(__ASSEMBLER__)
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <pthread.h>
extern void vs_mayblock(void);
#define pthread_mutex_lock(m) (vs_mayblock(), pthread_mutex_lock(m))
extern void vs_mem(const void *p, unsigned long n, int write, const void *pc);
#define VS_HERE ({ __label__ here; here: &&here; })
#define VS_R(p, n) vs_mem(p, n, 0, __builtin_extract_return_addr(VS_HERE))
#define VS_W(p, n) vs_mem(p, n, 1, __builtin_extract_return_addr(VS_HERE))
#define memcpy(d, s, n) ({ void *vs_memcpy_d = (d); const void *vs_memcpy_s = (s); size_t vs_memcpy_n = (n); VS_R(vs_memcpy_s, vs_memcpy_n); VS_W(vs_memcpy_d, vs_memcpy_n); memcpy(vs_memcpy_d, vs_memcpy_s, vs_memcpy_n); })
#define memmove(d, s, n) ({ void *vs_memmove_d = (d); const void *vs_memmove_s = (s); size_t vs_memmove_n = (n); VS_R(vs_memmove_s, vs_memmove_n); VS_W(vs_memmove_d, vs_memmove_n); memmove(vs_memmove_d, vs_memmove_s, vs_memmove_n); })
#define memset(d, c, n) ({ void *vs_memset_d = (d); size_t vs_memset_n = (n); VS_W(vs_memset_d, vs_memset_n); memset(vs_memset_d, (c), vs_memset_n); })
#define strlen(s) ({ const char *vs_strlen_s = (s); VS_R(vs_strlen_s, 1); size_t vs_strlen_n = strlen(vs_strlen_s); VS_R(vs_strlen_s, vs_strlen_n + 1); vs_strlen_n; })
#define strdup(s) ({ const char *vs_strdup_s = (s); VS_R(vs_strdup_s, 1); VS_R(vs_strdup_s, strlen(vs_strdup_s) + 1); strdup(vs_strdup_s); })
#define strcpy(d, s) ({ char *vs_strcpy_d = (d); const char *vs_strcpy_s = (s); size_t vs_strcpy_n = strlen(vs_strcpy_s) + 1; VS_W(vs_strcpy_d, vs_strcpy_n); strcpy(vs_strcpy_d, vs_strcpy_s); })
#define strncpy(d, s, n) ({ char *vs_strncpy_d = (d); const char *vs_strncpy_s = (s); size_t vs_strncpy_n = (n); VS_R(vs_strncpy_s, 1); VS_W(vs_strncpy_d, vs_strncpy_n); strncpy(vs_strncpy_d, vs_strncpy_s, vs_strncpy_n); })
#define strcat(d, s) ({ char *vs_strcat_d = (d); const char *vs_strcat_s = (s); VS_R(vs_strcat_s, 1); VS_W(vs_strcat_d, strlen(vs_strcat_d) + strlen(vs_strcat_s) + 1); strcat(vs_strcat_d, vs_strcat_s); })
#define strcmp(a, b) ({ const char *vs_strcmp_a = (a), *vs_strcmp_b = (b); VS_R(vs_strcmp_a, 1); VS_R(vs_strcmp_b, 1); strcmp(vs_strcmp_a, vs_strcmp_b); })
#define strtod(s, e) ({ const char *vs_strtod_s = (s); VS_R(vs_strtod_s, 1); strtod(vs_strtod_s, (e)); })
#define snprintf(d, n, ...) ({ char *vs_snprintf_d = (d); size_t vs_snprintf_n = (n); VS_W(vs_snprintf_d, vs_snprintf_n); snprintf(vs_snprintf_d, vs_snprintf_n, __VA_ARGS__); })
#define sprintf(d, ...) ({ char *vs_sprintf_d = (d); VS_W(vs_sprintf_d, 1); sprintf(vs_sprintf_d, __VA_ARGS__); })
#define free(p) ({ void *vs_free_p = (p); if (vs_free_p) VS_W(vs_free_p, malloc_usable_size(vs_free_p)); free(vs_free_p); })
#endif
