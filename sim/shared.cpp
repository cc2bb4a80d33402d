// libc calls of the library that read or write memory given by address: accesses to data that callers share,
// which the instrumentation of the library's own loads and stores does not show.
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cctype>
extern void shared_access(const void *);
extern void shared_state_access();
extern "C" {
static void each_pointer(const char *f, va_list ap, bool scan) {
    for (; *f; f++) {
        if (*f != '%') continue;
        f++; if (*f == '%') continue;
        bool skip = false; int l = 0;
        while (*f && strchr("*0123456789.+-# hlLqjzt", *f)) { if (*f == '*') { if (scan) skip = true; else (void)va_arg(ap, int); } if (*f == 'l') l++; if (*f == 'L') l = 9; f++; }
        if (!*f) return;
        if (scan) { if (*f == '[') { f++; if (*f == '^') f++; if (*f == ']') f++; while (*f && *f != ']') f++; if (!*f) return; } if (!skip) shared_access(va_arg(ap, void *)); continue; }
        if (strchr("diouxXc", *f)) { if (l) (void)va_arg(ap, long); else (void)va_arg(ap, int); }
        else if (strchr("fFeEgGaA", *f)) { if (l == 9) (void)va_arg(ap, long double); else (void)va_arg(ap, double); }
        else { void *p = va_arg(ap, void *); if (*f == 's') shared_access(p); }
    }
}
#define SCAN(name, first, call) int name { va_list ap, b; va_start(ap, fmt); va_copy(b, ap); first; each_pointer(fmt, b, true); va_end(b); int r = call; va_end(ap); return r; }
SCAN(sim_fscanf(FILE *f, const char *fmt, ...), , vfscanf(f, fmt, ap))
SCAN(sim_isoc99_fscanf(FILE *f, const char *fmt, ...), , vfscanf(f, fmt, ap))
SCAN(sim_isoc23_fscanf(FILE *f, const char *fmt, ...), , vfscanf(f, fmt, ap))
SCAN(sim_sscanf(const char *s, const char *fmt, ...), shared_access(s), vsscanf(s, fmt, ap))
SCAN(sim_isoc99_sscanf(const char *s, const char *fmt, ...), shared_access(s), vsscanf(s, fmt, ap))
SCAN(sim_isoc23_sscanf(const char *s, const char *fmt, ...), shared_access(s), vsscanf(s, fmt, ap))
#define PRINT(name, first, call) int name { va_list ap, b; va_start(ap, fmt); va_copy(b, ap); first; each_pointer(fmt, b, false); va_end(b); int r = call; va_end(ap); return r; }
PRINT(sim_sprintf(char *s, const char *fmt, ...), shared_access(s), vsprintf(s, fmt, ap))
PRINT(sim_snprintf(char *s, size_t n, const char *fmt, ...), shared_access(s), vsnprintf(s, n, fmt, ap))
PRINT(sim_fprintf(FILE *f, const char *fmt, ...), , vfprintf(f, fmt, ap))
char *sim_strncpy(char *d, const char *s, size_t n) { shared_access(d); shared_access(s); return strncpy(d, s, n); }
char *sim_strcpy(char *d, const char *s) { shared_access(d); shared_access(s); return strcpy(d, s); }
char *sim_stpcpy(char *d, const char *s) { shared_access(d); shared_access(s); return stpcpy(d, s); }
char *sim_strcat(char *d, const char *s) { shared_access(d); shared_access(s); return strcat(d, s); }
char *sim_strncat(char *d, const char *s, size_t n) { shared_access(d); shared_access(s); return strncat(d, s, n); }
size_t sim_strlen(const char *s) { shared_access(s); return strlen(s); }
int sim_strcmp(const char *a, const char *b) { shared_access(a); shared_access(b); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n) { shared_access(a); shared_access(b); return strncmp(a, b, n); }
char *sim_strchr(const char *s, int c) { shared_access(s); return (char *)strchr(s, c); }
char *sim_strrchr(const char *s, int c) { shared_access(s); return (char *)strrchr(s, c); }
char *sim_strstr(const char *a, const char *b) { shared_access(a); shared_access(b); return (char *)strstr(a, b); }
int sim_atoi(const char *s) { shared_access(s); return atoi(s); }
double sim_atof(const char *s) { shared_access(s); return atof(s); }
long sim_strtol(const char *s, char **e, int b) { shared_access(s); shared_access(e); return strtol(s, e, b); }
double sim_strtod(const char *s, char **e) { shared_access(s); shared_access(e); return strtod(s, e); }
char *sim_fgets(char *s, int n, FILE *f) { shared_access(s); return fgets(s, n, f); }
size_t sim_fread(void *p, size_t a, size_t b, FILE *f) { shared_access(p); return fread(p, a, b, f); }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) { shared_access(p); return fwrite(p, a, b, f); }
void *sim_memcpy(void *d, const void *s, size_t n) { shared_access(d); shared_access(s); return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { shared_access(d); shared_access(s); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { shared_access(d); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { shared_access(a); shared_access(b); return memcmp(a, b, n); }
void *__asan_memcpy(void *, const void *, size_t); void *__asan_memmove(void *, const void *, size_t); void *__asan_memset(void *, int, size_t);
void *sim_asan_memcpy(void *d, const void *s, size_t n) { shared_access(d); shared_access(s); return __asan_memcpy(d, s, n); }
void *sim_asan_memmove(void *d, const void *s, size_t n) { shared_access(d); shared_access(s); return __asan_memmove(d, s, n); }
void *sim_asan_memset(void *d, int c, size_t n) { shared_access(d); return __asan_memset(d, c, n); }
// strtok keeps its place in data of the process.
static char *tok_place;
char *sim_strtok(char *s, const char *del) {
    shared_state_access();
    if (s) tok_place = s;
    if (!tok_place) return nullptr;
    tok_place += strspn(tok_place, del); if (!*tok_place) { tok_place = nullptr; return nullptr; }
    char *t = tok_place; tok_place += strcspn(tok_place, del);
    if (*tok_place) *tok_place++ = 0; else tok_place = nullptr;
    return t;
}
}
