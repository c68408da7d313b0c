// Native side of the harness API: replays concrete inputs found by the engine.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <pthread.h>
#include <semaphore.h>
#include "v.h"

static unsigned char *g_in; static size_t g_n, g_p;
static unsigned long long g_hash = 1469598103934665603ull;
static const char *g_reach[256]; static int g_nreach;
static FILE *g_out;
static long g_param[16];

static void finish(const char *status, const char *msg) {
    fprintf(g_out, "%s\t%016llx\t", status, g_hash);
    for (int i = 0; i < g_nreach; i++) fprintf(g_out, "%s,", g_reach[i]);
    fprintf(g_out, "\t%s\n", msg);
    fflush(g_out);
    _exit(0);
}
static unsigned char next(void) { if (g_p >= g_n) finish("SHORT", "input exhausted"); return g_in[g_p++]; }
void v_sym(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *) p)[i] = next(); }
int v_choose(int n) { int c = next(); if (c >= n) finish("RANGE", "choice out of range"); return c; }
void v_assume(int c) { if (!c) finish("ASSUME", ""); }
void v_assert_(int c, const char *msg) { if (!c) finish("ASSERT", msg); }
void v_fail(const char *msg) { finish("ASSERT", msg); }
void v_reach(const char *l) { for (int i = 0; i < g_nreach; i++) if (!strcmp(g_reach[i], l)) return; if (g_nreach < 256) g_reach[g_nreach++] = strdup(l); }
void v_log(const void *p, size_t n) { for (size_t i = 0; i < n; i++) { g_hash ^= ((const unsigned char *) p)[i]; g_hash *= 1099511628211ull; } if (getenv("V_VERBOSE")) { fprintf(stderr, "LOG "); fwrite(p, 1, n, stderr); fprintf(stderr, "\n"); } }
void v_end(void) { finish("OK", ""); }
long v_param(int i) { return g_param[i]; }
long v_conc(long v) { return v; }
int v_may(int c) { return c; }
int v_opaque_ints;
long v_scan(const char *s) { (void) s; return 0; }
int v_is_sym(long v) { (void) v; return 0; }
void v_trace(const char *s) { if (getenv("V_VERBOSE")) fprintf(stderr, "TRACE %s\n", s); }
int v_fmt_double(char *buf, size_t n, int prec, double d) { return snprintf(buf, n, "%.*f", prec, d); }

// second call stacks: threads of which exactly one runs at a time
static sem_t g_co[16]; static int g_nco, g_cur; static void (*g_cofn[16])(void *); static void *g_coarg[16];
static void wait_(int k) { while (sem_wait(&g_co[k])) ; }
static void *cobody(void *p) { int k = (int) (long) p; wait_(k); g_cofn[k](g_coarg[k]); finish("ASSERT", "the function of a second stack returned"); return NULL; }
int v_co_new(void (*fn)(void *), void *arg) {
    if (!g_nco) { sem_init(&g_co[0], 0, 0); g_nco = 1; }
    if (g_nco >= 16) finish("ASSERT", "too many stacks");
    int k = g_nco++; pthread_t t; sem_init(&g_co[k], 0, 0); g_cofn[k] = fn; g_coarg[k] = arg;
    if (pthread_create(&t, NULL, cobody, (void *) (long) k)) finish("ASSERT", "no thread");
    return k;
}
void v_co_switch(int k) { int me = g_cur; if (k == me) return; g_cur = k; sem_post(&g_co[k]); wait_(me); }

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    char *ps = getenv("V_PARAMS");
    if (ps) for (char *t = strtok(strdup(ps), ","); t; t = strtok(NULL, ",")) { int k; long v; if (sscanf(t, "%d=%ld", &k, &v) == 2) g_param[k] = v; }
    FILE *f = fopen(argv[1], "r");
    g_out = fopen(argv[2], "w");
    if (!f || !g_out) return 2;
    int tmo = getenv("V_TIMEOUT") ? atoi(getenv("V_TIMEOUT")) : 10;
    char *line = NULL; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        while (n > 0 && (line[n - 1] == '\n')) line[--n] = 0;
        g_in = malloc(n / 2 + 1); g_n = 0;
        for (ssize_t i = 0; i + 1 < n; i += 2) { unsigned v; sscanf(line + i, "%2x", &v); g_in[g_n++] = v; }
        fflush(g_out);
        pid_t p = fork();
        if (p == 0) { signal(SIGALRM, SIG_DFL); alarm(tmo); v_main(); finish("OK", ""); }
        int st; waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) { fseek(g_out, 0, SEEK_END); fprintf(g_out, "%s\t-\t\tsignal %d\n", WTERMSIG(st) == SIGALRM ? "TIMEOUT" : "CRASH", WTERMSIG(st)); }
        else if (WEXITSTATUS(st) != 0) { fseek(g_out, 0, SEEK_END); fprintf(g_out, "CRASH\t-\t\texit %d\n", WEXITSTATUS(st)); }
        free(g_in);
    }
    fclose(g_out);
    return 0;
}
