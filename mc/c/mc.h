/* Common plumbing of the C explorers: deterministic case numbering, sharding, replay of one case, reporting. */
#ifndef MC_H
#define MC_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <stdarg.h>
static long mc_shard = 0, mc_nshards = 1, mc_only = -1, mc_idx = -1, mc_ran = 0, mc_viol = 0;
static char mc_case[512] = "start";
static int mc_thorough = 0;
static void mc_die(void) { fprintf(stderr, "CASE #%ld %s\n", mc_idx, mc_case); fflush(stderr); fflush(stdout); }
static void mc_sig(int s) { mc_die(); signal(s, SIG_DFL); raise(s); }
#if defined(__SANITIZE_ADDRESS__) || defined(MC_SAN)
void __sanitizer_set_death_callback(void (*)(void));
#endif
static const char *mc_arg(int argc, char **argv, const char *name, const char *def) {
    for (int i = 1; i < argc - 1; i++) if (!strcmp(argv[i], name)) return argv[i + 1];
    return def;
}
/* one case using minutes of processor time while a whole shard normally takes less: it does not end */
static volatile long mc_seen = -2; static volatile int mc_ticks = 0;
static void mc_tick(int s) {
    (void)s;
    if (mc_seen != mc_idx) { mc_seen = mc_idx; mc_ticks = 0; return; }
    if (++mc_ticks < (mc_thorough ? 120 : 10)) return;
    printf("VIOL hang|case #%ld %s: no end in sight after %d s of processor time\n", mc_idx, mc_case, mc_ticks * 20); fflush(stdout); mc_die(); _exit(3);
}
static void mc_arm(void) {           /* also in a forked child: timers are not inherited */
    mc_seen = -2;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = mc_tick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, 0);
    struct itimerval it = {{20, 0}, {20, 0}}; setitimer(ITIMER_PROF, &it, 0);
}
static void mc_init(int argc, char **argv) {
    sscanf(mc_arg(argc, argv, "--shard", "0/1"), "%ld/%ld", &mc_shard, &mc_nshards);
    mc_only = atol(mc_arg(argc, argv, "--only", "-1"));
    mc_thorough = atoi(mc_arg(argc, argv, "--thorough", "0"));
    mc_arm();
    signal(SIGABRT, mc_sig); signal(SIGSEGV, mc_sig); signal(SIGFPE, mc_sig); signal(SIGBUS, mc_sig); signal(SIGILL, mc_sig);
#if defined(__SANITIZE_ADDRESS__) || defined(MC_SAN)
    signal(SIGSEGV, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGILL, SIG_DFL);
    __sanitizer_set_death_callback(mc_die);
#endif
}
/* Announce the next case of the enumeration; returns 1 if this process executes it. */
static int mc_next(const char *fmt, ...) {
    mc_idx++;
    if (mc_only >= 0 ? mc_idx != mc_only : (mc_idx % mc_nshards) != mc_shard) return 0;
    va_list ap; va_start(ap, fmt); vsnprintf(mc_case, sizeof mc_case, fmt, ap); va_end(ap);
    mc_ran++;
    if (mc_ran <= 2 && mc_shard == 0) printf("SAMPLE case #%ld: %s\n", mc_idx, mc_case);
    return 1;
}
static void mc_violation(const char *key, const char *fmt, ...) {
    if (mc_viol++ < 20) {
        va_list ap; va_start(ap, fmt);
        printf("VIOL %s|case #%ld %s: ", key, mc_idx, mc_case); vprintf(fmt, ap); printf("\n"); va_end(ap);
        fflush(stdout);
    }
}
static void mc_stat(const char *k, long v) { printf("STAT %s %ld\n", k, v); }
static int mc_done(void) { printf("DONE\n"); fflush(stdout); return 0; }
static uint64_t mc_fnv(uint64_t h, const void *p, size_t n) { const unsigned char *c = p; while (n--) { h ^= *c++; h *= 1099511628211ULL; } return h; }
#define MC_FNV0 1469598103934665603ULL
#endif
