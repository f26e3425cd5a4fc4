/* C30: the statistics the receiver reports against the signal that was fed to it (tones, noise level, clock offset), on every
   accessor, after every block, for every configuration and signal of the enumeration. */
#define DSP_NO_MAIN
#include "dsp.c"
#include "modem_stats.h"
static long readings = 0;
static double gauss(void) { double s = 0; for (int i = 0; i < 12; i++) { prng = prng * 1664525u + 1013904223u; s += (prng >> 8) / 16777216.0; } return s - 6; }
static void add_noise(const struct sig *g, double sd) {
    for (long i = 0; i < XL * (g->iq + 1); i++) { double v = X[i] + sd * gauss(); X[i] = (short)lrint(v > 32767 ? 32767 : v < -32768 ? -32768 : v); }
}
static struct horus *stats_open(const struct sig *g) {
    struct horus *h = horus_open_advanced_sample_rate(g->M == 2 ? HORUS_MODE_RTTY_7N2 : HORUS_MODE_BINARY_V1, g->Rs, g->mask ? g->sp : -1, g->Fs, g->P);
    if (g->hi > g->lo) horus_set_freq_est_limits(h, g->lo, g->hi);
    return h;
}
/* everything that must hold of any reading, whatever the input */
static int sane(struct horus *h, const struct sig *g, struct MODEM_STATS *st, int block) {
    struct MODEM_STATS s2; memset(st, 0x55, sizeof *st); memset(&s2, 0xaa, sizeof s2);
    horus_get_modem_extended_stats(h, st); horus_get_modem_extended_stats(h, &s2);
    int sync = -1, i, j; float snr = 1e9; horus_get_modem_stats(h, &sync, &snr); readings++;
#define SAME(f) if (memcmp(&st->f, &s2.f, sizeof st->f)) { mc_violation("reread", "block %d: two readings in a row differ in " #f, block); return 0; }
    SAME(snr_est) SAME(clock_offset) SAME(rx_timing) SAME(neyetr) SAME(neyesamp) SAME(sync)
    if (snr != st->snr_est) { mc_violation("accessors", "block %d: SNR %g from one accessor, %g from the other", block, snr, st->snr_est); return 0; }
    if (sync != st->sync || sync < 0 || sync > 1) { mc_violation("accessors", "block %d: sync %d and %d", block, sync, st->sync); return 0; }
    if (!isfinite(snr) || snr < -120 || snr > 300) { mc_violation("snr-finite", "block %d: SNR %g", block, snr); return 0; }
    if (!isfinite(st->clock_offset)) { mc_violation("clock-finite", "block %d: clock offset %g", block, st->clock_offset); return 0; }
    if (!isfinite(st->rx_timing) || fabs(st->rx_timing) > g->P / 2.0 + 1e-3) { mc_violation("timing", "block %d: timing %g of %d", block, st->rx_timing, g->P); return 0; }
    for (i = 0; i < g->M; i++) {
        if (st->f_est[i] != s2.f_est[i]) { mc_violation("reread", "block %d: tone %d differs", block, i); return 0; }
        if (!isfinite(st->f_est[i]) || fabs(st->f_est[i]) > g->Fs / 2.0 + (g->mask ? g->M * g->sp : 0)) { mc_violation("tone-range", "block %d: tone %d at %g Hz", block, i, st->f_est[i]); return 0; }
        if (i && block && st->f_est[i] < st->f_est[i - 1]) { mc_violation("tone-order", "block %d: tones %g then %g Hz", block, st->f_est[i - 1], st->f_est[i]); return 0; }
    }
    if (st->neyetr < 1 || st->neyetr > MODEM_STATS_ET_MAX || st->neyesamp < 1 || st->neyesamp > MODEM_STATS_EYE_IND_MAX) { mc_violation("eye-size", "block %d: eye of %d x %d", block, st->neyetr, st->neyesamp); return 0; }
    double top = 0;
    for (i = 0; i < st->neyetr; i++) for (j = 0; j < st->neyesamp; j++) {
        if (st->rx_eye[i][j] != s2.rx_eye[i][j] && block) { mc_violation("reread", "block %d: eye differs", block); return 0; }
        if (!(st->rx_eye[i][j] >= 0 && st->rx_eye[i][j] <= 1.0001)) { mc_violation("eye-value", "block %d: eye[%d][%d] = %g", block, i, j, st->rx_eye[i][j]); return 0; }
        if (st->rx_eye[i][j] > top) top = st->rx_eye[i][j];
    }
    if (block && top != 0 && fabs(top - 1) > 1e-3) { mc_violation("eye-scale", "block %d: eye peaks at %g", block, top); return 0; }
    return 1;
}
static double est_snr, est_clk; static int est_n;
/* feed X, judge every reading after `acq` blocks against the tones sent; silent: read nothing until the end */
static void follow(const struct sig *g, int acq, int tones, int maxblk) {
    struct horus *h = stats_open(g); struct MODEM_STATS st; static char o[1000]; long pos = 0; int b = 0; cases++; est_snr = est_clk = 0; est_n = 0;
    double tol = 0.35 * g->Rs;
    int go = sane(h, g, &st, 0);
    while (go && b < maxblk) {
        int nin = horus_nin(h); if (pos + nin > XL) break;
        short *in = malloc(sizeof(short) * nin * (g->iq + 1)); memcpy(in, X + (g->iq ? 2 * pos : pos), sizeof(short) * nin * (g->iq + 1));
        horus_rx(h, o, in, g->iq); free(in); pos += nin; b++; blocks++;
        if (!(go = sane(h, g, &st, b))) break;
        if (b < acq) continue;
        est_snr += st.snr_est; est_clk = st.clock_offset; est_n++;
        for (int m = 0; tones && m < g->M; m++) if (fabs(st.f_est[m] - (g->f1 + g->dev + m * g->sp)) > tol) {
            mc_violation("tone", "%s: block %d reports tone %d at %.1f Hz instead of %d", sigtxt(g), b, m, st.f_est[m], g->f1 + g->dev + m * g->sp); go = 0; break; }
    }
    if (est_n) est_snr /= est_n;
    horus_close(h);
}
static void job_tones(void) {                               /* clean signals: reported tones are the transmitted ones */
    for (int Mm = 2; Mm <= 4; Mm += 2) for (int iq = 0; iq < 2; iq++) for (int mask = 0; mask < 2; mask++) for (int P = 4; P <= 16; P *= 2) for (int k = 0; k < (mc_thorough ? 256 : 24); k++) {
        struct sig g = {Mm, 16000, 1000, P, 0, 1200 + 40 * (k % 9), k % 3 ? 9000 : 300, iq, mask, 0, k % 16 + 0.5 * (k & 1), 0, 0, 0};
        int low = iq ? -7000 : 1500, hi = 7000 - (Mm - 1) * g.sp - (iq ? 0 : 500); if (hi <= low) continue;
        g.f1 = low + (int)((hi - low) * (double)k / (mc_thorough ? 255 : 23)); g.dev = k % 7 - 3;
        if (iq) g.lo = -8000, g.hi = 8000;
        if (!mc_next("%s", sigtxt(&g))) continue;
        prbs(1000, k); modulate(&g); follow(&g, 4, 1, 9);
    }
    for (int Mm = 2; Mm <= 4; Mm += 2) for (int iq = 0; iq < 2; iq++) for (int mask = 0; mask < 2; mask++) for (int k = 0; k < (mc_thorough ? 64 : 8); k++) {   /* deployed settings */
        struct sig g = {Mm, 48000, 100, 8, 700 + 41 * k, Mm == 2 ? 425 : 270, 3000, iq, mask, 0, 61 * k % 480, 0, 0, 0};
        if (!mc_next("%s", sigtxt(&g))) continue;
        prbs(800, k); modulate(&g); follow(&g, 4, 1, 7);
    }
    static const int FS[] = {8000, 9600, 44100, 48000, 96000}, RS[] = {50, 75, 100, 200, 300, 600, 800, 1200};
    EACH(Fs, FS) EACH(Rs, RS) for (int Mm = 2; Mm <= 4; Mm += 2) for (int mask = 0; mask < 2; mask++) {
        if (Fs % Rs) continue; int P = 8; while (P <= 16 && Fs / Rs % P) P++; if (P > 16) continue;
        struct sig g = {Mm, Fs, Rs, P, Rs * 3 / 2 + 300, Rs + Rs / 2, 9000, 0, mask, 0, 5, 0, 0, 0};
        if (g.f1 + (Mm - 1) * g.sp > Fs / 2 - 2 * Rs) continue;
        if (!mc_next("%s", sigtxt(&g))) continue;
        prbs(900, Rs); modulate(&g); follow(&g, 4, 1, 7);
    }
}
static void job_noise(void) {                               /* SNR follows the true one (3 kHz) */
    for (int Mm = 2; Mm <= 4; Mm += 2) for (int iq = 0; iq < 2; iq++) for (int mask = 0; mask < 2; mask++) for (int fast = 0; fast < 2; fast++) for (int a = 0; a < (mc_thorough ? 4 : 2); a++) for (int k = 0; k < (mc_thorough ? 8 : 2); k++) {
        static const int AMP[] = {4000, 200, 1000, 8000};
        struct sig g = {Mm, fast ? 16000 : 48000, fast ? 1000 : 100, 8, fast ? 1613 + 50 * k : 1003 + 37 * k, fast ? 1200 : 270, AMP[a], iq, mask, 0, 7.5 + 3 * k, 0, 0, 0};
        if (!mc_next("%s", sigtxt(&g))) continue;
        double last = 1e9, lasttrue = 1e9;
        for (int t = 13; t >= (fast ? 1 : -1); t -= 2) {
            double P = (double)g.amp * g.amp / (iq ? 1 : 2), n0 = P / 3000 / pow(10, t / 10.0), sd = sqrt(n0 * (iq ? g.Fs / 2.0 : g.Fs / 2.0));
            prbs(2400, k + t); modulate(&g); prng += 17 * k; add_noise(&g, sd);
            follow(&g, 5, 0, 25);
            double tru = iq ? t : t;
            if (est_n < 10) { mc_violation("blocks", "only %d blocks", est_n); break; }
            if (fabs(est_snr - tru) > 6.5) { mc_violation("snr", "%s: mean SNR estimate %.1f dB for a true %.1f dB", sigtxt(&g), est_snr, tru); break; }
            if (est_snr > last - 0.3) { mc_violation("snr-order", "%s: estimate %.1f dB at a true %.1f dB, but %.1f dB at %.1f dB", sigtxt(&g), est_snr, tru, last, lasttrue); break; }
            last = est_snr; lasttrue = tru;
        }
        SL = 0; prbs(10, 1); XL = g.Fs / g.Rs * 50 * 12; memset(X, 0, sizeof(short) * XL * 2); add_noise(&g, g.amp);     /* noise alone */
        follow(&g, 5, 0, 10); if (est_snr > 9) mc_violation("snr-noise", "%s: %.1f dB from noise alone", sigtxt(&g), est_snr);
    }
}
static void job_clock(void) {                               /* clock offset: size and sign */
    for (int Mm = 2; Mm <= 4; Mm += 2) for (int iq = 0; iq < 2; iq++) for (int mask = 0; mask < 2; mask++) for (int fast = 0; fast < 2; fast++) for (int ppm = -400; ppm <= 400; ppm += mc_thorough ? 50 : 200) for (int k = 0; k < (mc_thorough ? 6 : 1); k++) {
        struct sig g = {Mm, fast ? 16000 : 48000, fast ? 1000 : 100, 8, fast ? 1613 : 1003, fast ? 1200 : 270, 4000, iq, mask, ppm, 7.5 + 3 * k, 0, 0, 0};
        if (!mc_next("%s", sigtxt(&g))) continue;
        prbs(5000, 3); modulate(&g); follow(&g, 5, 1, 45);
        if (fabs(-est_clk - ppm) > 35 + 0.3 * abs(ppm)) mc_violation("clock", "%s: reports %.1f ppm", sigtxt(&g), est_clk);
    }
}
static void job_any(void) {                                 /* any input at all: every reading is sane and reading changes nothing */
    static const struct { int Fs, Rs, P; } CF[] = {{48000, 100, 8}, {16000, 1000, 8}, {16000, 1000, 16}, {8000, 500, 4}, {48000, 300, 40}, {48000, 4800, 10}, {9600, 600, 16}, {96000, 1200, 80}};
    for (int c = 0; c < 8; c++) for (int Mm = 2; Mm <= 4; Mm += 2) for (int iq = 0; iq < 2; iq++) for (int mask = 0; mask < 2; mask++) for (int w = 0; w < (c == 0 || CF[c].Fs == 96000 ? 64 : mc_thorough ? 4096 : 512); w++) {
        struct sig g = {Mm, CF[c].Fs, CF[c].Rs, CF[c].P, 1000, CF[c].Rs * 3 / 2, 1, iq, mask, 0, 0, 0, 0, 0};
        if (!mc_next("%s blocks=%o", sigtxt(&g), w)) continue;
        cases++; prng = w;
        struct horus *h = stats_open(&g), *q = stats_open(&g); struct MODEM_STATS st; static char o[1000], o2[1000]; long t = 0; int go = sane(h, &g, &st, 0);
        for (int b = 0; go && b < (c == 0 ? 2 : mc_thorough ? 4 : 3); b++) {
            int nin = horus_nin(h); if (nin != (int)horus_nin(q)) { mc_violation("reading-changes", "%s: request %d after reading, %d without", sigtxt(&g), nin, (int)horus_nin(q)); break; }
            short *in = malloc(sizeof(short) * nin * (iq + 1)); fill_block(in, nin, iq + 1, w >> 3 * b & 7, t);
            memset(o, 0, sizeof o); memset(o2, 0, sizeof o2);
            int r = horus_rx(h, o, in, iq), r2 = horus_rx(q, o2, in, iq); free(in); t += nin; blocks++;
            if (r != r2 || memcmp(o, o2, sizeof o)) { mc_violation("reading-changes", "%s: reception differs after reading statistics", sigtxt(&g)); break; }
            go = sane(h, &g, &st, b + 1);
        }
        if (go) { struct MODEM_STATS a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); horus_get_modem_extended_stats(h, &a); horus_get_modem_extended_stats(q, &b);
            if (a.snr_est != b.snr_est || a.clock_offset != b.clock_offset || a.rx_timing != b.rx_timing || memcmp(a.f_est, b.f_est, g.M * sizeof(float))) mc_violation("reading-changes", "%s: statistics depend on how often they were read", sigtxt(&g)); }
        horus_close(h); horus_close(q);
    }
}
int main(int argc, char **argv) {
    mc_init(argc, argv); ref_init();
    const char *job = mc_arg(argc, argv, "--job", "tones");
    if (!strcmp(job, "tones")) job_tones(); else if (!strcmp(job, "noise")) job_noise(); else if (!strcmp(job, "clock")) job_clock(); else if (!strcmp(job, "any")) job_any(); else return 4;
    mc_stat("receiver_calls", blocks); mc_stat("readings", readings); mc_stat("evaluations", cases); mc_stat("distinct_nontrivial", cases);
    return mc_done();
}
