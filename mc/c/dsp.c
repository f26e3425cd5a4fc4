/* Signal-level exploration of the real modem: an ideal modulator written here (and the project's own one) feeds the real
   fsk_demod / horus_rx over enumerated timings, tone plans, formats, call interleavings and input alphabets. */
#define main rx_main
#include "rx.c"
#undef main
#include <math.h>
#include <setjmp.h>
#include <sys/wait.h>
static long demods = 0, cases = 0, bits_checked = 0, pk_checked = 0, pk_heard = 0;
struct sig { int M, Fs, Rs, P, f1, sp, amp, iq, mask; double ppm, off; int src, lo, hi, tail, dev; };
#define MAXX 6000000
static short X[2 * MAXX + 8]; static long XL;             /* samples (pairs when iq) */
/* ideal continuous phase FSK of the bits in S[0..SL): symbol k occupies [k/Rs, (k+1)/Rs); `off` samples of silence before */
static void modulate(const struct sig *g) {
    int bps = g->M == 2 ? 1 : 2; long ns = SL / bps, n = 0; double ph = 0.3;
    XL = 0;
    if (g->src) {                                           /* the project's own modulator, integer offset only */
        struct FSK *f = fsk_create_hbr(g->Fs, g->Rs, g->M, g->P, 50, g->f1, g->sp);
        for (; n < (long)g->off; n++, XL++) X[g->iq ? 2 * XL : XL] = 0, g->iq ? X[2 * XL + 1] = 0 : 0;
        uint8_t b[100]; COMP *oc = malloc(sizeof(COMP) * f->N); float *of = malloc(sizeof(float) * f->N);
        for (int p = 0; p < SL; p += f->Nbits) {
            for (int i = 0; i < f->Nbits; i++) b[i] = p + i < SL ? S[p + i] : 0;
            if (g->iq) fsk_mod_c(f, oc, b); else fsk_mod(f, of, b);
            for (int i = 0; i < f->N; i++, XL++) {
                if (g->iq) { X[2 * XL] = (short)lrint(oc[i].real * g->amp / 2); X[2 * XL + 1] = (short)lrint(oc[i].imag * g->amp / 2); }
                else X[XL] = (short)lrint(of[i] * g->amp / 2);
            }
        }
        free(oc); free(of); fsk_destroy(f);
    } else {
        double rate = g->Rs * (1 + g->ppm * 1e-6) / g->Fs;
        long total = (long)(g->off + ns / rate);
        for (n = 0; n < total; n++, XL++) {
            double u = (n - g->off) * rate; long k = (long)floor(u);
            double a = 0, b = 0;
            if (k >= 0 && k < ns) {
                int s = bps == 1 ? S[k] : 2 * S[2 * k] + S[2 * k + 1];
                ph += 2 * M_PI * (g->f1 + (double)g->sp * s + g->dev) / g->Fs; if (ph > 2 * M_PI) ph -= 2 * M_PI;
                a = g->amp * cos(ph); b = g->amp * sin(ph);
            }
            if (g->iq) { X[2 * XL] = (short)lrint(a); X[2 * XL + 1] = (short)lrint(b); } else X[XL] = (short)lrint(a);
        }
    }
    for (long i = 0; i < g->tail; i++, XL++) { X[g->iq ? 2 * XL : XL] = 0; if (g->iq) X[2 * XL + 1] = 0; }
}
static uint32_t prng; static int rbit(void) { prng = prng * 1664525u + 1013904223u; return prng >> 30 & 1; }
static void prbs(int n, int seed) { prng = 0x1234567u + seed * 7919u; SL = 0; for (int i = 0; i < n; i++) put(rbit()); }
static const char *sigtxt(const struct sig *g) {
    static char t[200]; snprintf(t, sizeof t, "M=%d Fs=%d Rs=%d P=%d f1=%d+%d spacing=%d amp=%d %s est=%s ppm=%g offset=%g src=%s", g->M, g->Fs, g->Rs, g->P, g->f1, g->dev, g->sp, g->amp,
             g->iq ? "IQ" : "real", g->mask ? "mask" : "peak", g->ppm, g->off, g->src ? "own" : "ideal");
    return t;
}
/* demodulate X, compare with S; after `acq` blocks every bit must be right */
static int worst_acq = 0;
static void bits_case(const struct sig *g, int nblk, int acq) {
    int bps = g->M == 2 ? 1 : 2;
    struct FSK *f = fsk_create_hbr(g->Fs, g->Rs, g->M, g->P, 50, 1000, g->sp);
    if (!f) { mc_violation("open", "cannot create the modem"); return; }
    fsk_set_freq_est_alg(f, g->mask);
    if (g->hi > g->lo) fsk_set_freq_est_limits(f, g->lo, g->hi);
    int N = f->N, Ts = f->Ts, nb = f->Nbits;
    prbs((nblk + 3) * nb, g->f1 + (int)g->off);
    modulate(g);
    static uint8_t R[20000]; int nr = 0; long pos = 0; cases++;
    for (int b = 0; b < nblk; b++) {
        int nin = fsk_nin(f);
        if (nin <= 0 || abs(nin - N) > Ts / 2 + 1) { mc_violation("nin", "asks for %d samples, nominal block %d", nin, N); break; }
        if (pos + nin > XL) break;
        COMP *in = malloc(sizeof(COMP) * nin);
        for (int i = 0; i < nin; i++) { in[i].real = g->iq ? X[2 * (pos + i)] : X[pos + i]; in[i].imag = g->iq ? X[2 * (pos + i) + 1] : 0; }
        fsk_demod(f, R + nr, in); free(in); nr += nb; pos += nin; demods++;
    }
    /* alignment: at most 2 blocks + offset late, in whole symbols */
    int best = 1 << 30, blag = 0, blast = 0, maxlag = (int)(g->off * g->Rs / g->Fs) + 8;
    for (int lag = -4; lag <= maxlag; lag++) {
        int e = 0, last = -1;
        for (int i = 0; i < nr; i++) { int j = i - lag * bps; if (j >= 0 && j < SL && i >= nb && R[i] != S[j]) { e++; last = i; } }
        if (e < best) { best = e; blag = lag; blast = last; }
    }
    int lastblk = blast < 0 ? 0 : blast / nb; if (lastblk > worst_acq) worst_acq = lastblk;
    bits_checked += nr - acq * nb;
    if (lastblk >= acq) mc_violation("bits", "%s: %d bit errors, last in block %d of %d (lag %d symbols)", sigtxt(g), best, lastblk, nr / nb, blag);
    fsk_destroy(f);
}
#define EACH(var, arr) for (int _i_##var = 0, var; _i_##var < (int)(sizeof arr / sizeof *arr) && (var = (arr)[_i_##var], 1); _i_##var++)
static int A(const char *k, int d) { extern int g_argc; extern char **g_argv; char s[8]; snprintf(s, 8, "%d", d); return atoi(mc_arg(g_argc, g_argv, k, s)); }
int g_argc; char **g_argv;
static void job_one(void) {
    struct sig g = {A("--M", 4), A("--Fs", 8000), A("--Rs", 1000), A("--P", 8), A("--f1", 1000), A("--sp", 1000), A("--amp", 8000), A("--iq", 0), A("--mask", 0), A("--ppm", 0), A("--off", 0), A("--src", 0), A("--lo", 0), A("--hi", 0)};
    int n = A("--noff", g.Fs / g.Rs);
    for (int o = 0; o < n; o++) { g.off = o; if (!mc_next("%s", sigtxt(&g))) continue; bits_case(&g, A("--nblk", 16), A("--acq", 3)); }
    printf("worst acquisition block %d\n", worst_acq);
}

static void job_bits(void) {                                /* fast modem: every timing offset in half sample steps x tone plans x formats */
    static const int PS[] = {4, 8, 16}, SPS[] = {1000, 1500, 1900}, PPM[] = {0, -300, 300, 1000, -1000}, AMP[] = {8000, 32767, 100};
    for (int M = 2; M <= 4; M += 2) for (int iq = 0; iq < 2; iq++) for (int mask = 0; mask < 2; mask++) EACH(P, PS) EACH(sp, SPS) {
        int lim = iq ? 7000 : 8000 - 1500, low = iq ? -7000 : 1500, span = lim - low - (M - 1) * sp;
        for (int fi = 0; fi < (mc_thorough ? 9 : 4); fi++) {
            int f1 = low + (int)((long)span * fi / (mc_thorough ? 8 : 3)); if (span < 0) continue;
            for (int o2 = 0; o2 < 32; o2++) for (int pi = 0; pi < 5; pi++) {
                if (!mc_thorough && pi >= 3) continue;
                if (!mc_thorough && pi && (o2 & 1)) continue;
                for (int a = 0; a < 3; a++) {
                    if (a != (mc_thorough ? (o2 + fi + pi) % 3 : (o2 + fi) % 3) && !(mc_thorough && pi == 0)) continue;
                    struct sig g = {M, 16000, 1000, P, f1, sp, AMP[a], iq, mask, PPM[pi], o2 / 2.0, 0, iq ? -8000 : 0, iq ? 8000 : 0};
                    g.dev = (o2 * 7 + fi * 3) % 11 - 5;
                    if (!mc_next("%s", sigtxt(&g))) continue;
                    bits_case(&g, pi ? (mc_thorough ? 40 : 22) : 9, 3);
                }
            }
            for (int o = 0; o < 16; o++) {                  /* the project's own modulator */
                struct sig g = {M, 16000, 1000, P, f1, sp, 16000, iq, mask, 0, o, 1, iq ? -8000 : 0, iq ? 8000 : 0};
                if (f1 <= 0) continue;
                if (!mc_next("%s", sigtxt(&g))) continue;
                bits_case(&g, 8, 3);
            }
        }
    }
}
static void job_limits(void) {                              /* tones anywhere inside tight estimator limits, including limits below 0 Hz for IQ */
    static const int MG[] = {600, 1000, 2500};
    for (int M = 2; M <= 4; M += 2) for (int iq = 0; iq < 2; iq++) for (int mask = 0; mask < 2; mask++) for (int f1 = iq ? -6000 : 1600; f1 < 6000; f1 += mc_thorough ? 50 : 200) EACH(ml, MG) EACH(mh, MG) {
        int sp = 1000 + (f1 & 512), top = f1 + (M - 1) * sp; if (top > 6400 + iq * 600) continue;
        struct sig g = {M, 16000, 1000, 8, f1, sp, 9000, iq, mask, 0, (f1 / 50 + ml) % 32 / 2.0, 0, f1 - ml, top + mh};
        if (!iq && g.lo < 0) g.lo = 0; if (g.lo < -8000) g.lo = -8000; if (g.hi > 8000) g.hi = 8000;
        if (!mc_next("limits %d..%d %s", g.lo, g.hi, sigtxt(&g))) continue;
        bits_case(&g, 7, 3);
    }
}
static void job_default(void) {                             /* the deployed configuration: every sample offset */
    for (int M = 2; M <= 4; M += 2) for (int iq = 0; iq < 2; iq++) for (int mask = 0; mask < 2; mask++) for (int o = 0; o < 480; o++) {
        if (!mc_thorough && (o % 4 != (iq * 2 + mask))) continue;
        struct sig g = {M, 48000, 100, 8, M == 2 ? 1100 + o % 37 : 900 + o % 41, M == 2 ? (o & 8 ? 425 : 170 + o % 3) : 270, o & 4 ? 20000 : 2000, iq, mask, o & 16 ? 0 : o & 32 ? 60 : -60, o, o % 3 == 0, 0, 0};
        if (g.src) g.ppm = 0;
        if (!mc_next("%s", sigtxt(&g))) continue;
        bits_case(&g, 6, 3);
    }
}
static void job_grid(void) {                                /* sample rates x symbol rates x oversampling */
    static const int FS[] = {8000, 9600, 12000, 16000, 24000, 44100, 48000, 96000}, RS[] = {50, 75, 100, 150, 200, 300, 500, 600, 700, 800, 1000, 1200, 1500, 2400, 3000, 4800};
    EACH(Fs, FS) EACH(Rs, RS) {
        if (Fs % Rs) continue; int Ts = Fs / Rs; if (Ts < 12) continue;
        for (int P = 4; P <= (mc_thorough ? 64 : 24) && P <= Ts; P++) if (Ts % P == 0) for (int M = 2; M <= 4; M += 2) for (int k = 0; k < (mc_thorough ? 8 : 2); k++) for (int mask = 0; mask < 2; mask++) {
            if (!mc_thorough && ((k + mask + P) & 1)) continue;
            int sp = Rs + Rs / 2 * (k % 3); int f1 = Rs * 3 / 2 + 40;
            if (f1 + (M - 1) * sp > Fs / 2 - Rs * 3 / 2) { sp = Rs; if (f1 + (M - 1) * sp > Fs / 2 - Rs * 3 / 2) continue; }
            struct sig g = {M, Fs, Rs, P, f1, sp, 9000, 0, mask, k & 1 ? 200 : 0, (double)Ts * (2 * k + mask + P % 7 / 7.0) / (mc_thorough ? 17 : 5), 0, 0, 0};
            if (!mc_next("%s", sigtxt(&g))) continue;
            bits_case(&g, 7, 3);
        }
    }
}
/* ------------------------------------------------------------------ packets end to end through horus_rx */
static void feed(struct horus *h, int iq, int want) {        /* like run_stream, from X instead of bits */
    ngot = 0; long pos = 0; int maxin = horus_get_max_demod_in(h);
    for (;;) {
        int nin = horus_nin(h);
        if (nin <= 0 || nin > maxin) { mc_violation("nin", "asks for %d samples (advertised maximum %d)", nin, maxin); return; }
        if (pos + nin > XL) break;
        short *in = malloc(sizeof(short) * nin * (iq ? 2 : 1));
        memcpy(in, X + (iq ? 2 * pos : pos), sizeof(short) * nin * (iq ? 2 : 1));
        memset(outbuf, 0, outlen);
        int r = horus_rx(h, outbuf, in, iq); free(in); pos += nin; blocks++;
        if (r) {
            struct pkt *g = &got[ngot]; if (ngot < 255) ngot++;
            int l = 0; while (l < outlen && outbuf[l]) l++;
            if (l > 299) l = 299;
            memcpy(g->txt, outbuf, l); g->txt[l] = 0; g->n = horus_get_total_payload_bits(h); g->ver = horus_packet_version(h); pk_heard++;
        }
    }
}
static void pkt_case(int m, struct sig *g, int sp, int flushblk) {
    struct horus *h = horus_open_advanced_sample_rate(MODES[m].mode, g->Rs, sp, g->Fs, g->P); M = m; cases++;
    if (g->hi > g->lo) horus_set_freq_est_limits(h, g->lo, g->hi);
    outlen = horus_get_max_ascii_out_len(h); outbuf = malloc(outlen);
    g->M = m ? 2 : 4; g->tail = (long)(g->Fs / g->Rs) * 50 * flushblk;
    modulate(g); feed(h, g->iq, 0); check_delivery(); pk_checked += nexp;
    free(outbuf); horus_close(h);
}
static void job_packets(void) {
    for (int iq = 0; iq < 2; iq++) for (int mask = 0; mask < 2; mask++) for (int o = 0; o < 32; o++) {
        for (int t = 0; t < 7; t++) for (int k = 0; k < (mc_thorough ? 5 : 2); k++) {
            struct sig g = {4, 16000, 1000, 8, iq && (o & 1) ? -3500 : 1600, 1200, 9000, iq, mask, 0, o / 2.0 + 16 * (t + k), 0, 0, 0};
            if (iq) g.lo = -8000, g.hi = 8000;
            if (!mc_next("packet type=%d payload=%d %s", t, k, sigtxt(&g))) continue;
            M = 0; reset_stream(); put_fill(300 + 2 * (o + t), 3); put_packet(t, k == 0 ? 4 : k == 1 ? 0 : k); put_packet((t + o) % 7, 5); if (SL & 1) put(0);
            pkt_case(0, &g, mask ? 1200 : -1, 45);
        }
        for (int m = 1; m < 4; m++) for (int k = 0; k < (mc_thorough ? 6 : 2); k++) {
            struct sig g = {2, 16000, 1000, 8, 1700, 1500, 9000, iq, mask, 0, o / 2.0, 0, 0, 0};
            if (!mc_next("sentence mode=%s %d %s", MODES[m].name, k, sigtxt(&g))) continue;
            M = m; reset_stream(); put_fill(30 + o, 1); put_text("RYRYRYUUUUUU RYRYRYUUUUUU"); put_fill(1 + k, 1);
            put_sentence(2 + k % 3, k & 1 ? "HORUS,12,12:34:56,-34.12345,138.5,25000" : "A,1", k & 2, "\n"); put_fill(k * 7, 1); put_sentence(2, "HORUS,13,12:34:57,-34.1,138.54321,25001,5.2", 0, "\n"); put_fill(40, 1);
            pkt_case(m, &g, mask ? 1500 : -1, 30);
        }
    }
    for (int m = 0; m < 4; m++) for (int iq = 0; iq < 2; iq++) for (int o = 0; o < 480; o += mc_thorough ? 8 : 120) for (int t = 0; t < (m ? 1 : 7); t++) {   /* deployed settings */
        struct sig g = {4, 48000, 100, 8, 1000, m ? 425 : 270, 9000, iq, 0, 0, o, 1, 0, 0};
        if (!mc_next("default settings mode=%s type=%d %s", MODES[m].name, t, sigtxt(&g))) continue;
        M = m; reset_stream();
        if (m) { put_fill(20 + o / 16, 1); put_text("RYRYRYUUUUUU RYRYRYUUUUUU"); put_sentence(3, "HORUS,12,12:34:56,-34.12345,138.5,25000", 0, "\n"); put_fill(20, 1); }
        else { put_fill(400, 3); put_packet(t, 4); put_fill(20, 3); }
        while (SL % 4) put(m ? 1 : 0);
        pkt_case(m, &g, o & 8 ? g.sp : -1, m ? 30 : 5);
    }
}

/* ------------------------------------------------------------------ C09: requested sample count */
static void fill_block(short *in, int n, int ch, int sym, long t0) {
    for (int i = 0; i < n; i++) for (int c = 0; c < ch; c++) {
        long t = t0 + i; int v = 0;
        switch (sym) {
        case 0: v = 0; break;
        case 1: v = 32767; break;
        case 2: v = t & 1 ? -32768 : 32767; break;
        case 3: v = (int)(20000 * cos(0.61 * t + c * M_PI / 2)); break;
        case 4: v = i == n - 1 ? 32767 : 0; break;
        case 5: v = i >= n / 2 ? -32768 : 1; break;
        case 6: v = (int)(rbit() * 0x7fff) ^ (int)(prng >> 15 & 0xffff); break;
        case 7: v = (t / 16) & 1 ? 32767 : -32768; break;
        }
        in[i * ch + c] = (short)v;
    }
}
static jmp_buf caught; static int catching;                  /* a refusal may be an assertion, an abort, an exit or NULL */
void __real___assert_fail(const char *, const char *, unsigned, const char *); void __real_abort(void); void __real_exit(int);
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *fn) { if (catching) longjmp(caught, 1); __real___assert_fail(a, f, l, fn); }
void __wrap_abort(void) { if (catching) longjmp(caught, 1); __real_abort(); }
void __wrap_exit(int c) { if (catching) longjmp(caught, 1); __real_exit(c); }
static long nin_changes = 0, refused = 0, accepted = 0;
/* one step: ask, hand over an exact-size block, receive */
static int nin_step(struct horus *h, int nominal, int Ts, int iq, int sym, long *t) {
    int nin = (int)horus_nin(h), mx = horus_get_max_demod_in(h);
    if (nin <= 0 || nin > mx || abs(nin - nominal) * 2 > Ts) { mc_violation("nin", "asks for %d samples (nominal %d, symbol %d, advertised maximum %d)", nin, nominal, Ts, mx); return 0; }
    if (nin != nominal) nin_changes++;
    short *in = malloc(sizeof(short) * nin * (iq + 1)); fill_block(in, nin, iq + 1, sym, *t);
    char *o = malloc(horus_get_max_ascii_out_len(h)); horus_rx(h, o, in, iq); free(o); free(in); *t += nin; blocks++;
    if ((int)horus_nin(h) != (int)horus_nin(h)) mc_violation("nin", "two reads of the request differ");
    return 1;
}
static void job_nin(void) {                                  /* all input block sequences over the alphabet */
    for (int m = 0; m < 4; m++) for (int iq = 0; iq < 2; iq++) for (int P = 4; P <= 16; P *= 2) for (int mask = 0; mask < 2; mask++) for (int w = 0; w < (mc_thorough ? 4096 : 512); w++) {
        if (!mc_thorough && (P == 16 || (iq && mask))) continue;
        if (!mc_next("%s iq=%d P=%d mask=%d blocks=%o", MODES[m].name, iq, P, mask, w)) continue;
        struct horus *h = horus_open_advanced_sample_rate(MODES[m].mode, 1000, mask ? 1000 : -1, 16000, P); cases++;
        if (!h) { mc_violation("open", "cannot open"); continue; }
        int nominal = horus_nin(h); long t = 0; prng = w;
        for (int k = 0; k < (mc_thorough ? 4 : 3); k++) if (!nin_step(h, nominal, 16, iq, w >> (3 * k) & 7, &t)) break;
        for (int k = 0; k < 2; k++) if (!nin_step(h, nominal, 16, iq, w & 7, &t)) break;
        horus_close(h);
    }
}
static int supported(int Fs, int Rs, int P, int sp, int M) {
    if (Fs <= 0 || Rs <= 0 || P < 3 || sp <= 0) return 0;    /* timing needs three points per symbol */
    if (Fs % Rs || (Fs / Rs) % P) return 0;
    return 1;
}
static void job_combos(void) {                               /* every configuration of the grid: refused, or opened and well behaved */
    static const int FS[] = {-8000, 0, 1, 7, 1000, 8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000}, RS[] = {-2, -1, 0, 1, 5, 25, 45, 50, 75, 100, 110, 147, 150, 300, 600, 1000, 1200, 4800, 9600, 48000, 48001},
        PS[] = {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 20, 24, 30, 32, 40, 48, 60, 64, 96, 120, 160, 240, 480, 960}, SP[] = {-1, 0, -5, 1, 100, 270, 5000, 20000, 100000};
    for (int m = 0; m < 4; m++) EACH(Fs, FS) EACH(Rs, RS) EACH(P, PS) EACH(sp, SP) {
        int rs = Rs == -1 ? 100 : Rs, Ts = rs > 0 && Fs > 0 ? Fs / rs : 1;
        if (m > 1 && (P % 3 || sp > 100)) continue;
        if (!mc_thorough && (m == 2 || (sp != -1 && (P != 8 && P != 5 && P != 4)))) continue;
        int sup = supported(Fs, rs, P, sp == -1 ? 1 : sp, m ? 2 : 4);
        int cost = sup ? Ts : 1;
        if (sup && (long)P * Ts > (mc_thorough ? 60000 : 4000) && !(P == 8 && Ts <= (mc_thorough ? 7680 : 2000))) continue;
        if (sup && Ts > 7680) continue;                       /* the transform lives on the stack (documented limit in fsk.c) */
        if (!mc_next("open mode=%s Fs=%d Rs=%d P=%d spacing=%d", MODES[m].name, Fs, Rs, P, sp)) continue;
        cases++; fflush(stdout);
        struct horus *volatile h = 0; volatile int opened = 0, ref = 0;
        catching = 1; if (!setjmp(caught)) { h = horus_open_advanced_sample_rate(MODES[m].mode, Rs, sp, Fs, P); if (h) opened = 1; else ref = 1; } else ref = 1; catching = 0;
        if (!sup && opened) { mc_violation("misconfigured", "an unsupported combination was accepted"); continue; }
        int eff = sp > 0 ? sp : m ? 2 * rs : 270, wide = (long)(m ? 1 : 3) * eff * 2 >= Fs;            /* tone plan not inside the band: may be refused */
        if (sup && ref && !wide && Ts >= 2) { mc_violation("refused", "a supported combination was refused"); continue; }
        if (ref) { refused++; continue; }
        accepted++;
        int nominal = horus_nin(h); long t = 0; prng = 99;
        if (nominal % Ts) mc_violation("nominal", "nominal block of %d samples is not a whole number of symbols (%d)", nominal, Ts);
        for (int k = 0; k < (Ts <= 480 ? 10 : 3); k++) if (!nin_step(h, nominal, Ts, k & 1 && Fs < 20000, (k * 5 + 6) & 7, &t)) break;
        horus_close(h);
    }
}
static void job_consume(void) {                              /* each requested sample influences the outputs: none skipped */
    for (int M = 2; M <= 4; M += 2) for (int P = 4; P <= 16; P *= 2) for (int iq = 0; iq < 2; iq++) for (int shape = 0; shape < 3; shape++) for (int i = 0; i < 16 * 51; i++) {
        if (!mc_thorough && P == 16) continue;
        if (!mc_next("sample %d of the block changed, M=%d P=%d IQ=%d timing=%d", i, M, P, iq, shape)) continue;
        float sd[2][600]; int n[2] = {0, 0}, skip = 0; cases++;
        struct sig g = {M, 16000, 1000, P, iq ? -2500 : 1500, 1500, 6000, iq, 0, 0, shape == 0 ? 0 : shape == 1 ? 6 : 10, 0, 0, 0};
        prbs(100 * 10, 5); modulate(&g);
        for (int v = 0; v < 2; v++) {
            struct FSK *f = fsk_create_hbr(16000, 1000, M, P, 50, 1000, 1500); fsk_set_freq_est_limits(f, iq ? -8000 : 0, 8000);
            long pos = 0;
            for (int b = 0; b < 5; b++) {
                int nin = fsk_nin(f); COMP *in = malloc(sizeof(COMP) * nin);
                for (int k = 0; k < nin; k++) { in[k].real = iq ? X[2 * (pos + k)] : X[pos + k]; in[k].imag = iq ? X[2 * (pos + k) + 1] : 0; }
                if (b == 2) { if (i >= nin) skip = 1; else if (v) { if (iq && shape == 1) in[i].imag += 9000; else in[i].real += 9000; } }
                float o[100]; fsk_demod_sd(f, o, in); free(in); pos += nin; demods++;
                if (b >= 2) { memcpy(sd[v] + n[v], o, sizeof(float) * f->Nbits); n[v] += f->Nbits; }
            }
            fsk_destroy(f);
        }
        if (!skip && !memcmp(sd[0], sd[1], sizeof(float) * n[0])) mc_violation("skipped", "changing sample %d of a block by 9000 changes no later output", i);
    }
}
/* ------------------------------------------------------------------ C08: independence of instances */
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t);
static int trk, patt = -1; static long live, outlive;
size_t malloc_usable_size(void *);
void *__wrap_malloc(size_t n) {
    void *p = __real_malloc(n); if (p && patt >= 0) memset(p, patt, n);
    if (trk && p) live++;
    return p;
}
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (trk && p) live++; return p; }
void __wrap_free(void *p) {
#if !defined(__SANITIZE_ADDRESS__) && !defined(MC_SAN)
    if (p && patt >= 0) memset(p, patt ^ 0x33, malloc_usable_size(p));
#endif
    if (trk && p) live--;
    __real_free(p);
}
static __attribute__((noinline)) void dirty_stack(void) { if (patt < 0) return; volatile char b[300000]; memset((void *)b, patt, sizeof b); __asm__ volatile("" ::"r"(b) : "memory"); }
#define API(x) do { dirty_stack(); trk = 1; x; trk = 0; } while (0)
struct actor { int m, Rs, Fs, P, sp, iq; short *x; long xl, pos; struct horus *h; uint64_t log; int nlog; int grp; };
static struct actor AC[12]; static int nact; static uint64_t SOLO[12][16];
static void act_make_rs(int k, int m, int P, int sp, int iq, int t, int Rs) {
    struct actor *a = &AC[k]; struct sig g = {m ? 2 : 4, 16000, Rs, P, Rs > 1000 ? 1000 : 1600, m ? 1500 : Rs > 1000 ? Rs : 1200, 9000, iq, 0, 0, 3.5 * k, 0, 0, 0};
    M = m; reset_stream();
    if (m) { put_fill(10, 1); put_text("RYRYUU"); put_sentence(2, k & 1 ? "ONE,1,2" : "TWO,2,3.5", 0, "\n"); put_fill(30, 1); }
    else { put_fill(110, 3); put_packet(t, 4 + k); put_fill(20, 3); }
    if (SL & 1) put(0);
    g.tail = 800000L / Rs * (m ? 26 : 6); modulate(&g);
    a->m = m; a->Rs = Rs; a->Fs = 16000; a->P = P; a->sp = sp; a->iq = iq; a->xl = XL; a->grp = 0;
    a->x = __real_malloc(sizeof(short) * (XL * 2 + 8)); memcpy(a->x, X, sizeof(short) * XL * (iq ? 2 : 1));
    a->grp = (int)(XL / (800000 / Rs)) / 4;
}
static void act_make(int k, int m, int P, int sp, int iq, int t) { act_make_rs(k, m, P, sp, iq, t, 1000); }
static void lg(struct actor *a, const void *p, size_t n) { a->log = mc_fnv(a->log, p, n); }
static void act_log(struct actor *a) {
    struct horus *h = a->h; int v; static struct MODEM_STATS st; float snr; int sync;
    v = horus_nin(h); lg(a, &v, 4); v = horus_crc_ok(h); lg(a, &v, 4); v = horus_packet_version(h); lg(a, &v, 4); v = horus_get_total_payload_bits(h); lg(a, &v, 4);
    memset(&st, 0, sizeof st); API(horus_get_modem_extended_stats(h, &st));
    lg(a, &st.snr_est, 4); lg(a, &st.clock_offset, 4); lg(a, &st.rx_timing, 4); lg(a, &st.foff, 4); lg(a, st.f_est, 4 * (a->m ? 2 : 4)); lg(a, &st.neyetr, 4); lg(a, &st.neyesamp, 4);
    for (int i = 0; i < st.neyetr && i < MODEM_STATS_ET_MAX; i++) lg(a, st.rx_eye[i], 4 * st.neyesamp);
    API(horus_get_modem_stats(h, &sync, &snr)); lg(a, &snr, 4); lg(a, &sync, 4);
}
static void act_open(struct actor *a) { a->log = MC_FNV0; a->nlog = 0; a->pos = 0; API(a->h = horus_open_advanced_sample_rate(MODES[a->m].mode, a->Rs, a->sp, a->Fs, a->P)); act_log(a); }
static void act_rx(struct actor *a, int n) {
    int ol = horus_get_max_ascii_out_len(a->h); char o[600];
    for (int i = 0; i < n; i++) {
        int nin = horus_nin(a->h); if (a->pos + nin > a->xl) return;
        memset(o, 0, sizeof o); int r; API(r = horus_rx(a->h, o, a->x + a->pos * (a->iq ? 2 : 1), a->iq)); a->pos += nin; blocks++;
        lg(a, &r, 4); if (r) { lg(a, o, strlen(o)); pk_heard++; } act_log(a);
    }
}
static void act_close(struct actor *a) { API(horus_close(a->h)); a->h = 0; }
static void act_step(struct actor *a, int k) { if (k == 0) act_open(a); else if (k == 5) act_close(a); else act_rx(a, a->grp); }   /* 6 steps: open, 4 receives, close */
static void noise_actor(int k) {                              /* other use of the library in the same process */
    uint8_t pay[128], tx[260]; for (int i = 0; i < 128; i++) pay[i] = i * 37 + k;
    static const int SZ[] = {22, 32, 48, 64, 96, 128}; API(horus_l2_encode_tx_packet(tx, pay, SZ[k % 6]));
    struct FSK *f; int rs = k % 3 ? 1000 : 250; API(f = fsk_create_hbr(8000, rs, k & 1 ? 2 : 4, 8, 50, 1000, 1000)); uint8_t b[100] = {1, 0, 1}; float o[1700]; API(fsk_mod(f, o, b)); API(fsk_destroy(f));
    struct horus *h; API(h = horus_open_advanced_sample_rate(MODES[k % 4].mode, k % 5 ? 1000 : 200, k & 1 ? 1000 : -1, 8000, 4)); short z[2600]; fill_block(z, horus_nin(h), 1, 6, k); char t[300]; API(horus_rx(h, t, z, 0)); API(horus_close(h));
}
static void actors(void) {
    act_make(0, 0, 8, -1, 0, 0); act_make(1, 0, 4, 1200, 1, 1); act_make(2, 1, 8, -1, 0, 0); act_make(3, 2, 8, 1500, 0, 0); act_make(4, 3, 4, -1, 1, 0); act_make(5, 0, 8, -1, 0, 3);
    act_make_rs(6, 0, 8, -1, 0, 0, 500); act_make_rs(7, 0, 4, -1, 1, 0, 2000);     /* larger and smaller spectra */
    nact = 8; patt = -1;
    long h0 = pk_heard;
    for (int k = 0; k < nact; k++) {                                /* each alone in a process of its own, in which no other receiver was ever opened */
        int fd[2]; if (pipe(fd)) exit(9);
        pid_t pid = fork(); if (pid < 0) exit(9);
        if (!pid) { mc_arm(); uint64_t r[7]; for (int s = 0; s < 6; s++) { act_step(&AC[k], s); r[s] = AC[k].log; } r[6] = pk_heard - h0; if (write(fd[1], r, sizeof r) != sizeof r) _exit(9); _exit(0); }
        uint64_t r[7] = {0}; close(fd[1]); ssize_t got = read(fd[0], r, sizeof r); close(fd[0]); int st; waitpid(pid, &st, 0);
        if (got != sizeof r || st) { mc_violation("solo", "instance %d ends the process (status %x)", k, st); continue; }
        memcpy(SOLO[k], r, 6 * sizeof *r); pk_heard += r[6];
        if (!r[6]) mc_violation("solo", "instance %d hears nothing alone", k);
    }
    live = 0;
}
static int same(int k, int s, const char *what) { if (AC[k].log != SOLO[k][s]) { mc_violation("depends", "outputs of a %s receiver after step %d differ from those it gives alone (%s)", MODES[AC[k].m].name, s, what); return 0; } return 1; }
static void job_inter(void) {
    static const int PAT[] = {0x00, 0xFF, 0x5A, 0x01, 0x7F};
    actors();
    for (int a = 0; a < nact; a++) for (int b = 0; b < nact; b++) for (int w = 0; w < 4096; w++) {
        if (__builtin_popcount(w) != 6) continue;
        for (int p = 0; p < 5; p++) {
            if (!mc_thorough && p != (w + a + b) % 5) continue;
            if (!mc_next("interleaving %03x of instances %d,%d memory filled %02x", w, a, b, PAT[p])) continue;
            if (!mc_thorough && b < a) continue;
            patt = PAT[p]; cases++; live = 0;
            struct actor save = AC[b]; int kb = b; if (a == b) { AC[8] = AC[b]; kb = 8; memcpy(SOLO[8], SOLO[b], sizeof SOLO[8]); }
            int sa = 0, sb = 0, ok = 1;
            for (int i = 0; i < 12 && ok; i++) {
                if (w >> i & 1) { act_step(&AC[a], sa); ok = same(a, sa, "interleaved"); sa++; } else { act_step(&AC[kb], sb); ok = same(kb, sb, "interleaved"); sb++; }
                if (w % 7 == 0 && i % 4 == 1) noise_actor(w + i);
            }
            patt = -1;
            if (ok && live) mc_violation("leak", "%ld blocks of memory still allocated after closing everything", live);
        }
    }
}
static void job_history(void) {                               /* every open/use/close history up to the depth, then one receiver must behave as if alone */
    static const int PAT[] = {0xFF, 0x00, 0x5A};
    actors();
    int depth = mc_thorough ? 5 : 4, nop = 9; long tot = 1; for (int i = 0; i < depth; i++) tot *= nop;
    for (long c = 0; c < tot; c++) {
        int ops[8], openn = 0, valid = 1; long x = c;
        for (int i = 0; i < depth; i++) { ops[i] = x % nop; x /= nop; if (ops[i] < 4) openn++; else if (ops[i] < 8) { if (!openn) valid = 0; if (ops[i] >= 6) openn--; } if (openn < 0) valid = 0; }
        if (!valid) continue;
        if (!mc_next("history %ld", c)) continue;
        patt = PAT[c % 3]; cases++; live = 0;
        struct horus *o[8]; int n = 0; static short z[8000]; prng = c; static const int RS[] = {1000, 500, 2000, 250};
        for (int i = 0; i < depth; i++) {
            int k = ops[i];
            if (k < 4) { int rs = RS[(k + i + c / 7) % 4]; API(o[n] = horus_open_advanced_sample_rate(MODES[k].mode, rs, i & 1 ? rs : -1, 8000, 4)); n++; }
            else if (k < 6) { int w = k == 4 ? 0 : n - 1; char t[300]; for (int j = 0; j < 3; j++) { fill_block(z, (int)horus_nin(o[w]), 1, (i + j) & 7, j); API(horus_rx(o[w], t, z, 0)); } }
            else if (k < 8) { int w = k == 6 ? 0 : n - 1; API(horus_close(o[w])); for (int j = w; j < n - 1; j++) o[j] = o[j + 1]; n--; }
            else noise_actor(i + (int)c);
        }
        int k = c % nact, ok = 1; for (int s = 0; s < 6 && ok; s++) { act_step(&AC[k], s); ok = same(k, s, "after the history"); }
        while (n) { n--; API(horus_close(o[n])); }
        patt = -1;
        if (ok && live) mc_violation("leak", "%ld blocks of memory still allocated after closing everything", live);
    }
}
#ifndef DSP_NO_MAIN
int main(int argc, char **argv) {
    g_argc = argc; g_argv = argv;
    mc_init(argc, argv); ref_init();
    const char *job = mc_arg(argc, argv, "--job", "one");
    if (!strcmp(job, "one")) job_one();
    else if (!strcmp(job, "bits")) job_bits();
    else if (!strcmp(job, "limits")) job_limits();
    else if (!strcmp(job, "default")) job_default();
    else if (!strcmp(job, "grid")) job_grid();
    else if (!strcmp(job, "packets")) job_packets();
    else if (!strcmp(job, "nin")) job_nin();
    else if (!strcmp(job, "combos")) job_combos();
    else if (!strcmp(job, "consume")) job_consume();
    else if (!strcmp(job, "inter")) job_inter();
    else if (!strcmp(job, "history")) job_history();
    else return 4;
    mc_stat("receiver_calls", blocks); mc_stat("requests_off_nominal", nin_changes); mc_stat("configurations_refused", refused); mc_stat("configurations_accepted", accepted); mc_stat("packets_heard", pk_heard);
    mc_stat("packets_sent", pk_checked);
    mc_stat("evaluations", cases); mc_stat("distinct_nontrivial", cases); mc_stat("demodulator_calls", demods); mc_stat("bits_compared", bits_checked);
    return mc_done();
}
#endif
