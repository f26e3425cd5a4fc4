/* Bit-level exploration of the receiver: fsk_demod_core is replaced (linker --wrap) by a source of chosen bits, so the
   real horus_rx / unique word tracking / extraction run on every stream of the enumeration.  Oracle: ref.h + the
   reference receiver below, both written from the format description. */
#include "mc.h"
#include "ref.h"
#include "horus_api.h"
#include "horus_l2.h"
#include "fsk.h"
int horus_packet_version(struct horus *hstates);
#define MAXB 40000
#define PADB 2600
static uint8_t S[MAXB + PADB]; static int SL, SP;
static long blocks = 0, streams = 0, ambiguous = 0, delivered = 0;
static struct FSK *inj_fsk; static int inj_on = 0, inj_nbits;
void __real_fsk_demod_core(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[], COMP fsk_in[]);
void __wrap_fsk_demod_core(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[], COMP fsk_in[]) {
    for (int i = 0; i < fsk->Nbits; i++) {
        rx_bits[i] = SP < SL ? S[SP] : 0; SP++;
        if (rx_sd) rx_sd[i] = rx_bits[i] ? -1.0f : 1.0f;
    }
}
/* ------------------------------------------------------------------ modes */
static const struct { const char *name; int mode, data, stop, nbits, ndata; } MODES[] = {
    {"binary", HORUS_MODE_BINARY_V1, 8, 0, 100, 0}, {"7N1", HORUS_MODE_RTTY_7N1, 7, 1, 50, 0},
    {"7N2", HORUS_MODE_RTTY_7N2, 7, 2, 50, 0}, {"8N2", HORUS_MODE_RTTY_8N2, 8, 2, 50, 0}};
static int M;                                              /* current index into MODES */
static struct horus *rx_open(int m) { M = m; return horus_open_advanced_sample_rate(MODES[m].mode, 1000, -1, 8000, 8); }
/* ------------------------------------------------------------------ reference receiver */
static uint16_t leader_of[2048]; static uint32_t leader[2048];
static void ref_init(void) {
    memset(leader, 0, sizeof leader);
    static char seen[2048];
    for (int a = -1; a < 23; a++) for (int b = a < 0 ? -1 : a; b < 23; b++) for (int c = b < 0 ? -1 : b; c < 23; c++) {
        uint32_t e = 0; if (a >= 0) e |= 1u << a; if (b >= 0) e |= 1u << b; if (c >= 0) e |= 1u << c;
        unsigned s = ref_golay_parity(e >> 11) ^ (e & 2047);
        if (!seen[s]) { seen[s] = 1; leader[s] = e; }
        else if (leader[s] != e) { fprintf(stderr, "reference code table clash\n"); exit(3); }
    }
    for (int s = 0; s < 2048; s++) if (!seen[s]) { fprintf(stderr, "reference code not perfect\n"); exit(3); }
}
static void ref_decode_bits(uint8_t *pay, const uint8_t *bits, int n) {     /* bits: whole frame, one bit per byte, MSB first */
    int len = ref_coded_len(n), body = len - 2, nb = body * 8;
    static uint8_t b[512], raw[512];
    for (int i = 0; i < body; i++) { int v = 0; for (int j = 0; j < 8; j++) v = v << 1 | bits[16 + 8 * i + j]; b[i] = v; }
    ref_scramble(b, body);
    memset(raw, 0, sizeof raw);
    int prime = ref_prime(nb); long j = 0;
    for (int i = 0; i < nb; i++) { raw[i / 8] |= ref_getbit_lsb(b, j) << (i % 8); j += prime; j %= nb; }
    memset(pay, 0, n);
    int p = 8 * n;
    for (int k = 0; k < ref_ncw(n); k++) {
        unsigned d = 0, par = 0; int cnt = 0;
        for (int i = 0; i < 12; i++) { int bit = 12 * k + i; if (bit < 8 * n) { d = d << 1 | (raw[bit / 8] >> (7 - bit % 8) & 1); cnt++; } }
        if (cnt < 12) d <<= 1;
        for (int i = 0; i < 11; i++, p++) par = par << 1 | (raw[p / 8] >> (7 - p % 8) & 1);
        unsigned w = d << 11 | par; w ^= leader[ref_golay_parity(d) ^ par];
        d = w >> 11; if (cnt < 12) d >>= 1;
        for (int i = 0; i < cnt; i++) { int bit = 12 * k + i; if (d >> (cnt - 1 - i) & 1) pay[bit / 8] |= 0x80 >> (bit % 8); }
    }
}
static int crc_tail(const uint8_t *p, int n) { uint16_t c = ref_crc16(p, n - 2); return p[n - 2] == (c & 255) && p[n - 1] == c >> 8; }
static int crc_head(const uint8_t *p, int n) { uint16_t c = ref_crc16(p + 2, n - 2); return p[0] == (c & 255) && p[1] == c >> 8; }
static int version_of(const uint8_t *p, int n) {            /* 0: not a valid packet of that size */
    if (n == 22) return crc_tail(p, n) ? 1 : 0;
    if (n == 32 && crc_tail(p, n)) return 2;
    return crc_head(p, n) ? 3 : 0;
}
static const int SIZES[] = {22, 32, 48, 64, 96, 128};
struct pkt { int pos, n, ver; char txt[300]; };             /* a delivered / expected / possible packet */
static struct pkt exp_[64], got[256], cand[256]; static int nexp, ngot, ncand;
static void hex_of(char *t, const uint8_t *p, int n) { static const char *H = "0123456789ABCDEF"; for (int i = 0; i < n; i++) { *t++ = H[p[i] >> 4]; *t++ = H[p[i] & 15]; } *t = 0; }
static int uwdist(int pos, const uint8_t *uw, int n) { int d = 0; for (int i = 0; i < n; i++) d += S[pos + i] != uw[i]; return d; }
static void char_bits(uint8_t *o, int *n, int c) { for (int j = 0; j < MODES[M].data; j++) o[(*n)++] = c >> j & 1; for (int j = 0; j < MODES[M].stop; j++) o[(*n)++] = 1; o[(*n)++] = 0; }
static int hexval(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
/* every packet the format allows a receiver to see in S (unique word within one bit, CRC matching) */
static void ref_scan(void) {
    ncand = 0;
    memset(S + SL, 0, PADB); int SX = SL + PADB - 200;           /* the receiver is flushed with zeros */
    if (M == 0) {
        static const uint8_t uw[16] = {0,0,1,0,0,1,0,0,0,0,1,0,0,1,0,0};
        for (int p = 0; p + 16 <= SX && p < SL; p++) if (uwdist(p, uw, 16) <= 1)
            for (int k = 0; k < 6; k++) {
                uint8_t pay[128];
                if (p + 8 * ref_coded_len(SIZES[k]) > SX) break;
                ref_decode_bits(pay, S + p, SIZES[k]);
                int v = version_of(pay, SIZES[k]);
                if (v && ncand < 256) { struct pkt *c = &cand[ncand++]; c->pos = p; c->n = SIZES[k]; c->ver = v; hex_of(c->txt, pay, SIZES[k]); }
            }
    } else {
        uint8_t uw[24]; int n = 0, st = MODES[M].data + MODES[M].stop + 1; char_bits(uw, &n, '$'); char_bits(uw, &n, '$');
        for (int p = 0; p + n <= SX && p < SL; p++) if (uwdist(p, uw, n) <= 1) {
            char t[128]; int k = 0, star = -1;
            for (k = 0; k < 120 && p + k * st + MODES[M].data <= SX; k++) {
                int c = 0; for (int j = 0; j < MODES[M].data; j++) c |= S[p + k * st + j] << j;
                t[k] = c; if (star < 0 && c == '*') star = k;
                if (star >= 0 && k == star + 4) { k++; break; }
            }
            if (star < 0 || star + 4 >= k) continue;
            int v = 0, ok = 1; for (int i = 1; i <= 4; i++) { int h = hexval(t[star + i]); if (h < 0) ok = 0; v = v << 4 | h; }
            if (!ok) continue;
            int d = 0; while (d < star && d < 8 && t[d] == '$') d++;
            int strip; ok = 0;                              /* CRC covers what follows the leading '$'s */
            if (ref_crc16((uint8_t *)t + d, star - d) == v) ok = 1;
            if (!ok || ncand >= 256) continue;
            struct pkt *c = &cand[ncand++]; c->pos = p; c->n = star; c->ver = 0; memcpy(c->txt, t, star + 5); c->txt[star + 5] = 0;
        }
    }
}
/* ------------------------------------------------------------------ stream building */
static void put(int b) { if (SL < MAXB) S[SL++] = b; }
static void put_fill(int n, int kind) {                     /* idle between packets */
    for (int i = 0; i < n; i++) put(kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? (i & 1) : kind == 3 ? (0x1B >> (7 - i % 8) & 1) : (0x1B >> (6 - 2 * (i / 2 % 4)) >> (1 - i % 2) & 1));
}
static void put_bytes(const uint8_t *p, int n) { for (int i = 0; i < 8 * n; i++) put(p[i / 8] >> (7 - i % 8) & 1); }
static const int TSIZE[7] = {22, 32, 32, 48, 64, 96, 128}, TVER[7] = {1, 2, 3, 3, 3, 3, 3};
static void mkpay(uint8_t *p, int t, int kind) {
    int n = TSIZE[t];
    uint32_t x = 0x9E3779B9u * (t + 1) + 77777u * kind + 12345u;
    for (int i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; p[i] = kind == 0 ? 0 : kind == 1 ? 255 : kind == 2 ? 0x24 : kind == 3 ? i * 3 + t : x >> 24; }
    if (TVER[t] == 3) { uint16_t c = ref_crc16(p + 2, n - 2); p[0] = c; p[1] = c >> 8; if (n == 32 && crc_tail(p, n)) { p[5] ^= 1; c = ref_crc16(p + 2, n - 2); p[0] = c; p[1] = c >> 8; } }
    else { uint16_t c = ref_crc16(p, n - 2); p[n - 2] = c; p[n - 1] = c >> 8; }
}
static void expect_payload(const uint8_t *p, int t, int pos) { struct pkt *e = &exp_[nexp++]; e->pos = pos; e->n = TSIZE[t]; e->ver = TVER[t]; hex_of(e->txt, p, e->n); }
static void put_packet(int t, int kind) { uint8_t p[128], f[300]; mkpay(p, t, kind); int len = ref_encode(f, p, TSIZE[t]); expect_payload(p, t, SL); put_bytes(f, len); }
static void reset_stream(void) { SL = 0; SP = 0; nexp = 0; }
static void put_char(int c) { uint8_t b[16]; int n = 0; char_bits(b, &n, c); for (int i = 0; i < n; i++) put(b[i]); }
static void put_text(const char *t) { for (; *t; t++) put_char((unsigned char)*t); }
/* sentence: dollars x '$', body, '*', CRC, ending.  delivered text keeps at most the 8 last '$' */
static void put_sentence(int dollars, const char *body, int lower, const char *ending) {
    char crc[8]; uint16_t c = ref_crc16((const uint8_t *)body, strlen(body));
    sprintf(crc, lower ? "%04x" : "%04X", c);
    put_char('$'); SL -= 0;
    struct pkt *e = &exp_[nexp++]; e->pos = SL; e->n = 0; e->ver = 0;
    for (int i = 1; i < dollars; i++) put_char('$');
    put_text(body); put_char('*'); put_text(crc); put_text(ending);
    int d = dollars > 8 ? 8 : dollars; memset(e->txt, '$', d); sprintf(e->txt + d, "%s*%s", body, crc);
}
/* ------------------------------------------------------------------ running the real receiver */
static char *outbuf; static int outlen;
static void run_stream(struct horus *h, int flush) {
    int nb = h->fsk->Nbits; static short *in; if (!in) in = calloc(4096, 2);
    int total = (SL + nb - 1) / nb + flush;
    ngot = 0; SP = 0; streams++;
    for (int b = 0; b < total; b++) {
        memset(outbuf, 0, outlen);
        int r = horus_rx(h, outbuf, in, 0);
        blocks++;
        if (r) {
            struct pkt *g = &got[ngot]; if (ngot < 255) ngot++;
            int l = 0; while (l < outlen && outbuf[l]) l++;
            if (l == outlen) { mc_violation("unterminated", "reported packet not terminated within %d bytes", outlen); l--; }
            if (l > 299) l = 299;
            memcpy(g->txt, outbuf, l); g->txt[l] = 0; g->pos = (b + 1) * nb; g->n = horus_get_total_payload_bits(h); g->ver = horus_packet_version(h);
            if (!horus_crc_ok(h)) mc_violation("flag", "packet reported with the checksum flag clear");
            if (M == 0 && g->n != l / 2) mc_violation("size", "payload size reads %d for a %d byte packet", g->n, l / 2);
            delivered++;
        } else if (horus_crc_ok(h) && outbuf[0]) mc_violation("flag0", "no packet reported yet checksum flag set with text '%s'", outbuf);
    }
}
static int match(const struct pkt *g, const struct pkt *e) {
    const char *a = g->txt, *b = e->txt;
    if (M == 0) return !strcmp(a, b) && g->ver == e->ver;
    /* the number of '$' kept in front is not part of the sentence; the sentence must start with one */
    if (*a != '$') return 0;
    while (*a == '$') a++; while (*b == '$') b++;
    return !strcmp(a, b);
}
/* every expected packet exactly once, in order, nothing else.  If the bits themselves contain a further packet
   (16-bit checksum coincidence) the stream is ambiguous: then only require what was delivered to be such a packet. */
static void check_delivery(void) {
    int ok = ngot == nexp;
    for (int i = 0; ok && i < nexp; i++) ok = match(&got[i], &exp_[i]);
    if (ok) return;
    ref_scan();
    int amb = 0;
    for (int c = 0; c < ncand; c++) { int f = 0; for (int e = 0; e < nexp; e++) if (match(&cand[c], &exp_[e])) f = 1; if (!f) amb = 1; }
    if (amb) {
        ambiguous++;
        for (int g = 0; g < ngot; g++) { int f = 0; for (int c = 0; c < ncand; c++) if (match(&got[g], &cand[c])) f = 1; if (!f) mc_violation("alien", "delivered '%s' which no part of the stream contains", got[g].txt); }
        return;
    }
    char buf[700] = ""; int o = 0;
    for (int g = 0; g < ngot && o < 300; g++) o += snprintf(buf + o, sizeof buf - o, "[v%d %.50s] ", got[g].ver, got[g].txt);
    const char *key = ngot > nexp ? "duplicate-or-alien" : ngot < nexp ? "lost" : "wrong";
    int w = 0; while (w < nexp && w < ngot && match(&got[w], &exp_[w])) w++;
    mc_violation(key, "%d packets sent, %d delivered; first difference at %d; expected [v%d %.60s] got %s", nexp, ngot, w, w < nexp ? exp_[w].ver : 0, w < nexp ? exp_[w].txt : "-", buf);
}
static void case_stream(int m, int flush) {
    struct horus *h = rx_open(m);
    outlen = horus_get_max_ascii_out_len(h);
    outbuf = malloc(outlen);
    run_stream(h, flush);
    check_delivery();
    free(outbuf); horus_close(h);
}
static int flush_of(void) { return M == 0 ? 45 : 30; }
/* ------------------------------------------------------------------ C03 jobs */
static void job_single(void) {
    for (int t = 0; t < 7; t++) for (int al = 0; al < 100; al++) for (int uwe = -1; uwe < 16; uwe++)
        for (int k = 0; k < (mc_thorough ? 8 : 3); k++) for (int fill = 0; fill < 4; fill++) {
            int kind = k == 0 ? 4 : k == 1 ? 3 : k == 2 ? 2 : k == 3 ? 0 : k == 4 ? 1 : k;
            if (!mc_thorough && (fill != (al + k) % 4)) continue;
            if (!mc_next("single type=%d align=%d uwerr=%d payload=%d fill=%d", t, al, uwe, kind, fill)) continue;
            reset_stream(); M = 0; put_fill(200 + al, fill); put_packet(t, kind);
            if (uwe >= 0) S[exp_[0].pos + uwe] ^= 1;
            put_fill(50, fill);
            case_stream(0, 45);
        }
}
static const int GAPS[] = {0, 1, 3, 8, 16, 24, 50, 99, 100, 101, 137, 200, 399, 1000};
static void job_pair(void) {
    for (int a = 0; a < 7; a++) for (int b = 0; b < 7; b++) for (int g = 0; g < 14; g++) for (int al = 0; al < 100; al++) {
        if (!mc_thorough && (g % 2) && (al % 7)) continue;
        for (int var = 0; var < (mc_thorough ? 4 : 1); var++) {
            if (!mc_next("pair %d,%d gap=%d align=%d var=%d", a, b, GAPS[g], al, var)) continue;
            int fill = (a + b + g + var) % 4;
            reset_stream(); put_fill(al, fill); put_packet(a, 4 + var); put_fill(GAPS[g], fill); put_packet(b, var == 1 ? 4 : 9 + var);
            if (var == 2) S[exp_[0].pos + 3] ^= 1; if (var >= 2) S[exp_[1].pos + 11] ^= 1;
            case_stream(0, 45);
        }
    }
}
static void job_triple(void) {
    for (int a = 0; a < 7; a++) for (int b = 0; b < 7; b++) for (int c = 0; c < 7; c++) for (int al = 0; al < 100; al += mc_thorough ? 1 : 4) {
        if (!mc_next("triple %d,%d,%d align=%d", a, b, c, al)) continue;
        reset_stream(); put_fill(al, 3); put_packet(a, 4); put_packet(b, 5); put_fill(mc_thorough ? al % 5 : 0, 3); put_packet(c, 6);
        case_stream(0, 45);
    }
    for (int t = 0; t < 7; t++) for (int al = 0; al < 100; al++) {              /* long back to back runs, identical packets */
        if (!mc_next("run of 12 type=%d align=%d", t, al)) continue;
        reset_stream(); put_fill(al, 0); for (int i = 0; i < 12; i++) put_packet(t, i < 6 ? 4 : 4 + i);
        case_stream(0, 45);
    }
}
static void flip_frame(int pos, int n, int k, uint32_t e) {  /* flip pattern e in codeword k of the frame at stream position pos */
    uint8_t d[300]; memset(d, 0, sizeof d);
    for (int b = 0; b < 23; b++) if (e >> b & 1) ref_flip(d, n, k, b);
    for (int i = 0; i < 8 * ref_coded_len(n); i++) S[pos + i] ^= d[i / 8] >> (7 - i % 8) & 1;
}
static void job_fec(void) {
    for (int t = 0; t < 7; t++) for (int s = 0; s < 2048; s++) {
        if (!mc_next("fec type=%d pattern=%06x in every codeword", t, leader[s])) continue;
        reset_stream(); put_fill(s % 100, 3); put_packet(t, 4);
        for (int k = 0; k < ref_ncw(TSIZE[t]); k++) flip_frame(exp_[0].pos, TSIZE[t], k, leader[s]);
        if (s & 1) S[exp_[0].pos + s / 2 % 16] ^= 1;
        put_fill(100, 3); case_stream(0, 40);
    }
    if (mc_thorough) for (int t = 0; t < 7; t++) for (int k = 0; k < ref_ncw(TSIZE[t]); k++) for (int s = 0; s < 2048; s += (k % 4 == 0) ? 1 : 7) {
        if (!mc_next("fec type=%d codeword=%d pattern=%06x", t, k, leader[s])) continue;
        reset_stream(); put_fill((s + k) % 100, 3); put_packet(t, 4); flip_frame(exp_[0].pos, TSIZE[t], k, leader[s]);
        put_fill(100, 3); case_stream(0, 40);
    }
}
/* two receivers' worth of history: a truncated or damaged packet before a good one never hides the good one */
static void job_trunc(void) {
    for (int a = 0; a < 7; a++) for (int b = 0; b < 7; b++) for (int cut = 0; cut < 8 * 249; cut += mc_thorough ? 3 : 17) {
        if (cut >= 8 * ref_coded_len(TSIZE[a])) break;
        if (!mc_next("truncated %d after %d bits, then %d", a, cut, b)) continue;
        reset_stream(); put_fill(37, 3); put_packet(a, 4); SL = exp_[0].pos + cut; nexp = 0; put_packet(b, 5); put_fill(60, 3);
        ref_scan(); nexp = 0;                                     /* a nearly complete packet may still be correctable */
        for (int c = 0; c < ncand; c++) exp_[nexp++] = cand[c];
        if (nexp == 2 && exp_[0].pos + 8 * ref_coded_len(exp_[0].n) > exp_[1].pos + 8 * ref_coded_len(exp_[1].n)) { struct pkt x = exp_[0]; exp_[0] = exp_[1]; exp_[1] = x; }
        case_stream(0, 45);
    }
}
/* ------------------------------------------------------------------ C04 jobs: damage the decoded content, re-encode */
static void damaged_case(int t, const uint8_t *e) {
    uint8_t p[128], f[300]; mkpay(p, t, 4); int n = TSIZE[t];
    for (int i = 0; i < n; i++) p[i] ^= e[i];
    int len = ref_encode(f, p, n);
    reset_stream(); M = 0; put_fill(13, 0); put_bytes(f, len);
    case_stream(0, 2);
}
static void job_damage(void) {
    uint8_t e[128];
    for (int t = 0; t < 7; t++) {
        int nb = 8 * TSIZE[t];
        for (int i = 0; i < nb; i++) for (int j = i; j < nb; j++) {
            if (!mc_thorough && nb > 256 && j > i + 40 && (i * 31 + j) % 29) continue;
            if (!mc_next("type=%d flipped payload bits %d,%d", t, i, j)) continue;
            memset(e, 0, 128); e[i / 8] ^= 0x80 >> (i % 8); if (j != i) e[j / 8] ^= 0x80 >> (j % 8);
            damaged_case(t, e);
        }
        if (t < (mc_thorough ? 3 : 1)) for (int i = 0; i < nb; i++) for (int j = i + 1; j < nb; j++) for (int k = j + 1; k < nb; k++) {
            if (!mc_thorough && (i + 5 * j + 11 * k) % 31) continue;
            if (!mc_next("type=%d flipped payload bits %d,%d,%d", t, i, j, k)) continue;
            memset(e, 0, 128); e[i / 8] ^= 0x80 >> (i % 8); e[j / 8] ^= 0x80 >> (j % 8); e[k / 8] ^= 0x80 >> (k % 8);
            damaged_case(t, e);
        }
        int bl = mc_thorough && t < 3 ? 16 : mc_thorough ? 10 : t < 3 ? 8 : 5;
        for (int i = 0; i < nb; i++) for (int v = 1; v < 1 << bl; v += 2) {      /* burst starting at bit i, pattern v */
            if (i + bl > nb && v >> (nb - i)) continue;
            if (!mc_next("type=%d burst %x at %d", t, v, i)) continue;
            memset(e, 0, 128); for (int b = 0; b < bl; b++) if (v >> b & 1) e[(i + b) / 8] ^= 0x80 >> ((i + b) % 8);
            damaged_case(t, e);
        }
        for (int i = 0; i < nb; i++) for (int v = 0; v < 16 * 16; v++) {           /* wide bursts: first and last nibble over a 16 bit span */
            uint32_t w = (v & 15) << 12 | v >> 4; if (!w) continue;
            if (i + 16 > nb) continue;
            if (!mc_thorough && (i + v) % 7) continue;
            if (!mc_next("type=%d wide burst %x at %d", t, w, i)) continue;
            memset(e, 0, 128); for (int b = 0; b < 16; b++) if (w >> (15 - b) & 1) e[(i + b) / 8] ^= 0x80 >> ((i + b) % 8);
            damaged_case(t, e);
        }
    }
}
/* length changes, wrong checksum position, wrong byte order, and more than 3 errors in codewords */
static void job_place(void) {
    for (int k = 0; k < 6; k++) for (int place = 0; place < 6; place++) for (int kind = 0; kind < 200; kind++) {
        int n = SIZES[k]; if (!mc_next("size=%d checksum placement=%d content=%d", n, place, kind)) continue;
        uint8_t p[128], f[300]; uint32_t x = kind * 2654435761u + place; for (int i = 0; i < n; i++) { x = x * 1664525u + 1013904223u; p[i] = x >> 24; }
        uint16_t c;
        if (place == 0) { c = ref_crc16(p, n - 2); p[n - 2] = c; p[n - 1] = c >> 8; }            /* tail */
        else if (place == 1) { c = ref_crc16(p + 2, n - 2); p[0] = c; p[1] = c >> 8; }          /* head */
        else if (place == 2) { c = ref_crc16(p, n - 2); p[n - 2] = c >> 8; p[n - 1] = c; }       /* tail, swapped */
        else if (place == 3) { c = ref_crc16(p + 2, n - 2); p[0] = c >> 8; p[1] = c; }          /* head, swapped */
        else if (place == 4) { c = ref_crc16(p, n - 4); p[n - 4] = c; p[n - 3] = c >> 8; }       /* short */
        else memset(p, kind < 4 ? (int[]){0, 255, 0x24, 0x55}[kind] : p[0], n);                 /* constant content */
        int v = version_of(p, n), len = ref_encode(f, p, n);
        reset_stream(); M = 0; put_fill(kind % 100, 0); if (v) { struct pkt *e = &exp_[nexp++]; e->pos = SL; e->n = n; e->ver = v; hex_of(e->txt, p, n); }
        put_bytes(f, len); case_stream(0, 42);
    }
    for (int n = 1; n <= 128; n++) for (int place = 0; place < 2; place++) for (int al = 0; al < 3; al++) {   /* every other length */
        int known = 0; for (int k = 0; k < 6; k++) known |= SIZES[k] == n;
        if (n < 3 || !mc_next("length=%d placement=%d al=%d", n, place, al)) continue;
        uint8_t p[128], f[300]; for (int i = 0; i < n; i++) p[i] = i * 7 + al * 31 + n; uint16_t c;
        if (place) { c = ref_crc16(p + 2, n - 2); p[0] = c; p[1] = c >> 8; } else { c = ref_crc16(p, n - 2); p[n - 2] = c; p[n - 1] = c >> 8; }
        int v = known ? version_of(p, n) : 0, len = ref_encode(f, p, n);
        reset_stream(); M = 0; put_fill(al * 33, 0); if (v) { struct pkt *e = &exp_[nexp++]; e->pos = SL; e->n = n; e->ver = v; hex_of(e->txt, p, n); }
        put_bytes(f, len); case_stream(0, 42);
    }
    for (int t = 0; t < 7; t++) for (int k = 0; k < ref_ncw(TSIZE[t]); k++) for (int w = 4; w <= 7; w++) for (int r = 0; r < (mc_thorough ? 40 : 6); r++) {
        if (!mc_next("type=%d codeword=%d %d errors #%d", t, k, w, r)) continue;
        uint32_t e = 0; for (int i = 0; i < w; i++) e |= 1u << ((r * 5 + i * (1 + r % 3) + k) % 22 + (r & 1 ? 0 : 1)) % 23;
        reset_stream(); M = 0; put_fill(5, 0); put_packet(t, 4); flip_frame(exp_[0].pos, TSIZE[t], k, e);
        ref_scan(); nexp = 0;                                     /* whatever the format's decoder makes of it */
        for (int c = 0; c < ncand; c++) exp_[nexp++] = cand[c];
        case_stream(0, 42);
    }
}
/* ------------------------------------------------------------------ C05 jobs */
static const char *ENDS[] = {"\n", "\r\n", "", "\n\n\n", "\r", "  \n", "xyz\n", "*1234\n"};
static void mkbody(char *b, int len, int kind) { static const char A[] = "HORUSTEST,123,12:34:56,-34.12345,138.98765,12345,0,8,17,-5,ABCdef.;:/ @+=~!?#%&()";
    for (int i = 0; i < len; i++) b[i] = A[(i + kind * 7) % (sizeof A - 1)]; b[len] = 0; }
static void job_rsingle(void) {
    char b[130];
    for (int m = 1; m < 4; m++) for (int d = 2; d <= 12; d++) for (int al = 0; al < 50; al++) for (int L = 0; L < 12; L++) for (int en = 0; en < 8; en++) {
        static const int LEN[] = {10, 11, 17, 30, 31, 49, 64, 80, 95, 100, 101, 102};
        if (!mc_thorough && (al + L * 5 + en * 3 + d * 7) % 4) continue;
        M = m;
        int dd = d > 8 ? 8 : d; if (LEN[L] + dd > 114) continue;
        if (!mc_next("%s dollars=%d align=%d len=%d ending=%d", MODES[m].name, d, al, LEN[L], en)) continue;
        reset_stream(); put_fill(al, al % 3 == 2 ? 0 : 1); mkbody(b, LEN[L], L); put_sentence(d, b, en & 1, ENDS[en]); put_fill(60, 1);
        case_stream(m, 30);
    }
    for (int m = 1; m < 4; m++) for (int L = 10; L <= 112; L++) for (int d = 2; d <= 8; d++) for (int al = 0; al < 50; al += mc_thorough ? 1 : 7) {   /* every length */
        M = m; if (L + d > 114) continue;
        if (!mc_next("%s dollars=%d align=%d len=%d", MODES[m].name, d, al, L)) continue;
        reset_stream(); put_fill(al, 1); mkbody(b, L, L); put_sentence(d, b, L & 1, "\n"); put_fill(60, 1);
        case_stream(m, 30);
    }
    for (int m = 1; m < 4; m++) for (int uwe = 0; uwe < 22; uwe++) for (int al = 0; al < 50; al++) for (int d = 2; d < 5; d++) {  /* one bit error in a stop or start bit of the unique word */
        M = m; int st = MODES[m].data + MODES[m].stop + 1; if (uwe >= 2 * st || uwe % st < MODES[m].data) continue;
        if (!mc_next("%s uw framing error bit %d align=%d", MODES[m].name, uwe, al)) continue;
        reset_stream(); put_fill(al, 1); mkbody(b, 40, al); int p0 = SL; put_sentence(d, b, 0, "\n"); S[p0 + uwe] ^= 1; put_fill(60, 1);
        case_stream(m, 30);
    }
}
static void job_rpair(void) {
    char b[130]; static const int LEN[] = {1, 3, 10, 25, 60, 100}, G[] = {0, 1, 5, 9, 23, 50, 101};
    for (int m = 1; m < 4; m++) for (int a = 0; a < 6; a++) for (int c = 0; c < 6; c++) for (int d1 = 2; d1 <= 8; d1 += 2) for (int d2 = 2; d2 <= 11; d2 += 3) for (int g = 0; g < 7; g++) for (int al = 0; al < 50; al += mc_thorough ? 3 : 23) {
        if (!mc_next("%s lens %d,%d dollars %d,%d gap %d align %d", MODES[m].name, LEN[a], LEN[c], d1, d2, G[g], al)) continue;
        M = m; reset_stream(); put_fill(al, 1); mkbody(b, LEN[a], 1); put_sentence(d1, b, 0, "\n"); put_fill(G[g], 1);
        mkbody(b, LEN[c], a == c ? 1 : 2); put_sentence(d2, b, 0, "\r\n"); put_fill(50, 1);
        case_stream(m, 30);
    }
    for (int m = 1; m < 4; m++) for (int al = 0; al < 50; al++) for (int L = 1; L <= 100; L += L < 10 ? 1 : 15) {     /* a run of sentences */
        if (!mc_next("%s run of 8 len %d align %d", MODES[m].name, L, al)) continue;
        M = m; reset_stream(); put_fill(al, 1); for (int i = 0; i < 8; i++) { mkbody(b, L, i / 2); put_sentence(2 + i % 4, b, 0, "\n"); }
        put_fill(50, 1); case_stream(m, 30);
    }
}
/* every single-character change of a sentence, and checksum texts that are not hexadecimal */
static void job_rcorrupt(void) {
    char b[130]; static const char *T[] = {"$$HORUSTEST,7,00:00:01,-1.0,2.0,3", "$$$$AB,1,2", "$$A,*B"};
    for (int m = 1; m < 4; m++) for (int t = 0; t < 3; t++) {
        M = m; char base[160]; const char *body = T[t] + (t == 1 ? 4 : 2);
        char head[80]; strcpy(head, body); char *star = strchr(head, '*'); if (star) *star = 0;
        sprintf(base, "%s*%04X\n", T[t], ref_crc16((uint8_t *)head, strlen(head)));
        int n = strlen(base);
        for (int i = 0; i < n; i++) for (int c = 0; c < (1 << MODES[m].data); c++) {
            if (!mc_next("%s text %d char %d -> %d", MODES[m].name, t, i, c)) continue;
            reset_stream(); put_fill(i % 50, 1); for (int k = 0; k < n; k++) put_char(k == i ? c : base[k]); put_fill(60, 1);
            ref_scan(); nexp = 0; 
            /* what the received bits contain: first candidate per sentence start */
            for (int k = 0; k < ncand; k++) { int dup = 0; for (int e = 0; e < nexp; e++) if (match(&cand[k], &exp_[e])) dup = 1; if (!dup && cand[k].txt[0] == '$') exp_[nexp++] = cand[k]; }
            if (strlen(nexp ? exp_[0].txt : "") < 3 + 0 && nexp) continue;
            int nul = 0; for (int e = 0; e < nexp; e++) if (strlen(exp_[e].txt) < 6) nul = 1;
            if (c == 0 && nul) continue;                      /* a NUL inside cuts the text: not a sentence */
            case_stream(m, 30);
        }
    }
    /* "$...$*hhhh" for all dollar counts and digit strings */
    static const char *D[] = {"FFFF", "ffff", "1D0F", "0000", "zzzz", "    ", "12", "\n\n\n\n", "FFFG", "GFFF", "FFF", "-001", "FFFFF", "E1F0", "84C0"};
    for (int m = 1; m < 4; m++) for (int d = 2; d <= 12; d++) for (int k = 0; k < 15; k++) for (int mid = 0; mid < 3; mid++) for (int al = 0; al < 50; al += 7) {
        if (!mc_next("%s %d dollars then *%s mid %d align %d", MODES[m].name, d, D[k], mid, al)) continue;
        M = m; reset_stream(); put_fill(al, 1); for (int i = 0; i < d; i++) put_char('$'); put_text(mid == 0 ? "" : mid == 1 ? "A" : "HORUS,1"); put_char('*'); put_text(D[k]); put_fill(60, 1);
        ref_scan(); nexp = 0;
        for (int q = 0; q < ncand; q++) { int dup = 0; for (int e = 0; e < nexp; e++) if (match(&cand[q], &exp_[e])) dup = 1; if (!dup) exp_[nexp++] = cand[q]; }
        case_stream(m, 30);
    }
    /* every hexadecimal-alphabet violation in each checksum digit, checksum arranged so that "digit = -1" arithmetic matches */
    for (int m = 1; m < 4; m++) for (int v = 0; v < 4096; v += mc_thorough ? 1 : 5) {
        if (!mc_next("%s body %d with checksum digits replaced", MODES[m].name, v)) continue;
        M = m; sprintf(b, "HOR,%d", v); uint16_t c = ref_crc16((uint8_t *)b, strlen(b)); char h[8]; sprintf(h, "%04X", c);
        reset_stream(); put_fill(v % 50, 1); put_text("$$"); put_text(b); put_char('*'); int ch = 0;
        for (int i = 0; i < 4; i++) if (h[i] == 'F') { h[i] = "GZ -"[i]; ch = 1; }
        if (!ch) h[v % 4] = 'g';
        put_text(h); put_text("\n"); put_fill(60, 1);
        case_stream(m, 30);
    }
}
/* ------------------------------------------------------------------ C06 jobs (run under sanitizers) */
static void generic_check(struct horus *h, int flush) {      /* everything delivered is really in the bits */
    if (horus_packet_version(h) != 0 || horus_crc_ok(h) != 0 || horus_get_total_payload_bits(h) != 0) mc_violation("initial-flags", "flags of a fresh receiver: version %d crc %d bits %d", horus_packet_version(h), horus_crc_ok(h), horus_get_total_payload_bits(h));
    run_stream(h, flush);
    if (!ngot) return;
    ref_scan();
    for (int g = 0; g < ngot; g++) { int f = 0; for (int c = 0; c < ncand; c++) if (!strcmp(got[g].txt, cand[c].txt) && (M || got[g].ver == cand[c].ver)) f = 1;
        if (!f) mc_violation("alien", "delivered '%.80s' which the bits do not contain", got[g].txt); }
}
static void mem_case(int m, int flush) {
    struct horus *h = rx_open(m); outlen = horus_get_max_ascii_out_len(h); outbuf = malloc(outlen);
    generic_check(h, flush); free(outbuf); horus_close(h);
}
static void job_mem(void) {
    /* RTTY: '$$' at every window position, '*' at every character index, hex digits after it or not, stream cut anywhere */
    for (int m = 1; m < 4; m++) for (int star = 2; star <= 121; star++) for (int al = 0; al < 50; al += mc_thorough ? 1 : 7) for (int tail = 0; tail < 3; tail++) {
        if (!mc_next("%s star at %d align %d tail %d", MODES[m].name, star, al, tail)) continue;
        M = m; reset_stream(); put_fill(al, 1); put_char('$'); put_char('$'); char b[140]; int n = star - 2; for (int i = 0; i < n; i++) b[i] = 'A' + i % 26; b[n] = 0;
        put_text(b); put_char('*'); char c[8]; sprintf(c, "%04X", ref_crc16((uint8_t *)b, n)); put_text(tail == 0 ? c : tail == 1 ? "FFFF" : ""); put_fill(tail == 2 ? 0 : 60, 1);
        mem_case(m, 30);
    }
    for (int m = 1; m < 4; m++) for (int d = 2; d <= 130; d++) for (int tail = 0; tail < 4; tail++) {        /* runs of '$' with an early or late star */
        if (!mc_next("%s %d dollars tail %d", MODES[m].name, d, tail)) continue;
        M = m; reset_stream(); put_fill(d % 50, 1); for (int i = 0; i < d; i++) put_char('$');
        put_text(tail == 0 ? "*FFFF" : tail == 1 ? "A*1234" : tail == 2 ? "" : "*"); put_fill(70, tail & 1);
        mem_case(m, 30);
    }
    /* binary: unique word at every bit of the window with the stream ending at every distance after it */
    for (int al = 0; al < 100; al++) for (int after = 0; after < 2100; after += mc_thorough ? 9 : 57) {
        if (!mc_next("binary uw align %d then %d bits", al, after)) continue;
        M = 0; reset_stream(); put_fill(al, 0); uint8_t uw[2] = {0x24, 0x24}; put_bytes(uw, 2); put_fill(after, 2); mem_case(0, 42);
    }
    /* every periodic stream up to the bound, all modes: includes all-ones, all unique words, saturated tracking */
    for (int m = 0; m < 4; m++) for (int per = 1; per <= (mc_thorough ? 12 : 9); per++) for (int v = 0; v < 1 << per; v++) {
        if (!mc_next("%s period %d pattern %x", MODES[m].name, per, v)) continue;
        M = m; reset_stream(); for (int i = 0; i < (m ? 3000 : 9000); i++) put(v >> (i % per) & 1); mem_case(m, 3);
    }
    /* periodic over whole characters / unique words */
    for (int m = 0; m < 4; m++) for (int a = 0; a < 256; a += mc_thorough ? 1 : 3) for (int b = 0; b < 4; b++) {
        if (!mc_next("%s repeated unique word and byte %d style %d", MODES[m].name, a, b)) continue;
        M = m; reset_stream();
        while (SL < (m ? 3500 : 9000)) { if (m) { put_char('$'); put_char('$'); put_char(a); if (b & 1) put_char('*'); if (b & 2) put_text("FFFF"); } else { uint8_t x[6] = {0x24, 0x24, a, b & 1 ? 0x24 : a, b & 2 ? 0x24 : 0, 0x24}; put_bytes(x, 2 + b); } }
        mem_case(m, 40);
    }
    for (int t = 0; t < 7; t++) for (int al = 0; al < 100; al += 9) for (int k = 0; k < 6; k++) {
        if (!mc_next("type %d align %d payload %d", t, al, k)) continue;
        M = 0; reset_stream(); put_fill(al, 3); put_packet(t, k); put_packet(t, k + 1); put_fill(40, 3); mem_case(0, 42);
    }
}
/* single-step reachability: every bit position as unique word start for several consecutive windows */
int main(int argc, char **argv) {
    mc_init(argc, argv); ref_init();
    const char *job = mc_arg(argc, argv, "--job", "single");
    M = 0;
    if (!strcmp(job, "single")) job_single();
    else if (!strcmp(job, "pair")) job_pair();
    else if (!strcmp(job, "triple")) job_triple();
    else if (!strcmp(job, "fec")) job_fec();
    else if (!strcmp(job, "trunc")) job_trunc();
    else if (!strcmp(job, "damage")) job_damage();
    else if (!strcmp(job, "place")) job_place();
    else if (!strcmp(job, "rsingle")) job_rsingle();
    else if (!strcmp(job, "rpair")) job_rpair();
    else if (!strcmp(job, "rcorrupt")) job_rcorrupt();
    else if (!strcmp(job, "mem")) job_mem();
    else return 4;
    mc_stat("evaluations", streams); mc_stat("distinct_nontrivial", streams); mc_stat("receiver_calls", blocks);
    mc_stat("packets_delivered", delivered); mc_stat("checksum_coincidences", ambiguous);
    return mc_done();
}
