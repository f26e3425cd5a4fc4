/* C01/C02/C04 explorer over the Golay coder and the packet codec.  --job word|packet|format|mem|crc */
#include "mc.h"
#include "ref.h"
#include "golay23.h"
#include "horus_l2.h"

static void job_word(void) {
    static uint32_t nearest[1 << 23];
    memset(nearest, 0xff, sizeof nearest);
    golay23_init();
    long perfect = 0;
    for (unsigned d = 0; d < 4096; d++) {
        unsigned cw = d << 11 | ref_golay_parity(d);
        for (int a = 0; a < 24; a++) for (int b = a; b < 24; b++) for (int c = b; c < 24; c++) {
            unsigned e = 0;                                     /* 23 stands for "no flip" */
            if (a < 23) e |= 1u << a; if (b < 23) e |= 1u << b; if (c < 23) e |= 1u << c;
            if (__builtin_popcount(e) != (a < 23) + (b < 23) + (c < 23)) continue;
            if (nearest[cw ^ e] == 0xffffffffu) { nearest[cw ^ e] = cw; perfect++; }
            else if (nearest[cw ^ e] != cw) { printf("VIOL ref|reference not perfect\n"); exit(1); }
        }
        if (mc_next("encode data word 0x%03x", d)) {
            unsigned got = golay23_encode(d);
            if (got != cw) mc_violation("encode", "got 0x%06x want 0x%06x", got, cw);
            if (golay23_syndrome(cw) != 0) mc_violation("syndrome", "codeword syndrome %x", golay23_syndrome(cw));
            if ((unsigned)golay23_syndrome(d << 11) != (cw & 0x7ff)) mc_violation("syndrome", "parity %x", golay23_syndrome(d << 11));
        }
    }
    if (perfect != 1 << 23) { printf("VIOL ref|reference covers %ld words\n", perfect); exit(1); }
    long n = 0, err = 0;
    for (unsigned w = 0; w < 1u << 23; w++) {
        if (!mc_next("decode word 0x%06x", w)) continue;
        unsigned got = golay23_decode(w);
        if (got >> 11 != nearest[w] >> 11 || got >> 23) mc_violation("decode", "got data 0x%03x want 0x%03x", got >> 11, nearest[w] >> 11);
        int ce = golay23_count_errors(w, nearest[w]);
        if (ce != __builtin_popcount(w ^ nearest[w])) mc_violation("count", "count_errors %d", ce);
        n++; err += w != nearest[w];
    }
    mc_stat("evaluations", n); mc_stat("distinct_nontrivial", err); mc_stat("words", n);
}

static void mkpay(uint8_t *p, int n, int kind) {
    for (int i = 0; i < n; i++)
        p[i] = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? (uint8_t)(i * 37 + n) : (uint8_t)((i * i + 11) * 2654435761u >> 7);
}
static void check_dec(const uint8_t *tx, int len, const uint8_t *pay, int n, const char *key) {
    uint8_t rx[1100], out[300];
    memcpy(rx, tx, len); memset(rx + len, 0xA5, 8);
    memset(out, 0x5A, sizeof out);
    horus_l2_decode_rx_packet(out, rx, n);
    if (memcmp(out, pay, n)) mc_violation(key, "size %d decoded wrongly", n);
    if (out[n] != 0x5A || out[n + 1] != 0x5A) mc_violation("overrun", "decode wrote past %d bytes", n);
}
static void job_packet(void) {
    static unsigned pat[2048]; int np = 0;
    for (int a = -1; a < 23; a++) for (int b = a; b < 23; b++) for (int c = b; c < 23; c++) {
        unsigned e = 0; if (a >= 0) e |= 1u << a; if (b >= 0) e |= 1u << b; if (c >= 0) e |= 1u << c;
        if (__builtin_popcount(e) != (a >= 0) + (b >= 0) + (c >= 0)) continue;
        pat[np++] = e;
    }
    if (np != 2048) { printf("VIOL ref|%d patterns\n", np); exit(1); }
    horus_l2_init();
    long ev = 0, nt = 0;
    static const int op[] = {16, 22, 32, 48, 64, 96, 128};
    for (int n = 1; n <= 128; n++) {
        int isop = 0; for (int i = 0; i < 7; i++) isop |= op[i] == n;
        int kinds = isop ? 3 : 1;
        for (int kind = 0; kind < kinds; kind++) {
            uint8_t pay[300], tx[1100]; mkpay(pay, n, kinds == 1 ? 3 : kind == 0 ? 3 : kind - 1);
            int len = ref_encode(tx, pay, n), ncw = ref_ncw(n);
            for (int k = 0; k < ncw; k++) {                      /* one codeword hit by each pattern */
                if (!isop && !mc_thorough && k > 1 && k < ncw - 2) continue;
                if (!mc_next("size %d payload kind %d codeword %d all %d patterns", n, kind, k, np)) continue;
                for (int q = 0; q < np; q++) {
                    uint8_t t[1100]; memcpy(t, tx, len);
                    for (int b = 0; b < 23; b++) if (pat[q] >> b & 1) ref_flip(t, n, k, b);
                    check_dec(t, len, pay, n, "packet-1cw"); ev++; nt += pat[q] != 0;
                }
            }
            for (int q = 0; q < np; q++) {                       /* every codeword hit at once, patterns rotated */
                if (!isop && !mc_thorough && q % 64) continue;
                if (!mc_next("size %d kind %d all codewords, pattern base %d", n, kind, q)) continue;
                uint8_t t[1100]; memcpy(t, tx, len);
                for (int k = 0; k < ncw; k++) { unsigned e = pat[(q + k * 677) % np]; for (int b = 0; b < 23; b++) if (e >> b & 1) ref_flip(t, n, k, b); }
                t[0] ^= q & 0xff; t[1] ^= (q >> 3) & 0xff;       /* unique word content must not matter to the decoder */
                check_dec(t, len, pay, n, "packet-allcw"); ev++; nt++;
            }
        }
    }
    mc_stat("evaluations", ev); mc_stat("distinct_nontrivial", nt); mc_stat("packets", ev);
}
static long ev;
static void enc1(const uint8_t *pay, int n, int viadec) {
    uint8_t want[1100], buf[1100], in[300];
    int wl = ref_encode(want, pay, n);
    memset(buf, 0xC3, sizeof buf); memcpy(in, pay, n); in[n] = 0x77;
    int adv = horus_l2_get_num_tx_data_bytes(n);
    int l = horus_l2_encode_tx_packet(buf + 8, in, n);
    if (l != wl || adv != wl) mc_violation("length", "size %d returned %d advertised %d want %d", n, l, adv, wl);
    if (memcmp(buf + 8, want, wl)) mc_violation("format", "size %d frame differs from the published format", n);
    for (int i = 0; i < 8; i++) if (buf[i] != 0xC3 || buf[8 + wl + i] != 0xC3) mc_violation("overrun", "size %d wrote outside the frame", n);
    if (memcmp(in, pay, n) || in[n] != 0x77) mc_violation("input", "size %d payload buffer modified", n);
    if (viadec) check_dec(want, wl, pay, n, "roundtrip");
    ev++;
}
static void job_format(void) {
    horus_l2_init();
    for (int n = 1; n <= 128; n++) for (int pos = 0; pos < n; pos++) {
        if (!mc_next("size %d, every byte value at position %d on backgrounds 00, FF and mixed", n, pos)) continue;
        uint8_t p[300];
        for (int bg = 0; bg < 3; bg++) {
            if (!mc_thorough && bg == 2 && pos % 4) continue;
            mkpay(p, n, bg == 2 ? 3 : bg); uint8_t keep = p[pos];
            for (int v = 0; v < 256; v++) { if (!mc_thorough && bg && (v & (v - 1))) continue; p[pos] = v; enc1(p, n, (v & 15) == 1); }
            p[pos] = keep;
        }
    }
    if (mc_thorough) for (int n = 1; n <= 48; n++) for (int a = 0; a < 8 * n; a++) {
        if (!mc_next("size %d, bit pairs with bit %d", n, a)) continue;
        uint8_t p[300];
        for (int b = a + 1; b < 8 * n; b++) { memset(p, 0, n); p[a / 8] ^= 128 >> a % 8; p[b / 8] ^= 128 >> b % 8; enc1(p, n, 1); }
    }
    mc_stat("evaluations", ev); mc_stat("distinct_nontrivial", ev); mc_stat("frames", ev);
}
/* Exact-size heap buffers: any out-of-bounds access is an AddressSanitizer report. */
static void job_mem(void) {
    horus_l2_init();
    for (int n = 1; n <= 128; n++) for (int kind = 0; kind < 4; kind++) {
        if (!mc_next("exact buffers size %d kind %d", n, kind)) continue;
        int adv = horus_l2_get_num_tx_data_bytes(n);
        if (adv != ref_coded_len(n)) mc_violation("length", "advertised %d", adv);
        uint8_t *in = malloc(n), *out = malloc(adv), *dec = malloc(n), *rx = malloc(adv), want[1100];
        mkpay(in, n, kind); ref_encode(want, in, n);
        horus_l2_encode_tx_packet(out, in, n);
        if (memcmp(out, want, adv)) mc_violation("format", "size %d", n);
        memcpy(rx, want, adv);
        horus_l2_decode_rx_packet(dec, rx, n);
        if (memcmp(dec, in, n)) mc_violation("roundtrip", "size %d", n);
        free(in); free(out); free(dec); free(rx); ev++;
    }
    mc_stat("evaluations", ev); mc_stat("distinct_nontrivial", ev); mc_stat("exact_buffer_runs", ev);
}
/* CRC automaton: every state reached after two bytes (they reach all 65536) x every next byte, plus lengths. */
static void job_crc(void) {
    static uint8_t seen[65536]; long states = 0, tr = 0;
    for (int a = 0; a < 256; a++) {
        for (int b = 0; b < 256; b++) { uint8_t m[2] = {a, b}; uint16_t s = ref_crc16(m, 2); if (!seen[s]) { seen[s] = 1; states++; } }
    }
    for (int a = 0; a < 256; a++) {
        if (!mc_next("crc of all three-byte strings starting %02x", a)) continue;
        for (int b = 0; b < 256; b++) for (int c = 0; c < 256; c++) {
            uint8_t m[3] = {a, b, c};
            if (horus_l2_gen_crc16(m, 3) != ref_crc16(m, 3)) mc_violation("crc", "%02x%02x%02x", a, b, c);
            tr++;
        }
    }
    for (int len = 0; len <= 255; len++) {
        if (!mc_next("crc of length %d strings", len)) continue;
        for (int k = 0; k < 4; k++) { uint8_t m[300]; mkpay(m, 300, k); if (horus_l2_gen_crc16(m, len) != ref_crc16(m, len)) mc_violation("crc", "length %d", len); tr++; }
    }
    if (mc_shard == 0) mc_stat("crc_states", states);
    mc_stat("crc_transitions", tr);
}
int main(int argc, char **argv) {
    mc_init(argc, argv);
    const char *j = mc_arg(argc, argv, "--job", "word");
    if (!strcmp(j, "word")) job_word(); else if (!strcmp(j, "packet")) job_packet();
    else if (!strcmp(j, "format")) job_format(); else if (!strcmp(j, "mem")) job_mem(); else if (!strcmp(j, "crc")) job_crc();
    return mc_done();
}
