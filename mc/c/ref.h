/* Independent reference of the over-the-air format: bit-array style, no code shared with the project. */
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <string.h>
#include <assert.h>
static unsigned ref_golay_parity(unsigned d12) {          /* remainder of d(x) x^11 by g(x) = 0xC75 */
    unsigned r = d12 << 11;
    for (int b = 22; b >= 11; b--) if (r >> b & 1) r ^= 0xC75u << (b - 11);
    return r;
}
static int ref_ncw(int n) { return (8 * n + 11) / 12; }
static int ref_coded_len(int n) { return (16 + 8 * n + 11 * ref_ncw(n) + 7) / 8; }
static int ref_isprime(int x) { if (x < 2) return 0; for (int i = 2; i * i <= x; i++) if (x % i == 0) return 0; return 1; }
static int ref_prime(int nbits) {                          /* interleaver step for a body of nbits bits */
    if (nbits == 43 * 8) return 337;                       /* published primes of the two original packet sizes */
    if (nbits == 63 * 8) return 389;
    int x = (int)((double)nbits / 1.62 + 1e-9);
    for (x = x + 1; !ref_isprime(x); x++) ;
    return x;
}
static int ref_getbit_lsb(const uint8_t *b, int i) { return b[i / 8] >> (i % 8) & 1; }
static void ref_scramble(uint8_t *b, int nbytes) {         /* DVB additive scrambler, LSB first */
    unsigned s = 0x4a80;
    for (int i = 0; i < nbytes * 8; i++) {
        unsigned o = (s >> 1 ^ s) & 1;
        b[i / 8] ^= o << (i % 8);
        s = s >> 1 | o << 14;
    }
}
/* Position, in the transmitted body, of body bit i (both LSB-first indices). */
static int ref_ilv(int i, int nbits) { return (int)(((long)ref_prime(nbits) * i) % nbits); }
/* Body before interleaving: payload then parity, MSB first.  out must hold ref_coded_len(n). Returns length. */
static int ref_encode(uint8_t *out, const uint8_t *pay, int n) {
    int len = ref_coded_len(n), body = len - 2, nb = body * 8;
    uint8_t raw[512]; memset(raw, 0, sizeof raw);
    memcpy(raw, pay, n);
    int p = 8 * n;
    for (int k = 0; k < ref_ncw(n); k++) {
        unsigned d = 0; int cnt = 0;
        for (int i = 0; i < 12; i++) {
            int bit = 12 * k + i;
            if (bit < 8 * n) { d = d << 1 | (pay[bit / 8] >> (7 - bit % 8) & 1); cnt++; }
        }
        if (cnt < 12) d <<= 1;                             /* short last word: one position, as transmitted today */
        unsigned par = ref_golay_parity(d);
        for (int i = 10; i >= 0; i--, p++) raw[p / 8] |= (par >> i & 1) << (7 - p % 8);
    }
    out[0] = out[1] = 0x24;
    memset(out + 2, 0, body);
    for (int i = 0; i < nb; i++) { int j = ref_ilv(i, nb); out[2 + j / 8] |= ref_getbit_lsb(raw, i) << (j % 8); }
    ref_scramble(out + 2, body);
    return len;
}
/* Flip, in a transmitted packet, bit b (22 = first data bit .. 0 = last parity bit) of codeword k. */
static void ref_flip(uint8_t *tx, int n, int k, int b) {
    int nb = (ref_coded_len(n) - 2) * 8, pos;
    int data = 8 * n - 12 * k; if (data > 12) data = 12;
    if (b >= 11) { int i = 22 - b; if (i >= data) return; pos = 12 * k + i; }   /* absent data bits of a short word */
    else pos = 8 * n + 11 * k + (10 - b);
    int lsb = pos / 8 * 8 + (7 - pos % 8);
    int j = ref_ilv(lsb, nb);
    tx[2 + j / 8] ^= 1 << (j % 8);
}
static uint16_t ref_crc16(const uint8_t *p, int n) {       /* CRC-16/CCITT-FALSE, bit serial */
    uint16_t c = 0xFFFF;
    for (int i = 0; i < n; i++) {
        c ^= (uint16_t)p[i] << 8;
        for (int k = 0; k < 8; k++) c = c & 0x8000 ? c << 1 ^ 0x1021 : c << 1;
    }
    return c;
}
#endif
