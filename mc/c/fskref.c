/* plain library loop used as reference for fsk_demod: fskref M Fs Rs P nsym fmt soft mask spacing lower upper in; bits/soft values on stdout, one reading per block on stderr */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fsk.h"
#include "codec2_fdmdv.h"
#include "modem_stats.h"
int main(int argc, char **argv) {
    int v[12], i, k; for (i = 1; i < 12; i++) v[i] = atoi(argv[i]);
    struct FSK *f = fsk_create_hbr(v[2], v[3], v[1], v[4], v[5], 1000, v[9]); static struct MODEM_STATS st;
    fsk_set_freq_est_limits(f, v[10], v[11]); fsk_set_freq_est_alg(f, v[8]);
    FILE *in = fopen(argv[12], "rb"); fseek(in, 0, SEEK_END); long n = ftell(in), pos = 0; rewind(in);
    unsigned char *d = malloc(n + 1); if (fread(d, 1, n, in) != n) return 3;
    int fs = v[6] == 1 ? 2 : v[6] == 2 ? 4 : 2;
    COMP *c = calloc(sizeof(COMP), f->N * 2 + f->Ts * 4); unsigned char *b = calloc(1, f->Nbits); float *s = calloc(sizeof(float), f->Nbits);
    for (;;) {
        int nin = fsk_nin(f); if (pos + (long)nin * fs > n) break;
        for (i = 0; i < nin; i++) {
            unsigned char *p = d + pos + (long)i * fs; short a, q; memcpy(&a, p, 2);
            if (v[6] == 1) { c[i].real = a / (float)FDMDV_SCALE; c[i].imag = 0; }
            else if (v[6] == 2) { memcpy(&q, p + 2, 2); c[i].real = a / (float)FDMDV_SCALE; c[i].imag = q / (float)FDMDV_SCALE; }
            else { c[i].real = (p[0] - 127.0) / 128.0; c[i].imag = (p[1] - 127.0) / 128.0; }
        }
        pos += (long)nin * fs;
        if (v[7]) { fsk_demod_sd(f, s, c); fwrite(s, 4, f->Nbits, stdout); } else { fsk_demod(f, b, c); fwrite(b, 1, f->Nbits, stdout); }
        fsk_get_demod_stats(f, &st);
        fprintf(stderr, "%.9g %d", st.snr_est, (int)f->ppm);
        for (i = 0; i < v[1]; i++) fprintf(stderr, " %.9g", (f->freq_est_type ? f->f2_est : f->f_est)[i]);
        double se = 0; for (i = 0; i < st.neyetr; i++) for (k = 0; k < st.neyesamp; k++) se += st.rx_eye[i][k];
        double ss = 0; for (i = 0; i < f->Ndft / 2; i++) ss += f->Sf[i];
        fprintf(stderr, " %d %d %.9g %d %.9g %d %ld\n", st.neyetr, st.neyesamp, se, f->Ndft / 2, ss, f->Nbits, pos);
    }
    return 0;
}
