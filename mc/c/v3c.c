/* The generated C codec of the version 3 telemetry message, driven two ways:
   serve: a line protocol used to compare it with the Python codec;
   safe : exhaustive byte/bit faults over a corpus, every input in an exact-size heap block (run under the sanitizers). */
#include "mc.h"
#include <ctype.h>
#include <errno.h>
#include "Telemetry.h"
#include "AdditionalSensors.h"
#include "AdditionalSensorType.h"
#include "CustomFieldValues.h"
#include "TemperatureSensors.h"
#include "MilliVoltSensors.h"

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static size_t unhex(const char *s, unsigned char *o) {
    size_t n = 0;
    while (isxdigit((unsigned char)s[0]) && isxdigit((unsigned char)s[1])) { o[n++] = hexv(s[0]) * 16 + hexv(s[1]); s += 2; }
    return n;
}
static void setstr(OCTET_STRING_t *o, const char *hex) {
    static unsigned char b[65536];
    size_t n = unhex(hex, b);
    o->buf = malloc(n + 1); memcpy(o->buf, b, n); o->buf[n] = 0; o->size = n;
}
static long *lp(const char *s) { long *p = malloc(sizeof *p); *p = strtol(s, 0, 10); return p; }

/* tokens: cs= sn= tod= lat= lon= alt= [S [n=hex] [t=hex|i=a,b|r=bits,bits|b=mask]]* vel= sat= asc= prs= T ti= te= tc= td= hum= V vb= vs= vc= vd= cnt=a,b gps= cd=hex */
static Telemetry_t *build(char *line) {
    Telemetry_t *t = calloc(1, sizeof *t);
    AdditionalSensorType_t *s = 0;
    for (char *k = strtok(line, " \n"); k; k = strtok(0, " \n")) {
        char *v = strchr(k, '='); if (v) *v++ = 0;
#define IS(x) (!strcmp(k, x))
        if (IS("cs")) setstr(&t->payloadCallsign, v);
        else if (IS("sn")) t->sequenceNumber = strtol(v, 0, 10);
        else if (IS("tod")) t->timeOfDaySeconds = strtol(v, 0, 10);
        else if (IS("lat")) t->latitude = strtol(v, 0, 10);
        else if (IS("lon")) t->longitude = strtol(v, 0, 10);
        else if (IS("alt")) t->altitudeMeters = strtol(v, 0, 10);
        else if (IS("X")) t->extraSensors = calloc(1, sizeof(AdditionalSensors_t));
        else if (IS("S")) { s = calloc(1, sizeof *s); ASN_SEQUENCE_ADD(&t->extraSensors->list, s); }
        else if (IS("n")) { s->name = calloc(1, sizeof(IA5String_t)); setstr(s->name, v); }
        else if (IS("t") || IS("i") || IS("r") || IS("b")) {
            CustomFieldValues_t *c = s->values = calloc(1, sizeof *c);
            if (IS("t")) { c->present = CustomFieldValues_PR_horusStr; setstr(&c->choice.horusStr, v); }
            else if (IS("i")) {
                c->present = CustomFieldValues_PR_horusInt;
                for (char *p = v; *p; p = strchr(p, ',') ? strchr(p, ',') + 1 : "") ASN_SEQUENCE_ADD(&c->choice.horusInt.list, lp(p));
            } else if (IS("r")) {
                c->present = CustomFieldValues_PR_horusReal;
                for (char *p = v; *p; p = strchr(p, ',') ? strchr(p, ',') + 1 : "") {
                    uint64_t u = *p == 0x6e ? 0x7ff8000000000000ULL : strtoull(p, 0, 16); double *d = malloc(sizeof *d); memcpy(d, &u, 8); ASN_SEQUENCE_ADD(&c->choice.horusReal.list, d);
                }
            } else {
                int m = atoi(v); BOOLEAN_t *f = &c->choice.horusBool.b0;
                c->present = CustomFieldValues_PR_horusBool;
                BitFlags_t *bf = &c->choice.horusBool; (void)f;
                bf->b0 = m & 1; bf->b1 = m >> 1 & 1; bf->b2 = m >> 2 & 1; bf->b3 = m >> 3 & 1; bf->b4 = m >> 4 & 1; bf->b5 = m >> 5 & 1; bf->b6 = m >> 6 & 1; bf->b7 = m >> 7 & 1;
            }
        }
        else if (IS("vel")) t->velocityHorizontalKilometersPerHour = lp(v);
        else if (IS("sat")) t->gnssSatellitesVisible = lp(v);
        else if (IS("asc")) t->ascentRateCentimetersPerSecond = lp(v);
        else if (IS("prs")) t->pressurehPa_x10 = lp(v);
        else if (IS("T")) t->temperatureCelsius_x10 = calloc(1, sizeof(TemperatureSensors_t));
        else if (IS("ti")) t->temperatureCelsius_x10->internal = lp(v);
        else if (IS("te")) t->temperatureCelsius_x10->external = lp(v);
        else if (IS("tc")) t->temperatureCelsius_x10->custom1 = lp(v);
        else if (IS("td")) t->temperatureCelsius_x10->custom2 = lp(v);
        else if (IS("hum")) t->humidityPercentage = lp(v);
        else if (IS("V")) t->milliVolts = calloc(1, sizeof(MilliVoltSensors_t));
        else if (IS("vb")) t->milliVolts->battery = lp(v);
        else if (IS("vs")) t->milliVolts->solar = lp(v);
        else if (IS("vc")) t->milliVolts->custom1 = lp(v);
        else if (IS("vd")) t->milliVolts->custom2 = lp(v);
        else if (IS("cnt")) {
            t->counts = calloc(1, sizeof *t->counts);
            for (char *p = v; *p; p = strchr(p, ',') ? strchr(p, ',') + 1 : "") ASN_SEQUENCE_ADD(&t->counts->list, lp(p));
        }
        else if (IS("gps")) t->gnssPowerSaveState = lp(v);
        else if (IS("cd")) { t->customData = calloc(1, sizeof(OCTET_STRING_t)); setstr(t->customData, v); }
        else { fprintf(stderr, "bad token %s\n", k); exit(9); }
    }
    return t;
}

static char txt[1 << 20]; static size_t tn;
static void put(const char *f, ...) { va_list ap; va_start(ap, f); if (tn < sizeof txt - 200) tn += vsnprintf(txt + tn, sizeof txt - tn, f, ap); va_end(ap); }
static void puthex(const char *k, const OCTET_STRING_t *o) {
    put(" %s=", k);
    for (size_t i = 0; i < o->size && tn < sizeof txt - 200; i++) { txt[tn++] = "0123456789abcdef"[o->buf[i] >> 4]; txt[tn++] = "0123456789abcdef"[o->buf[i] & 15]; }
    txt[tn] = 0;
}
static void canon(Telemetry_t *t) {
    tn = 0; txt[0] = 0;
    puthex("cs", &t->payloadCallsign);
    put(" sn=%ld tod=%ld lat=%ld lon=%ld alt=%ld", t->sequenceNumber, t->timeOfDaySeconds, t->latitude, t->longitude, t->altitudeMeters);
    if (t->extraSensors) {
        put(" X");
        for (int i = 0; i < t->extraSensors->list.count; i++) {
            AdditionalSensorType_t *s = t->extraSensors->list.array[i];
            put(" S");
            if (s->name) puthex("n", s->name);
            if (s->values) {
                CustomFieldValues_t *c = s->values;
                if (c->present == CustomFieldValues_PR_horusStr) puthex("t", &c->choice.horusStr);
                else if (c->present == CustomFieldValues_PR_horusInt)
                    { put(" i="); for (int j = 0; j < c->choice.horusInt.list.count; j++) put("%s%ld", j ? "," : "", *c->choice.horusInt.list.array[j]); }
                else if (c->present == CustomFieldValues_PR_horusReal) {
                    put(" r=");
                    for (int j = 0; j < c->choice.horusReal.list.count; j++) {
                        double d = *c->choice.horusReal.list.array[j]; uint64_t u; memcpy(&u, &d, 8);
                        if (d != d) put("%snan", j ? "," : ""); else put("%s%016llx", j ? "," : "", (unsigned long long)u);
                    }
                } else if (c->present == CustomFieldValues_PR_horusBool) {
                    BitFlags_t *b = &c->choice.horusBool;
                    put(" b=%d", !!b->b0 | !!b->b1 << 1 | !!b->b2 << 2 | !!b->b3 << 3 | !!b->b4 << 4 | !!b->b5 << 5 | !!b->b6 << 6 | !!b->b7 << 7);
                } else put(" ?choice%d", c->present);
            }
        }
    }
#define L(k, f) if (f) put(" " k "=%ld", *(f))
    L("vel", t->velocityHorizontalKilometersPerHour); L("sat", t->gnssSatellitesVisible); L("asc", t->ascentRateCentimetersPerSecond); L("prs", t->pressurehPa_x10);
    if (t->temperatureCelsius_x10) { TemperatureSensors_t *x = t->temperatureCelsius_x10; put(" T"); L("ti", x->internal); L("te", x->external); L("tc", x->custom1); L("td", x->custom2); }
    L("hum", t->humidityPercentage);
    if (t->milliVolts) { MilliVoltSensors_t *x = t->milliVolts; put(" V"); L("vb", x->battery); L("vs", x->solar); L("vc", x->custom1); L("vd", x->custom2); }
    if (t->counts) { put(" cnt="); for (int j = 0; j < t->counts->list.count; j++) put("%s%ld", j ? "," : "", *t->counts->list.array[j]); }
    L("gps", t->gnssPowerSaveState);
    if (t->customData) puthex("cd", t->customData);
}
static int constraints(Telemetry_t *t) { char e[256]; size_t n = sizeof e; return asn_check_constraints(&asn_DEF_Telemetry, t, e, &n) == 0; }
static void hexout(const unsigned char *b, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", b[i]); }

static void serve(void) {
    static char line[1 << 18]; static unsigned char in[1 << 17], out[1 << 17];
    while (fgets(line, sizeof line, stdin)) {
        if (line[0] == 'E') {                                         /* E <tokens>  ->  <ok> <bits|-1> <hex> */
            Telemetry_t *t = build(line + 2);
            int ok = constraints(t);
            asn_enc_rval_t e = uper_encode_to_buffer(&asn_DEF_Telemetry, 0, t, out, sizeof out);
            printf("%d %ld ", ok, (long)e.encoded);
            if (e.encoded >= 0) hexout(out, (e.encoded + 7) / 8);
            printf("\n");
            ASN_STRUCT_FREE(asn_DEF_Telemetry, t);
        } else {                                                      /* D <hex>  ->  <code> <bits> <ok> <tokens> */
            size_t n = unhex(line + 2, in);
            unsigned char *b = malloc(n ? n : 1); memcpy(b, in, n);
            Telemetry_t *t = 0;
            asn_dec_rval_t d = uper_decode(0, &asn_DEF_Telemetry, (void **)&t, b, n, 0, 0);
            if (d.code == RC_OK) { canon(t); printf("0 %ld %d%s\n", (long)d.consumed, constraints(t), txt); }
            else printf("%d %ld 0\n", d.code, (long)d.consumed);
            ASN_STRUCT_FREE(asn_DEF_Telemetry, t); free(b);
        }
    }
}

/* ---------------------------------------------------------------- safety exploration */
static long n_ok, n_fail, n_more, n_valid, n_dec;
static char keep[1 << 20];
static unsigned char re[1 << 17];
extern void __lsan_do_leak_check(void) __attribute__((weak));
extern int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
static void on_alarm(int s) { (void)s; printf("VIOL hang|case #%ld %s: decoder still running after 20 s\n", mc_idx, mc_case); fflush(stdout); _exit(3); }

/* one input of n bytes, the last `unused` bits of it not part of the message; `trunc`: a proper prefix of a complete message of the given bits */
static void feed(const unsigned char *src, size_t n, int unused, long fullbits) {
    unsigned char *b = malloc(n ? n : 1); memcpy(b, src, n);
    Telemetry_t *t = 0;
    alarm(20);
    asn_dec_rval_t d = uper_decode(0, &asn_DEF_Telemetry, (void **)&t, b, n, 0, unused);
    n_dec++;
    long given = (long)n * 8 - unused;
    if (d.code != RC_OK && d.code != RC_FAIL && d.code != RC_WMORE) mc_violation("return-code", "decoder returned %d", d.code);
    if ((long)d.consumed > given || (long)d.consumed < 0) mc_violation("consumed", "claims %ld bits of %ld (code %d)", (long)d.consumed, given, d.code);
    if (d.code == RC_OK) {
        n_ok++;
        if (fullbits > 0 && given < fullbits) mc_violation("truncated-accepted", "%ld of %ld bits accepted as a complete message", given, fullbits);
        if (!t) mc_violation("no-value", "success without a value");
        else {
            canon(t); memcpy(keep, txt, tn + 1);
            if (constraints(t)) {
                n_valid++;
                asn_enc_rval_t e = uper_encode_to_buffer(&asn_DEF_Telemetry, 0, t, re, sizeof re);
                if (e.encoded < 0) mc_violation("reencode-refused", "accepted value cannot be encoded again (%s):%s", e.failed_type ? e.failed_type->name : "?", keep);
                else {
                    Telemetry_t *u = 0; size_t m = (e.encoded + 7) / 8; unsigned char *c = malloc(m ? m : 1); memcpy(c, re, m);
                    asn_dec_rval_t f = uper_decode_complete(0, &asn_DEF_Telemetry, (void **)&u, c, m);
                    if (f.code != RC_OK) mc_violation("reencode-refused", "own encoding of an accepted value is refused (%d):%s", f.code, keep);
                    else { canon(u); if (strcmp(keep, txt)) mc_violation("reencode-differs", "accepted%s, after encoding again%s", keep, txt); }
                    ASN_STRUCT_FREE(asn_DEF_Telemetry, u); free(c);
                }
            }
        }
    } else if (d.code == RC_FAIL) n_fail++; else n_more++;
    ASN_STRUCT_FREE(asn_DEF_Telemetry, t);
    if (unused == 0) {
        t = 0;
        asn_dec_rval_t g = uper_decode_complete(0, &asn_DEF_Telemetry, (void **)&t, b, n);
        if ((g.code == RC_OK) != (d.code == RC_OK) && n) mc_violation("complete-differs", "uper_decode says %d, uper_decode_complete %d", d.code, g.code);
        if (g.code == RC_OK && (g.consumed > n)) mc_violation("consumed", "uper_decode_complete claims %ld of %ld bytes", (long)g.consumed, (long)n);
        ASN_STRUCT_FREE(asn_DEF_Telemetry, t);
    }
    alarm(0);
    free(b);
}

int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "serve")) { setvbuf(stdout, 0, _IOLBF, 1 << 16); serve(); return 0; }
    mc_init(argc, argv);
    signal(SIGALRM, on_alarm);
    static unsigned char msg[1 << 18], b[1 << 18];
    static char line[1 << 20];
    long sub = atol(mc_arg(argc, argv, "--subst", "0")), two = atol(mc_arg(argc, argv, "--two", "0")), tiny = atol(mc_arg(argc, argv, "--tiny", "2"));
    FILE *f = fopen(mc_arg(argc, argv, "--corpus", ""), "r");
    long corpus = 0, structs = 0;
    while (f && fgets(line, sizeof line, f)) {                        /* "<bits> <hex>" */
        int big = line[0] == 'L';                                      /* structure variant: may be legal or not, so no claim about its truncations */
        if (big) {
            char *q = line + 2; long bits = atol(q); size_t n = unhex(strchr(q, ' ') + 1, msg);
            structs++;
            if (!mc_next("structure %ld (%zu bytes, starting %02x%02x%02x)", structs, n, msg[0], msg[1], msg[2])) continue;
            feed(msg, n, (8 - bits % 8) % 8, 0);
            for (long k = 0; k < bits; k++) if (k < 400 || bits - k < 300 || k % 131072 < 40 || k % 131072 > 131032 || (n > 2000 ? k % 16384 == 5 : n < 60 || k % 97 == 0)) feed(msg, (k + 7) / 8, (8 - k % 8) % 8, 0);
            memcpy(b, msg, n); memset(b + n, 0, 64); feed(b, n + 64, 0, 0); memset(b + n, 0xff, 64); feed(b, n + 64, 0, 0);
            for (long i = 0; i < bits; i++) if (n < 60 || (i > 180 && i < 330) || bits - i < 24 || (i % 131072 > 150 && i % 131072 < 320 && n > 16000)) { memcpy(b, msg, n); b[i / 8] ^= 0x80 >> i % 8; feed(b, n, 0, 0); }
            continue;
        }
        long bits = atol(line); size_t n = unhex(strchr(line, ' ') + 1, msg);
        corpus++;
        if (mc_next("message %ld (%zu bytes): all truncations", corpus, n)) {
            for (long k = 0; k <= bits; k++) feed(msg, (k + 7) / 8, (8 - k % 8) % 8, bits);
            memcpy(b, msg, n); memset(b + n, 0, 128); feed(b, n + 64, 0, 0); memset(b + n, 0xff, 128); feed(b, n + 64, 0, 0);
        }
        if (mc_next("message %ld (%zu bytes): all single and adjacent bit flips, cut at each end", corpus, n))
            for (long i = 0; i < (long)n * 8; i++) {
                memcpy(b, msg, n); b[i / 8] ^= 0x80 >> i % 8; feed(b, n, 0, 0);
                if (i + 1 < (long)n * 8) { b[(i + 1) / 8] ^= 0x80 >> (i + 1) % 8; feed(b, n, 0, 0); }
                memset(b + n, 0, 64); feed(b, n + 64, 0, 0);
            }
        long lim = two < 0 ? (long)n * 8 : two;                       /* all pairs of flips inside the first `two` bits */
        if (lim > (long)n * 8) lim = n * 8;
        for (long i = 0; i < lim; i++) if (mc_next("message %ld (%zu bytes): bit %ld and every later one flipped", corpus, n, i))
            for (long j = i + 1; j < lim; j++) {
                memcpy(b, msg, n); b[i / 8] ^= 0x80 >> i % 8; b[j / 8] ^= 0x80 >> j % 8; feed(b, n, 0, 0);
            }
        if (sub) for (size_t i = 0; i < n; i++) if (mc_next("message %ld (%zu bytes): byte %zu replaced by every value, alone and with everything after it cut or set", corpus, n, i))
            for (int v = 0; v < 256; v++) {
                memcpy(b, msg, n); b[i] = v; feed(b, n, 0, 0);
                feed(b, i + 1, 0, 0);
                memset(b + i + 1, 0xff, n - i - 1); memset(b + n, 0xff, 40); feed(b, n + 40, 0, 0);
                memset(b + i + 1, 0, n - i - 1 + 40); feed(b, n + 40, 0, 0);
            }
    }
    if (f) fclose(f);
    if (mc_next("empty input")) feed(b, 0, 0, 0);
    for (int v = 0; v < 256; v++) if (mc_next("inputs of 1..%ld bytes starting %02x", tiny, v)) {
        b[0] = v; feed(b, 1, 0, 0);
        for (int w = 0; w < 256; w++) {
            b[1] = w; feed(b, 2, 0, 0);
            if (tiny >= 3) for (int x = 0; x < 256; x++) { b[2] = x; feed(b, 3, 0, 0); }
            /* every two-byte head in front of long uniform tails: drives deep into the optional fields */
            memset(b + 2, 0x00, 200); feed(b, 120, 0, 0);
            memset(b + 2, 0xff, 200); feed(b, 120, 0, 0);
            for (int q = 0; q < 120; q++) b[2 + q] = q & 1 ? 0x55 : 0xaa; feed(b, 120, 0, 0);
        }
    }
    mc_stat("inputs_decoded", n_dec); mc_stat("accepted", n_ok); mc_stat("accepted_within_constraints", n_valid); mc_stat("refused", n_fail); mc_stat("asked_for_more", n_more);
    if (mc_shard == 0) printf("MAX corpus_messages %ld\n", corpus);
    return mc_done();
}
