From f720369bd67d208617c59e8233f9eb7a88a7cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 01/48] fix: do not read past the end of a received packet when
 its parity fills whole bytes

---
 src/horus_l2.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/horus_l2.c b/src/horus_l2.c
index 96cb0d1..ca695e5 100644
--- a/src/horus_l2.c
+++ b/src/horus_l2.c
@@ -304,9 +304,8 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
     unsigned char *pin  = input_rx_data;
     int            ninbit, ingolay, ningolay, paritybyte, nparitybits;
     int            ninbyte, shift, inbit, golayparitybit, i, outbit, outbyte, noutbits, outdata;
-    #if defined(SCRAMBLER) || defined(INTERLEAVER)
     int num_tx_data_bytes = horus_l2_get_num_tx_data_bytes(num_payload_data_bytes);
-    #endif
+    unsigned char *pin_end = input_rx_data + num_tx_data_bytes;
     
     /* optional scrambler and interleaver - we dont interleave UW */
 
@@ -369,8 +368,8 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
                     ingolay <<=1;
                 nparitybits++;
                 if ((nparitybits % 8) == 0) {
-                    /* OK grab a new byte */
-                    paritybyte = *pin++;
+                    /* OK grab a new byte, unless that was the last one */
+                    paritybyte = (pin < pin_end) ? *pin++ : 0;
                     #ifdef DEBUG0
                     fprintf(stderr,"  Read paritybyte: 0x%02x\n", paritybyte);
                     #endif
@@ -427,8 +426,8 @@ void horus_l2_decode_rx_packet(unsigned char *output_payload_data,
                 golayparity <<=1;
             nparitybits++;
             if ((nparitybits % 8) == 0) {
-                /* OK grab a new byte */
-                paritybyte = *pin++;
+                /* OK grab a new byte, unless that was the last one */
+                paritybyte = (pin < pin_end) ? *pin++ : 0;
                 #ifdef DEBUG0
                 fprintf(stderr,"  Read paritybyte: 0x%02x\n", paritybyte);
                 #endif
-- 
2.43.0


From d0b932cb82e1a70d9014dd0ce6b01942f292ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 02/48] fix: keep RTTY extraction inside the received bits and
 the output buffer

---
 src/horus_api.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 01cd1a9..a65dd8c 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -334,7 +334,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     const int nfield = ascii_bits;                      /* 7 or 8 bit ASCII                    */
     const int npad   = stop_bits + 1;                   /* N stop bits + start bit between characters */
     int st = uw_loc;                                    /* first bit of first char        */
-    int en = st + hstates->max_packet_len - nfield;          /* last bit of max length packet  */
+    int en = st + hstates->max_packet_len - npad;            /* end of the last character of a max length packet  */
 
     if (en > hstates->rx_bits_len){
         if (hstates->verbose) {
@@ -391,7 +391,9 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
                 fprintf(stderr, "  begin endpacket\n");
             }
             // Only process up to the next 5 characters (checksum + line ending)
-            en = i + (ascii_bits+stop_bits+1)*5;
+            if (i + (nfield+npad)*5 < en) {
+                en = i + (nfield+npad)*5;
+            }
         }
 
         /* build up output array, really only need up to tx crc but
@@ -405,7 +407,7 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
     /* if we found the end of packet flag and have enough chars to compute checksum ... */
 
     //fprintf(stderr, "\n\ntx CRC...\n");
-    if (endpacket && (pout > (ptx_crc+3))) {
+    if (endpacket && (pout > (ptx_crc+3)) && (ptx_crc+4 < ascii_out+horus_get_max_ascii_out_len(hstates))) {
         tx_crc = 0;
         for(i=0; i<4; i++) {
             tx_crc <<= 4;
-- 
2.43.0


From 7ce92f85b278bbaa760229b35a5e647c98379301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 03/48] fix: check RTTY checksum digits and only strip received
 leading dollar signs

---
 src/horus_api.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index a65dd8c..0f4d548 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -375,11 +375,8 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
             endpacket = 1;
             rtty_start = 0;
             // Find the end of the $$s
-            for(k = 0; k<8; k++){
-                if(ascii_out[k] != 36){
-                    rtty_start = k;
-                    break;
-                }
+            for(k = 0; k<8 && k<nout && ascii_out[k] == 36; k++){
+                rtty_start = k+1;
             }
             if(hstates->verbose){
                 fprintf(stderr, "  Found %d $s\n", rtty_start);
@@ -408,15 +405,19 @@ int extract_horus_rtty(struct horus *hstates, char ascii_out[], int uw_loc, int
 
     //fprintf(stderr, "\n\ntx CRC...\n");
     if (endpacket && (pout > (ptx_crc+3)) && (ptx_crc+4 < ascii_out+horus_get_max_ascii_out_len(hstates))) {
+        int crc_valid = 1;
         tx_crc = 0;
         for(i=0; i<4; i++) {
             tx_crc <<= 4;
             tx_crc |= hex2int(ptx_crc[i]);
+            if (hex2int(ptx_crc[i]) < 0) {
+                crc_valid = 0;
+            }
             if (hstates->verbose){
                 fprintf(stderr, "ptx_crc[%d] %c 0x%02X tx_crc: 0x%04X\n", i, ptx_crc[i], hex2int(ptx_crc[i]), tx_crc);
             }
         }
-        crc_ok = (tx_crc == rx_crc);
+        crc_ok = crc_valid && (tx_crc == rx_crc);
         *(ptx_crc+4) = 0;  /* terminate ASCII string */
 
         if (crc_ok) {
-- 
2.43.0


From fea4b649d3da0b7840bfdfc4617f62fb1ff3f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 04/48] fix: report an RTTY sentence once however many dollar
 signs lead it

---
 src/horus_api.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 0f4d548..98b7af9 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -714,8 +714,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int found_loc = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - found_loc < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -731,8 +732,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int found_loc = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - found_loc < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -747,8 +749,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
 
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
+                int found_loc = hstates->uw_loc[uw_idx];
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - hstates->uw_loc[uw_idx] < 100) {
+                    if (hstates->uw_loc[uw_idx_clear]  - found_loc < 100) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
-- 
2.43.0


From 660543d8ccdd8ba46623b48cb5da5ffd150217e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 05/48] fix: release the soft bits and the averaged spectrum
 when a receiver is closed

---
 src/fsk.c       | 1 +
 src/horus_api.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/fsk.c b/src/fsk.c
index f88bb9c..05c5a09 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -252,6 +252,7 @@ struct FSK * fsk_create_hbr(int Fs, int Rs, int M, int P, int Nsym, int tx_f1, i
 void fsk_destroy(struct FSK *fsk){
     free(fsk->f_dc);
     free(fsk->fft_cfg);
+    free(fsk->Sf);
     free(fsk->stats);
     free(fsk->hann_table);
     free(fsk);
diff --git a/src/horus_api.c b/src/horus_api.c
index 98b7af9..8217721 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -259,6 +259,7 @@ void horus_close (struct horus *hstates) {
     assert(hstates != NULL);
     fsk_destroy(hstates->fsk);
     free(hstates->rx_bits);
+    free(hstates->soft_bits);
     free(hstates);
 }
 
-- 
2.43.0


From 60daadd49615a6a80e9ab34f559b5fa1f61d59b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:10 +0000
Subject: [PATCH 06/48] fix: give the receiver's version and statistics defined
 values before the first block

---
 src/fsk.c       | 7 ++++++-
 src/horus_api.c | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fsk.c b/src/fsk.c
index 05c5a09..fc8dc36 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -191,8 +191,11 @@ struct FSK * fsk_create_core(int Fs, int Rs, int M, int P, int Nsym, int tx_f1,
     /* Set up demod stats */
     fsk->EbNodB = 0;
     
-    for( i=0; i<M; i++)
+    for( i=0; i<M; i++) {
         fsk->f_est[i] = 0; 
+        fsk->f2_est[i] = 0;
+    }
+    fsk->freq_est_type = 0;
     
     fsk->ppm = 0;
     
@@ -956,6 +959,8 @@ static void stats_init(struct FSK *fsk) {
     int P = fsk->P;
     int M = fsk->mode;
 
+    memset(fsk->stats, 0, sizeof(struct MODEM_STATS));
+
     /* due to oversample rate P, we have too many samples for eye
        trace.  So lets output a decimated version */
 
diff --git a/src/horus_api.c b/src/horus_api.c
index 8217721..24534cf 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -250,6 +250,7 @@ struct horus *horus_open_advanced_sample_rate (int mode, int Rs, int tx_tone_spa
     }
 
     hstates->crc_ok = 0;
+    hstates->version = 0;
     hstates->total_payload_bits = 0;
     
     return hstates;
-- 
2.43.0


From b9da654e14922a93bce9be6b899ed304a786487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:11 +0000
Subject: [PATCH 07/48] fix: keep the eye diagram numeric while the input is
 silent

---
 src/fsk.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fsk.c b/src/fsk.c
index fc8dc36..edd9b3e 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -914,9 +914,11 @@ void fsk_demod_core(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[], COMP fsk_
                 if(fabsf(fsk->stats->rx_eye[i][j])>eye_max)
                     eye_max = fabsf(fsk->stats->rx_eye[i][j]);
         
-        for(i=0; i<M*eye_traces; i++)
-            for(j=0; j<neyesamp; j++)
-                fsk->stats->rx_eye[i][j] = fsk->stats->rx_eye[i][j]/eye_max;
+        if (eye_max > 0) {
+            for(i=0; i<M*eye_traces; i++)
+                for(j=0; j<neyesamp; j++)
+                    fsk->stats->rx_eye[i][j] = fsk->stats->rx_eye[i][j]/eye_max;
+        }
     }
 
     fsk->stats->nr = 0;
-- 
2.43.0


From 07bc3587fbcc65d3e0b6ece06cc04f350b18f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 08/48] fix: clip minutes and ascent rate of generated v2
 packets to their nearest valid value

---
 horusdemodlib/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horusdemodlib/encoder.py b/horusdemodlib/encoder.py
index 97e19b8..820b579 100644
--- a/horusdemodlib/encoder.py
+++ b/horusdemodlib/encoder.py
@@ -218,7 +218,7 @@ class Encoder():
             minutes = int(minutes)
             if minutes < 0:
                 minutes = 0
-            elif minutes < 59:
+            elif minutes > 59:
                 minutes = 59
 
             seconds = int(seconds)
@@ -283,7 +283,7 @@ class Encoder():
         # Ascent rate is in the range -327.68 to 327.67 m/s
         ascent_rate_100 = int(ascent_rate*100)
         if ascent_rate_100 < -32768:
-            ascent_rate_100 = 32768
+            ascent_rate_100 = -32768
         elif ascent_rate_100 > 32767:
             ascent_rate_100 = 32767
 
-- 
2.43.0


From b00c5bed772aad519d64e94e9681ccfa320242c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 09/48] fix: refuse packets whose latitude or longitude is not
 a number

---
 horusdemodlib/delegates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/delegates.py b/horusdemodlib/delegates.py
index d6ba793..c528584 100644
--- a/horusdemodlib/delegates.py
+++ b/horusdemodlib/delegates.py
@@ -92,7 +92,7 @@ def decode_degree_float(data:float) -> str:
     if type(data) != float:
         raise ValueError("decimal_degrees - Invalid input type.")
 
-    if (data < -180.0) or (data > 180.0):
+    if not (-180.0 <= data <= 180.0):
         raise ValueError(f"decimal_degrees - Value ({data}) out of range -180 - 180.")
 
     return (data, f"{data:.5f}")
-- 
2.43.0


From 1ac0a8d9d11f4eebe7623ae0ef6231d3a8702ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 10/48] fix: skip a custom field entry that is not an object
 instead of abandoning the list

---
 horusdemodlib/payloads.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index b068cb3..12467e0 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -197,6 +197,10 @@ def parse_custom_field_list(text_data):
         for _payload in _field_data:
             _data = _field_data[_payload]
 
+            if type(_data) != dict:
+                logging.error(f"Custom Field List Parser - Custom field data for {_payload} is not a JSON object, skipping.")
+                continue
+
             if ("struct" in _data) and ("fields" in _data):
                 # Check the struct value has the right length
                 try:
-- 
2.43.0


From bc46e4c685b54f2061c8ae98a2a00f7a7970a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 11/48] fix: skip custom field entries which could not be used
 to decode a packet

---
 horusdemodlib/payloads.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index 12467e0..c20e829 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -176,6 +176,24 @@ def init_payload_id_list(filename="payload_id_list.txt", nodownload=False):
     return HORUS_PAYLOAD_LIST
 
 
+def check_custom_field(field_struct, fields):
+    """
+    Check that a custom field description can be used to decode a packet. Raises an exception if it cannot.
+    """
+    # Imported here because delegates itself imports this module.
+    from .delegates import decode_field
+
+    _values = struct.unpack(field_struct, b'\x00' * HORUS_CUSTOM_FIELD_LENGTH)
+
+    if len(fields) != len(_values):
+        raise ValueError(f"struct contains {len(_values)} values, but {len(fields)} fields are listed.")
+
+    for (_field, _value) in zip(fields, _values):
+        if type(_field[0]) != str:
+            raise ValueError(f"Invalid field name {_field[0]}.")
+        (_decoded, _decoded_str) = decode_field(_field[1], _value)
+
+
 def parse_custom_field_list(text_data):
     """
     Parse JSON containing descriptions of custom payload fields,
@@ -207,6 +225,8 @@ def parse_custom_field_list(text_data):
                     _structsize = struct.calcsize(_data["struct"])
 
                     if _structsize == HORUS_CUSTOM_FIELD_LENGTH:
+                        check_custom_field(_data["struct"], _data["fields"])
+
                         _custom_field_list[_payload] = {
                             "struct": _data["struct"],
                             "fields": _data["fields"]
-- 
2.43.0


From bfc1cd4adb5e5b535c08a4ceed11397cb4332e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 12/48] fix: skip only the invalid entries of other_payloads in
 the custom field list

---
 horusdemodlib/payloads.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index c20e829..50110fb 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -237,6 +237,10 @@ def parse_custom_field_list(text_data):
                         # other payload IDs too.
                         if "other_payloads" in _data:
                             for _other_payload in _data["other_payloads"]:
+                                if type(_other_payload) != str:
+                                    logging.error(f"Custom Field List Parser - Invalid additional payload for {_payload}, skipping: {_other_payload}")
+                                    continue
+
                                 if _other_payload in _custom_field_list:
                                     logging.warning(f"Custom Field List Parser - Custom field data for {_other_payload} is already loaded, overwriting.")
                                 
-- 
2.43.0


From c6bfc5e30d055d26e2e831dc5bc94a6ecb378ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 13/48] fix: skip payload IDs whose callsign cannot be put in a
 telemetry sentence

---
 horusdemodlib/payloads.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index 50110fb..f3012f3 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -79,6 +79,8 @@ def parse_payload_list(text_data):
                     try:
                         _id = int(_params[0])
                         _callsign = _params[1].strip()
+                        # Callsigns end up in ASCII telemetry sentences.
+                        _callsign.encode('ascii')
 
                         # Check to see if a payload ID is already in use and print a warning
                         if _id in _payload_list:
-- 
2.43.0


From 02dcb48ab979a2a7ba124928ae5afcd19a67f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 14/48] fix: do not store a downloaded custom field list that
 cannot be parsed

---
 horusdemodlib/payloads.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index f3012f3..d2df0d0 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -317,6 +317,13 @@ def download_latest_custom_field_list(url=HORUS_CUSTOM_FIELD_URL, filename=None,
         logging.error("Downloaded custom field list is invalid.")
         return None
 
+    try:
+        if type(json.loads(_r.text)) != dict:
+            raise ValueError("Not a JSON object.")
+    except Exception as e:
+        logging.error("Downloaded custom field list is invalid: %s" % str(e))
+        return None
+
     _custom_field_list = parse_custom_field_list(_r.text)
 
     if filename != None:
-- 
2.43.0


From f90dc1b8791e29de4d64a23c5544314b9610beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 15/48] fix: do not report the invalid-altitude marker of
 version 3 packets as a field

---
 horusdemodlib/decoder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index f53cd2e..35c4c31 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -179,8 +179,9 @@ def decode_packet(data:bytes, packet_format:dict = None, ignore_crc:bool = False
         _output["packet_format"]['length'] = len(data)
 
         
-        if _raw_fields["altitudeMeters"] != -1000:
-            _output["altitude"] = _raw_fields.pop("altitudeMeters") 
+        _altitude = _raw_fields.pop("altitudeMeters")
+        if _altitude != -1000:
+            _output["altitude"] = _altitude
             _output["packet_format"]["fields"].append(["altitude", "none"])
 
         if 'gnssSatellitesVisible' in _raw_fields:
-- 
2.43.0


From 989dcd39d74f2ed598c1448151ed4e489a59a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 16/48] fix: do not report 23:59:59 for version 3 packets with
 unknown time, and do not fail on those without altitude

---
 horusdemodlib/decoder.py | 13 ++++++++-----
 horusdemodlib/utils.py   |  5 +++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index 35c4c31..b36706c 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -280,11 +280,14 @@ def decode_packet(data:bytes, packet_format:dict = None, ignore_crc:bool = False
                             _output["custom_field_names"].append(sensor_field_name_key)
         
 
-        payload_timestamp = datetime.timedelta(seconds=_raw_fields.pop("timeOfDaySeconds"))
-        _output["time"] = (
-                                datetime.datetime.now(tz=datetime.timezone.utc).replace(hour=0,minute=0,second=0) + 
-                                payload_timestamp
-                          ).strftime("%H:%M:%S")
+        _time_of_day = _raw_fields.pop("timeOfDaySeconds")
+        # -1 is used when the payload does not know the time.
+        if _time_of_day != -1:
+            payload_timestamp = datetime.timedelta(seconds=_time_of_day)
+            _output["time"] = (
+                                    datetime.datetime.now(tz=datetime.timezone.utc).replace(hour=0,minute=0,second=0) + 
+                                    payload_timestamp
+                              ).strftime("%H:%M:%S")
             
         _output.update(_raw_fields)
     else:
diff --git a/horusdemodlib/utils.py b/horusdemodlib/utils.py
index 6d89c32..9074ebe 100644
--- a/horusdemodlib/utils.py
+++ b/horusdemodlib/utils.py
@@ -45,6 +45,11 @@ def telem_to_sondehub(telemetry, metadata=None, check_time=True):
         return None
     
     # Mandatory Fields
+    # Version 3 payloads may not know the time, or their altitude.
+    if ("time" not in telemetry) or ("altitude" not in telemetry):
+        logging.error("SondeHub Data Reformatter - Telemetry has no valid time or altitude. Not uploading.")
+        return None
+
     # Datetime
     try:
         _datetime = fix_datetime(telemetry['time'])
-- 
2.43.0


From 4f97b9c1d3a15a850efafd4aa2981c0f91579386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 17/48] fix: check the checksum of version 3 packets given with
 their format, and report a bad one as bad

---
 horusdemodlib/decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index b36706c..eb9197b 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -134,10 +134,12 @@ def decode_packet(data:bytes, packet_format:dict = None, ignore_crc:bool = False
     if packet_format['name'] != "Horus Binary v3":
         # check CRC first as it might be horus binary v3 that hasn't completed yet
         _crc_ok = check_packet_crc(data, checksum=packet_format['checksum'])
+    else:
+        _crc_ok = check_packet_crc(data, checksum=packet_format['checksum'], tail=False)
     if (not _crc_ok) and (not ignore_crc):
         raise ValueError("Decoder - CRC Failure.")
     else:
-        _output['crc_ok'] = True
+        _output['crc_ok'] = _crc_ok
     
     # Report the modulation type
     if 'v1' in packet_format['name']:
-- 
2.43.0


From 2ea4553043bc64e31c26edd19375dc36a1733330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 18/48] fix: leave custom fields without a JSON representation
 out of uploads

---
 horusdemodlib/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/utils.py b/horusdemodlib/utils.py
index 9074ebe..a7733e7 100644
--- a/horusdemodlib/utils.py
+++ b/horusdemodlib/utils.py
@@ -9,6 +9,7 @@
 #
 import datetime
 import logging
+import math
 from .delegates import fix_datetime
 import unittest
 import traceback
@@ -143,6 +144,9 @@ def telem_to_sondehub(telemetry, metadata=None, check_time=True):
     if "custom_field_names" in telemetry:
         for _custom_field_name in telemetry["custom_field_names"]:
             if _custom_field_name in telemetry:
+                # NaN and infinity have no JSON representation.
+                if type(telemetry[_custom_field_name]) == float and not math.isfinite(telemetry[_custom_field_name]):
+                    continue
                 _output[_custom_field_name] = telemetry[_custom_field_name]
 
     logging.debug(f"SondeHub Data Reformatter - Generated Packet: {str(_output)}")
-- 
2.43.0


From 6b1c78531ba9db17915237b15d4dbe71caf95199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 19/48] fix: refuse sentences whose position is out of range or
 not a number

---
 horusdemodlib/decoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horusdemodlib/decoder.py b/horusdemodlib/decoder.py
index eb9197b..2f96a26 100644
--- a/horusdemodlib/decoder.py
+++ b/horusdemodlib/decoder.py
@@ -434,6 +434,9 @@ def parse_ukhas_string(sentence:str) -> dict:
     #if _latitude == 0.0 or _longitude == 0.0:
     #    raise ValueError("Could not parse RTTY Sentence - Zero Lat/Long.")
 
+    if not (-90.0 <= _latitude <= 90.0) or not (-180.0 <= _longitude <= 180.0):
+        raise ValueError("Could not parse RTTY Sentence - Invalid Position.")
+
     # Place a limit on the altitude field. We generally store altitude on the payload as a uint16, so it shouldn't fall outside these values.
     if _altitude > 65535 or _altitude < 0:
         raise ValueError("Could not parse RTTY Sentence - Invalid Altitude.")
-- 
2.43.0


From 1f9e4bb533806a32b78762e68f9222ada18e3a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 20/48] fix: ignore lines that are not hexadecimal instead of
 exiting

---
 horusdemodlib/uploader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index bf0f4df..df0c6c6 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -214,7 +214,7 @@ def main():
                 logging.info(f"Received raw binary packet: {data}")
                 try:
                     _binary_string = codecs.decode(data, 'hex')
-                except TypeError as e:
+                except (TypeError, ValueError) as e:
                     logging.error("Error parsing line as hexadecimal (%s): %s" % (str(e), data))
                     continue
 
-- 
2.43.0


From fa0c3dcfc16f2128de86cfa2a47bac9abaddfed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 21/48] fix: end cleanly when uploads are disabled

---
 horusdemodlib/sondehubamateur.py | 2 ++
 horusdemodlib/uploader.py        | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/sondehubamateur.py b/horusdemodlib/sondehubamateur.py
index a8a76e8..24f300d 100644
--- a/horusdemodlib/sondehubamateur.py
+++ b/horusdemodlib/sondehubamateur.py
@@ -88,6 +88,8 @@ class SondehubAmateurUploader(object):
 
         # Input Queue.
         self.input_queue = Queue()
+        self.input_processing_running = False
+        self.input_process_thread = None
 
         # Record of when we last uploaded a user station position to Sondehub.
         self.last_user_position_upload = 0
diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index df0c6c6..0e66d3d 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -286,7 +286,8 @@ def main():
         logging.info("Caught CTRL-C, exiting.")
 
     sondehub_uploader.close()
-    sondehub_uploader.input_process_thread.join()
+    if sondehub_uploader.input_process_thread:
+        sondehub_uploader.input_process_thread.join()
 
 class HorusUploaderTests(unittest.TestCase):
     class mockArgs():
-- 
2.43.0


From 697c83f08a06de8ea0e7943fd2bf14a1ac470cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 22/48] fix: survive input lines that are not valid text

---
 horusdemodlib/uploader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/horusdemodlib/uploader.py b/horusdemodlib/uploader.py
index 0e66d3d..cd5b6b5 100644
--- a/horusdemodlib/uploader.py
+++ b/horusdemodlib/uploader.py
@@ -145,6 +145,10 @@ def main():
 
     demod_stats = FSKDemodStats(peak_hold=True)
 
+    # Noise may be decoded into anything, so do not let undecodable bytes stop us.
+    if hasattr(sys.stdin, 'reconfigure'):
+        sys.stdin.reconfigure(errors='replace')
+
     logging.info("Started Horus Demod Uploader. Hit CTRL-C to exit.")
     # Main loop
     try:
-- 
2.43.0


From 12445f88d3ed69da2c1a26dade32255260be69e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 23/48] fix: upload telemetry still queued when the uploader is
 closed

---
 horusdemodlib/sondehubamateur.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/horusdemodlib/sondehubamateur.py b/horusdemodlib/sondehubamateur.py
index 24f300d..7f2ecb9 100644
--- a/horusdemodlib/sondehubamateur.py
+++ b/horusdemodlib/sondehubamateur.py
@@ -164,7 +164,11 @@ class SondehubAmateurUploader(object):
         """
         self.log_info("Started Sondehub Amateur Uploader Thread.")
 
-        while self.input_processing_running:
+        _running = True
+
+        while _running:
+            # Checked before emptying the queue, so that everything added before we were closed is still uploaded.
+            _running = self.input_processing_running
 
             # Process everything in the queue.
             _to_upload = []
@@ -179,6 +183,9 @@ class SondehubAmateurUploader(object):
             if len(_to_upload) > 0:
                 self.upload_telemetry(_to_upload)
 
+            if not _running:
+                break
+
             # If we haven't uploaded our station position recently, re-upload it.
             if (
                 time.time() - self.last_user_position_upload
-- 
2.43.0


From 1de6a68d873bef0a4818343e3eb9fd4244a140fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 24/48] fix: ignore modem statistics that are not usable
 numbers instead of failing

---
 horusdemodlib/demodstats.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/horusdemodlib/demodstats.py b/horusdemodlib/demodstats.py
index 9c37cb0..01c64e7 100644
--- a/horusdemodlib/demodstats.py
+++ b/horusdemodlib/demodstats.py
@@ -92,12 +92,26 @@ class FSKDemodStats(object):
         else:
             return
 
+        if type(_data) != dict:
+            self.log_error("Not a JSON object")
+            return
+
         # Check for required fields in incoming dictionary.
         for _field in self.FSK_STATS_FIELDS:
             if _field not in _data:
                 self.log_error("Missing Field %s" % _field)
                 return
 
+        # The estimates must be usable numbers, and there must be either two or four of them.
+        for _field in ['EbNodB', 'ppm', 'f1_est', 'f2_est', 'f3_est', 'f4_est']:
+            if (_field in _data) and ((type(_data[_field]) not in [int, float]) or not (-1e100 < _data[_field] < 1e100)):
+                self.log_error("Invalid Field %s" % _field)
+                return
+
+        if ('f3_est' in _data) != ('f4_est' in _data):
+            self.log_error("Missing tone estimate")
+            return
+
         # Now we can process the data.
         _time = time.time()
         self.fft = _data['samp_fft']
-- 
2.43.0


From 7f80fa09d1ee51e18fbd3720f35d720bfad26334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 25/48] fix: never let the modem read beyond the samples it was
 given

---
 horusdemodlib/demod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 5b234e5..0dbae23 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -181,6 +181,8 @@ class HorusLib():
         # resample to 48khz
         (demod_in, self.resampler_state) = audioop.ratecv(demod_in, 2, 1+int(self.stereo_iq), self.audio_sample_rate, self.modem_sample_rate, self.resampler_state)
 
+        # The modem always reads nin samples, make sure there are that many.
+        demod_in = demod_in.ljust(self.nin * 2 * (1+int(self.stereo_iq)), b'\x00')
 
         audio_id_data = _horus_api_cffi.ffi.new("char[]",demod_in)
         data_in = _horus_api_cffi.ffi.cast( # cast bytes to short
-- 
2.43.0


From 2c3173c927cecfa92c5b4a324084274359e7e20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 26/48] fix: lose no samples when streaming resampled input,
 nor the last block

---
 horusdemodlib/demod.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/horusdemodlib/demod.py b/horusdemodlib/demod.py
index 0dbae23..4240bab 100644
--- a/horusdemodlib/demod.py
+++ b/horusdemodlib/demod.py
@@ -123,7 +123,7 @@ class HorusLib():
         self.callback = callback
 
         self.input_buffer = bytearray(b"")
-
+        self.modem_buffer = bytearray(b"")
         
 
         # try to open the modem and set the verbosity
@@ -184,6 +184,10 @@ class HorusLib():
         # The modem always reads nin samples, make sure there are that many.
         demod_in = demod_in.ljust(self.nin * 2 * (1+int(self.stereo_iq)), b'\x00')
 
+        return self._demodulate_block(demod_in)
+
+    def _demodulate_block(self, demod_in: bytes) -> Frame:
+        """ Demodulates exactly .nin frames, already at the modem's sample rate """
         audio_id_data = _horus_api_cffi.ffi.new("char[]",demod_in)
         data_in = _horus_api_cffi.ffi.cast( # cast bytes to short
             "short *",
@@ -240,17 +244,24 @@ class HorusLib():
         # Add samples to input buffer
         self.input_buffer.extend(samples)
 
+        # Resample all the whole frames we have to 48khz, keeping everything the modem hasn't asked for yet.
+        _frame_size = 2 * (1+int(self.stereo_iq))
+        _whole = len(self.input_buffer) - (len(self.input_buffer) % _frame_size)
+        (_resampled, self.resampler_state) = audioop.ratecv(self.input_buffer[:_whole], 2, 1+int(self.stereo_iq), self.audio_sample_rate, self.modem_sample_rate, self.resampler_state)
+        self.input_buffer = self.input_buffer[_whole:]
+        self.modem_buffer.extend(_resampled)
+
         _processing = True
         _frame = None
         while _processing:
             # Process data until we have less than _nin samples.
-            _nin = int(self.nin*(self.audio_sample_rate/self.modem_sample_rate)) * (2 if self.stereo_iq else 1)
-            if len(self.input_buffer) > (_nin * 2):
+            _nin = self.nin * _frame_size
+            if len(self.modem_buffer) >= _nin:
                 # Demodulate
-                _frame = self.demodulate(self.input_buffer[:(_nin*2)])
+                _frame = self._demodulate_block(bytes(self.modem_buffer[:_nin]))
 
                 # Advance sample buffer.
-                self.input_buffer = self.input_buffer[(_nin*2):]
+                self.modem_buffer = self.modem_buffer[_nin:]
 
                 # If we have decoded a packet, send it on to the callback
                 if len(_frame.data) > 0:
-- 
2.43.0


From 32fc740a28238d4d08a60c0461f354ee5da793b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 27/48] fix: write packets to the requested output file

---
 src/horus_demod.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/horus_demod.c b/src/horus_demod.c
index 45b3ac9..8acc9ba 100644
--- a/src/horus_demod.c
+++ b/src/horus_demod.c
@@ -247,15 +247,15 @@ int main(int argc, char *argv[]) {
         }
 
         if (horus_rx(hstates, ascii_out, demod_in, quadrature)) {
-            fprintf(stdout, "%s", ascii_out);
+            fprintf(fout, "%s", ascii_out);
             if (crc_results) {
                 if (horus_crc_ok(hstates)) {
-                    fprintf(stdout, "  CRC OK");
+                    fprintf(fout, "  CRC OK");
                 } else {
-                    fprintf(stdout, "  CRC BAD");
+                    fprintf(fout, "  CRC BAD");
                 }
             }
-            fprintf(stdout, "\n");
+            fprintf(fout, "\n");
         }
         
         if (enable_stats && stats_ctr <= 0) {
-- 
2.43.0


From cb18f45972004afc56dc226f686bb81a70f74021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 28/48] fix: keep the frequency estimator range correct at low
 baud rates

---
 src/fsk.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fsk.c b/src/fsk.c
index edd9b3e..cd1a384 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -463,8 +463,8 @@ void fsk_demod_freq_est(struct FSK *fsk, COMP fsk_in[], float *freqs, int M) {
     kiss_fft_cpx *fftout = (kiss_fft_cpx*)malloc(sizeof(kiss_fft_cpx)*Ndft);
     #endif
     
-    st = (fsk->est_min*Ndft)/Fs + Ndft/2; if (st < 0) st = 0;
-    en = (fsk->est_max*Ndft)/Fs + Ndft/2; if (en > Ndft) en = Ndft;
+    st = ((int64_t)fsk->est_min*Ndft)/Fs + Ndft/2; if (st < 0) st = 0;
+    en = ((int64_t)fsk->est_max*Ndft)/Fs + Ndft/2; if (en > Ndft) en = Ndft;
     //fprintf(stderr, "min: %d max: %d st: %d en: %d\n", fsk->est_min, fsk->est_max, st, en);
     
     f_zero = (fsk->est_space*Ndft)/Fs;
-- 
2.43.0


From 6c4e9a8aade4136c77edf7f2f2d7fb97a1914cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 29/48] fix: refuse tone spacings too wide for the sample rate

---
 src/fsk.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fsk.c b/src/fsk.c
index cd1a384..133aa27 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -138,6 +138,9 @@ struct FSK * fsk_create_core(int Fs, int Rs, int M, int P, int Nsym, int tx_f1,
     float bin_width_Hz = 0.1*Rs;
     float Ndft = (float)Fs/bin_width_Hz;
     Ndft = pow(2.0, ceil(log2(Ndft)));
+
+    /* The mask of all tones used by the frequency estimator must fit in the spectrum */
+    assert( round((float)(M-1)*tx_fs*Ndft/Fs)+2 <= Ndft );
     
     /* Set constant config parameters */
     fsk->Fs = Fs;
-- 
2.43.0


From a6e72dc262cbeeb7b4efbb422ed266d4f8b06bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 30/48] fix: include the temperature in payload summary
 messages

---
 horusdemodlib/horusudp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horusdemodlib/horusudp.py b/horusdemodlib/horusudp.py
index d9e06dd..7475187 100644
--- a/horusdemodlib/horusudp.py
+++ b/horusdemodlib/horusudp.py
@@ -48,6 +48,9 @@ def send_payload_summary(telemetry, port=55672, comment="HorusDemodLib"):
         if "f_centre" in telemetry:
             packet["frequency"] = telemetry["f_centre"] / 1e6 # Hz -> MHz
 
+        if 'temperature' in telemetry:
+            packet['temp'] = telemetry['temperature']
+
         if 'satellites' in telemetry:
             packet['sats'] = telemetry['satellites']
         
-- 
2.43.0


From e7a0d9af1e797cd0fa39476b2367b8361d5dfae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:01 +0000
Subject: [PATCH 31/48] fix: never leave a partly written payload or custom
 field list behind

---
 horusdemodlib/payloads.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/horusdemodlib/payloads.py b/horusdemodlib/payloads.py
index d2df0d0..0c112af 100644
--- a/horusdemodlib/payloads.py
+++ b/horusdemodlib/payloads.py
@@ -124,6 +124,22 @@ def read_payload_list(filename="payload_id_list.txt"):
     return payload_list
 
 
+def write_list_file(filename, text_data):
+    """
+    Write a downloaded list out to a file, such that an error part-way through writing cannot damage the existing file.
+    """
+    _temp_filename = filename + ".tmp"
+
+    try:
+        with open(_temp_filename, 'w') as f:
+            f.write(text_data)
+        os.replace(_temp_filename, filename)
+    except Exception:
+        if os.path.exists(_temp_filename):
+            os.remove(_temp_filename)
+        raise
+
+
 def download_latest_payload_id_list(url=PAYLOAD_ID_LIST_URL, filename=None, timeout=10):
     """
     Attempt to download the latest payload ID list from Github, and parse into a dictionary. 
@@ -149,8 +165,7 @@ def download_latest_payload_id_list(url=PAYLOAD_ID_LIST_URL, filename=None, time
     # Write out to file, if we have been given a filename.
     if filename != None:
         try:
-            with open(filename, 'w') as f:
-                f.write(_r.text)
+            write_list_file(filename, _r.text)
         except Exception as e:
             logging.error(f"Error writing payload list to file {filename} - {str(e)}")
 
@@ -328,8 +343,7 @@ def download_latest_custom_field_list(url=HORUS_CUSTOM_FIELD_URL, filename=None,
 
     if filename != None:
         try:
-            with open(filename, 'w') as f:
-                f.write(_r.text)
+            write_list_file(filename, _r.text)
             logging.info(f"Wrote latest custom field list data out to {filename}.")
         except Exception as e:
             logging.error(f"Error writing custom field list to file {filename} - {str(e)}")
-- 
2.43.0


From ce3de2881d019a228f3c7bc9b2ea63c94375d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:00 +0000
Subject: [PATCH 32/48] fix: let the C version 3 decoder skip unknown extension
 fields whatever their content

---
 horusbinaryv3/clib/per_opentype.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horusbinaryv3/clib/per_opentype.c b/horusbinaryv3/clib/per_opentype.c
index f86dad7..3edfa0b 100644
--- a/horusbinaryv3/clib/per_opentype.c
+++ b/horusbinaryv3/clib/per_opentype.c
@@ -296,6 +296,8 @@ uper_sot_suck(const asn_codec_ctx_t *ctx, const asn_TYPE_descriptor_t *td,
 	(void)sptr;
 
 	while(per_get_few_bits(pd, 24) >= 0);
+	/* Whatever is left is shorter than 24 bits */
+	while(per_get_few_bits(pd, 1) >= 0);
 
 	rv.code = RC_OK;
 	rv.consumed = pd->moved;
-- 
2.43.0


From 5cbe5c38c8fd0edbe1401b50b44293605c862904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:16 +0000
Subject: [PATCH 33/48] fix: encode subnormal real values correctly in the C
 version 3 codec

---
 horusbinaryv3/clib/REAL.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/horusbinaryv3/clib/REAL.c b/horusbinaryv3/clib/REAL.c
index f1d0665..3536d5f 100644
--- a/horusbinaryv3/clib/REAL.c
+++ b/horusbinaryv3/clib/REAL.c
@@ -723,6 +723,13 @@ asn_double2REAL(REAL_t *st, double dbl_value) {
 		return 0;
 	}
 
+	/*
+	 * Subnormal numbers have no implicit leading 1: bring the mantissa into
+	 * the normal form, (expval) already holds the true exponent.
+	 */
+	if(expval < DBL_MIN_EXP - 1)
+		dbl_value = ldexp(dbl_value, DBL_MANT_DIG);
+
 	if(float_big_endian) {
 		uint8_t *s = ((uint8_t *)&dbl_value) + 1;
 		uint8_t *end = ((uint8_t *)&dbl_value) + sizeof(double);
-- 
2.43.0


From 55e7881d9b71c87d4d5144a885088f1fca39be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:14 +0000
Subject: [PATCH 34/48] fix: write real values in the fewest octets in the C
 version 3 codec

---
 horusbinaryv3/clib/REAL.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/horusbinaryv3/clib/REAL.c b/horusbinaryv3/clib/REAL.c
index 3536d5f..d2bb177 100644
--- a/horusbinaryv3/clib/REAL.c
+++ b/horusbinaryv3/clib/REAL.c
@@ -668,6 +668,7 @@ asn_double2REAL(REAL_t *st, double dbl_value) {
 	char assertion_buffer1[9 - sizeof(dbl_value)] CC_NOTUSED;
 	char assertion_buffer2[sizeof(dbl_value) - 7] CC_NOTUSED;
 	uint8_t *ptr = buf;
+	uint8_t *mstart;	/* First byte of mantissa */
 	uint8_t *mstop;		/* Last byte of mantissa */
 	unsigned int mval;	/* Value of the last byte of mantissa */
 	unsigned int bmsign;	/* binary mask with sign */
@@ -816,8 +817,13 @@ asn_double2REAL(REAL_t *st, double dbl_value) {
 		*ptr++ = expval;
 	}
 
-	buflen = (mstop - dscr) + 1;
-	memcpy(ptr, dscr, buflen);
+	/* Write the mantissa in the fewest octets: 11.3.1 */
+	mstart = dscr;
+	if(mstart < mstop && mstart[0] == 0 && !(mstart[1] & 0x80))
+		mstart++;
+
+	buflen = (mstop - mstart) + 1;
+	memcpy(ptr, mstart, buflen);
 	ptr += buflen;
 	buflen = ptr - buf;
 
-- 
2.43.0


From a4af6340be62290ea621151d606a014b39eeb670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:23 +0000
Subject: [PATCH 35/48] fix: fsk_mod dropped the last bits when they did not
 fill a block

---
 src/fsk_mod.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fsk_mod.c b/src/fsk_mod.c
index 865d5fc..e2ffcea 100644
--- a/src/fsk_mod.c
+++ b/src/fsk_mod.c
@@ -39,6 +39,7 @@ int main(int argc,char *argv[]){
     int Fs,Rs,f1,fs,M;
     int i;
     int p, user_p = 0;
+    int nbits, bits_per_sym, nsamp;
     FILE *fin,*fout;
     uint8_t *bitbuf;
     int16_t *rawbuf;
@@ -103,12 +104,16 @@ int main(int argc,char *argv[]){
     modbuf = (float*)malloc(sizeof(float)*fsk->N);
     
     /* Modulate! */
-    while( fread(bitbuf,sizeof(uint8_t),fsk->Nbits,fin) == fsk->Nbits ){
+    while( (nbits = fread(bitbuf,sizeof(uint8_t),fsk->Nbits,fin)) > 0 ){
+        /* The last block may be short, only output samples for the symbols it has */
+        bits_per_sym = fsk->Nbits/fsk->Nsym;
+        nsamp = ((nbits+bits_per_sym-1)/bits_per_sym)*fsk->Ts;
+        memset(bitbuf+nbits,0,fsk->Nbits-nbits);
         fsk_mod(fsk,modbuf,bitbuf);
-        for(i=0; i<fsk->N; i++){
+        for(i=0; i<nsamp; i++){
 			rawbuf[i] = (int16_t)(modbuf[i]*(float)FDMDV_SCALE);
 		}
-        fwrite(rawbuf,sizeof(int16_t),fsk->N,fout);
+        fwrite(rawbuf,sizeof(int16_t),nsamp,fout);
         
 		if(fin == stdin || fout == stdin){
 			fflush(fin);
-- 
2.43.0


From 8a6366e8a7eb8333a7201bd9cd8d5d4a736b489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:29 +0000
Subject: [PATCH 36/48] fix: a short RTTY sentence hid the sentence following
 it

---
 src/horus_api.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/horus_api.c b/src/horus_api.c
index 24534cf..f6c4d55 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -717,8 +717,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
                 int found_loc = hstates->uw_loc[uw_idx];
+                int sentence_len = strlen(ascii_out)*9;
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - found_loc < 100) {
+                    if (hstates->uw_loc[uw_idx_clear] - found_loc < 100 && hstates->uw_loc[uw_idx_clear] - found_loc < sentence_len) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -735,8 +736,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
                 int found_loc = hstates->uw_loc[uw_idx];
+                int sentence_len = strlen(ascii_out)*10;
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - found_loc < 100) {
+                    if (hstates->uw_loc[uw_idx_clear] - found_loc < 100 && hstates->uw_loc[uw_idx_clear] - found_loc < sentence_len) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
@@ -752,8 +754,9 @@ int horus_rx(struct horus *hstates, char ascii_out[], short demod_in[], int quad
             if (packet_detected){
                 // If we have found a packet clear any possible UW detections nearby
                 int found_loc = hstates->uw_loc[uw_idx];
+                int sentence_len = strlen(ascii_out)*11;
                 for (int uw_idx_clear=0; uw_idx_clear < hstates->uw_count; uw_idx_clear++){ 
-                    if (hstates->uw_loc[uw_idx_clear]  - found_loc < 100) {
+                    if (hstates->uw_loc[uw_idx_clear] - found_loc < 100 && hstates->uw_loc[uw_idx_clear] - found_loc < sentence_len) {
                         hstates->uw_loc[uw_idx_clear] = -1;
                     }
                 }
-- 
2.43.0


From f6bd75ff77c0e77d89c6fddb8d207c43421dea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:55 +0000
Subject: [PATCH 37/48] fix: oversampling factors of 1 and 2 were accepted, 1
 made the modem read outside its buffer

---
 src/horus_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/horus_api.c b/src/horus_api.c
index f6c4d55..8c1ef8d 100644
--- a/src/horus_api.c
+++ b/src/horus_api.c
@@ -102,6 +102,8 @@ struct horus *horus_open_advanced (int mode, int Rs, int tx_tone_spacing) {
 struct horus *horus_open_advanced_sample_rate (int mode, int Rs, int tx_tone_spacing, int Fs, int P) {
     unsigned long i, mask;
     assert((mode == HORUS_MODE_RTTY_7N1) || (mode == HORUS_MODE_RTTY_7N2) || (mode == HORUS_MODE_RTTY_8N2) || (mode == HORUS_MODE_BINARY_V1) );// || (mode == HORUS_MODE_BINARY_V2_256BIT) || (mode == HORUS_MODE_BINARY_V2_128BIT));
+    /* Symbol timing can't be estimated with less than three samples per symbol */
+    assert(P >= 3);
 
     struct horus *hstates = (struct horus *)malloc(sizeof(struct horus));
     assert(hstates != NULL);
-- 
2.43.0


From fe3a2e4a88b3ccbc3101df6ab662b2d59d11488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 38/48] fix: overflow of the mask estimator offset at high
 sample rates and low baud rates

---
 src/fsk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fsk.c b/src/fsk.c
index 133aa27..a8b1172 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -585,7 +585,7 @@ void fsk_demod_freq_est(struct FSK *fsk, COMP fsk_in[], float *freqs, int M) {
             b_max = b;
         }
     }
-    float foff = (b_max-Ndft/2)*Fs/Ndft;
+    float foff = ((int64_t)(b_max-Ndft/2)*Fs)/Ndft;
     //fprintf(stderr, "fsk->fs_tx: %d\n",fsk->fs_tx);
     for (int m=0; m<M; m++)
         fsk->f2_est[m] = foff + m*fsk->fs_tx;
-- 
2.43.0


From 02a9f05fd7afbb82b9ee915402958bad6cc83c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 39/48] fix: the first statistics line was glued to the
 estimator limits message

---
 src/horus_demod.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/horus_demod.c b/src/horus_demod.c
index 8acc9ba..3552d11 100644
--- a/src/horus_demod.c
+++ b/src/horus_demod.c
@@ -228,7 +228,7 @@ int main(int argc, char *argv[]) {
         horus_set_freq_est_limits(hstates, fsk_lower, fsk_upper);
         fprintf(stderr,"Setting estimator limits to %d to %d Hz.\n",fsk_lower, fsk_upper);
     } else {
-        fprintf(stderr,"Not setting estimator limits, upper must be higher than lower.");
+        fprintf(stderr,"Not setting estimator limits, upper must be higher than lower.\n");
     }
 
     
-- 
2.43.0


From b79a2fc0581c11b5b5bf5403039c028a7dce0bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 40/48] fix: fsk_get_test_bits crashed when the output can't be
 opened or the frame size is below one

---
 src/fsk_get_test_bits.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fsk_get_test_bits.c b/src/fsk_get_test_bits.c
index c9448b2..5883b79 100644
--- a/src/fsk_get_test_bits.c
+++ b/src/fsk_get_test_bits.c
@@ -50,12 +50,16 @@ int main(int argc,char *argv[]){
     if (argc == 4){
         framesize = atoi(argv[3]);
         fprintf(stderr, "Using custom frame size of %d bits\n", framesize);
+        if (framesize < 1) {
+            fprintf(stderr,"Need a frame size of at least one bit\n");
+            exit(1);
+        }
     }
     
     /* Extract parameters */
     bitcnt = atoi(argv[2]);
     framecnt = bitcnt/framesize;
-    if (framecnt == 0) {
+    if (framecnt <= 0) {
         fprintf(stderr,"Need a minimum of %d bits\n", framesize);
         exit(1);
     }
@@ -68,7 +72,7 @@ int main(int argc,char *argv[]){
     
     if(fout==NULL){
         fprintf(stderr,"Couldn't open output file: %s\n", argv[1]);
-        goto cleanup;
+        exit(1);
     }
     
     /* allocate buffers for processing */
@@ -89,7 +93,6 @@ int main(int argc,char *argv[]){
 	}
     }
     
- cleanup:
     fclose(fout);
 
     return 0;
-- 
2.43.0


From 020b1b46102fbb87ad67dfb629bba56e537cf46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 41/48] fix: fsk_put_test_bits crashed without an input file or
 with a frame size below one

---
 src/fsk_put_test_bits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fsk_put_test_bits.c b/src/fsk_put_test_bits.c
index e004994..28ba7e3 100644
--- a/src/fsk_put_test_bits.c
+++ b/src/fsk_put_test_bits.c
@@ -72,7 +72,7 @@ int main(int argc,char *argv[]){
             exit(1);
         }
     }
-    if (argc == 1) {
+    if (optind >= argc || framesize < 1) {
         fprintf(stderr, usage, argv[0]);
         exit(1);
     }
@@ -84,7 +84,7 @@ int main(int argc,char *argv[]){
     }
     
     if(fin==NULL){
-        fprintf(stderr,"Couldn't open input file: %s\n", argv[1]);
+        fprintf(stderr,"Couldn't open input file: %s\n", fname);
         exit(1);
     }
 
-- 
2.43.0


From 187f24c6046ea36d72931a74853bc76d801e1428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 42/48] fix: fsk_mod crashed when a file can't be opened or is
 not given

---
 src/fsk_mod.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fsk_mod.c b/src/fsk_mod.c
index e2ffcea..1efafe3 100644
--- a/src/fsk_mod.c
+++ b/src/fsk_mod.c
@@ -60,7 +60,7 @@ int main(int argc,char *argv[]){
         }
     }
 
-    if (argc<8){
+    if (argc-optind<7){
         fprintf(stderr, usage, argv[0]);
         exit(1);
     }
@@ -94,7 +94,7 @@ int main(int argc,char *argv[]){
     
     if(fin==NULL || fout==NULL || fsk==NULL){
         fprintf(stderr,"Couldn't open test vector files\n");
-        goto cleanup;
+        exit(1);
     }
     
     
@@ -124,7 +124,6 @@ int main(int argc,char *argv[]){
     free(rawbuf);
     free(modbuf);
     
-    cleanup:
     fclose(fin);
     fclose(fout);
     fsk_destroy(fsk);
-- 
2.43.0


From d81a2206b1c44984206b8d24308d6c8e95b4fa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 43/48] fix: fsk_demod's short -m option crashed, as it was not
 given its tone spacing

---
 src/fsk_demod.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fsk_demod.c b/src/fsk_demod.c
index f245822..b271b85 100644
--- a/src/fsk_demod.c
+++ b/src/fsk_demod.c
@@ -95,7 +95,7 @@ int main(int argc,char *argv[]){
             {0, 0, 0, 0}
         };
         
-        o = getopt_long(argc,argv,"fhlp:cdt::sb:u:m",long_opts,&opt_idx);
+        o = getopt_long(argc,argv,"fhlp:cdt::sb:u:n:m:",long_opts,&opt_idx);
         
         switch(o){
         case 'c':
-- 
2.43.0


From e7622185bc824599103e01671dfa5110176b317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 44/48] fix: fsk_demod never found test frames in 4FSK soft
 decisions, whose sign is opposite to 2FSK's

---
 src/fsk_demod.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fsk_demod.c b/src/fsk_demod.c
index b271b85..9443bde 100644
--- a/src/fsk_demod.c
+++ b/src/fsk_demod.c
@@ -317,7 +317,8 @@ int main(int argc,char *argv[]){
                     bitbuf_rx[i] = bitbuf_rx[i+1];
                 }
                 if (soft_dec_mode == 1) {
-                    bitbuf_rx[TEST_FRAME_SIZE-1] = sdbuf[j] < 0.0;
+                    /* soft decisions are positive for a 0 bit in 2FSK, for a 1 bit in 4FSK */
+                    bitbuf_rx[TEST_FRAME_SIZE-1] = (M == 4) ? (sdbuf[j] > 0.0) : (sdbuf[j] < 0.0);
                 }
                 else {
                     bitbuf_rx[TEST_FRAME_SIZE-1] = bitbuf[j];
-- 
2.43.0


From 85c9876fe2972b55b8ca4d0382aa2c1c8f062102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 45/48] fix: the tone estimator used uninitialised memory when
 a block is shorter than one FFT

---
 src/fsk.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fsk.c b/src/fsk.c
index a8b1172..6857949 100644
--- a/src/fsk.c
+++ b/src/fsk.c
@@ -472,7 +472,13 @@ void fsk_demod_freq_est(struct FSK *fsk, COMP fsk_in[], float *freqs, int M) {
     
     f_zero = (fsk->est_space*Ndft)/Fs;
 
+    /* A block shorter than one FFT adds nothing to the spectrum we have so far */
     int numffts = floor((float)nin/(Ndft/2)) - 1;
+    if (numffts < 1) {
+        numffts = 0;
+        for(i=0; i<Ndft; i++)
+            fftout[i].i = fsk->Sf[i];
+    }
     for(j=0; j<numffts; j++){
         int a = j*Ndft/2;
         //fprintf(stderr, "numffts: %d j: %d a: %d\n", numffts, (int)j, a);
-- 
2.43.0


From 45ec75eed52a01d83e955b5dfb1cc50e4c4d2f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 46/48] fix: start_eight_4fsk.sh told chains 7 and 8 the target
 frequency of chain 6

---
 start_eight_4fsk.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/start_eight_4fsk.sh b/start_eight_4fsk.sh
index 26de9ac..130728c 100755
--- a/start_eight_4fsk.sh
+++ b/start_eight_4fsk.sh
@@ -130,11 +130,11 @@ MFSK6_CENTRE=$(echo "$RXFREQ + $MFSK6_SIGNAL" | bc)
 
 MFSK7_LOWER=$(echo "$MFSK7_SIGNAL - $RXBANDWIDTH/2" | bc)
 MFSK7_UPPER=$(echo "$MFSK7_SIGNAL + $RXBANDWIDTH/2" | bc)
-MFSK7_CENTRE=$(echo "$RXFREQ + $MFSK6_SIGNAL" | bc)
+MFSK7_CENTRE=$(echo "$RXFREQ + $MFSK7_SIGNAL" | bc)
 
 MFSK8_LOWER=$(echo "$MFSK8_SIGNAL - $RXBANDWIDTH/2" | bc)
 MFSK8_UPPER=$(echo "$MFSK8_SIGNAL + $RXBANDWIDTH/2" | bc)
-MFSK8_CENTRE=$(echo "$RXFREQ + $MFSK6_SIGNAL" | bc)
+MFSK8_CENTRE=$(echo "$RXFREQ + $MFSK8_SIGNAL" | bc)
 
 echo "Using SDR Centre Frequency: $RXFREQ Hz."
 echo "Using MFSK1 estimation range: $MFSK1_LOWER - $MFSK1_UPPER Hz"
-- 
2.43.0


From 3cc31bbe71554a4ee97070978bcb844093613149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 47/48] fix: docker_ka9q_single.sh left its channel open when a
 program of the chain failed

---
 scripts/docker_ka9q_single.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/docker_ka9q_single.sh b/scripts/docker_ka9q_single.sh
index e2129d5..b883282 100755
--- a/scripts/docker_ka9q_single.sh
+++ b/scripts/docker_ka9q_single.sh
@@ -44,5 +44,6 @@ pcmrecord --ssrc $SSRC --catmode --raw $SDR_DEVICE --timeout 1 | \
 
 echo "Started everything, waiting for any failed processes"
 
-wait -n 
+# A failed process must not end this script (set -e) before the channel is closed.
+wait -n || true
 exit_rx
\ No newline at end of file
-- 
2.43.0


From cacef7139591dc01cc7fb1e69bad0cb1f74ad954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 48/48] fix: the C constraint check of a structure stopped
 after its first member without constraints of its own

---
 horusbinaryv3/clib/constr_SEQUENCE.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horusbinaryv3/clib/constr_SEQUENCE.c b/horusbinaryv3/clib/constr_SEQUENCE.c
index 2fbf97b..e41ed75 100644
--- a/horusbinaryv3/clib/constr_SEQUENCE.c
+++ b/horusbinaryv3/clib/constr_SEQUENCE.c
@@ -1062,8 +1062,9 @@ SEQUENCE_constraint(const asn_TYPE_descriptor_t *td, const void *sptr,
 				ctfailcb, app_key);
 			if(ret) return ret;
 		} else {
-			return elm->type->encoding_constraints.general_constraints(elm->type,
+			int ret = elm->type->encoding_constraints.general_constraints(elm->type,
 				memb_ptr, ctfailcb, app_key);
+			if(ret) return ret;
 		}
 	}
 
-- 
2.43.0

