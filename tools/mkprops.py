#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable as text)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Error correction repairs every pattern of up to 3 bit errors per codeword",
 "Every 23-bit word within distance 3 of a codeword decodes to that codeword's data (all 2^23 words, identically in every build variant of the coder), and encoding is the systematic (23,12) Golay code. At packet level, any transmitted packet in which every codeword of the interleaved frame has at most three flipped bits decodes to exactly the payload that was encoded, for every supported payload size.",
 ["inputs","configurations"],"all 2^23 received words x coder build variants; all payload sizes 1..128 x every <=3-bit error pattern position per codeword",
 "The tests decode a couple of vectors with no or random errors; the guarantee is over the complete received-word space and all error positions of all packet sizes.",
 ["src/golay23.c","src/golay23.h","src/horus_l2.c"],
 [("systematic Golay encode and syndrome decode","src/golay23.c:golay23_encode/golay23_decode"),("per-12-bit codeword grouping of packet bytes","src/horus_l2.c:horus_l2_encode_tx_packet/horus_l2_decode_rx_packet")],
 observe=["golay23_decode return value","payload bytes from horus_l2_decode_rx_packet"])

p("C02","Encoded frames follow the published over-the-air format exactly",
 "For every payload size from 1 to 128 bytes and any payload content, the encoder emits unique word, payload and Golay parity, interleaved and scrambled exactly as the published Horus Binary format defines, with exactly the advertised encoded length, never touching memory outside input and output buffers. Decoding the frame gives back the payload, in every build variant and through the Python wrapper.",
 ["inputs","configurations"],"all payload sizes 1..128 x an affine basis of payload contents (the code is affine over GF(2)) x coder variants",
 "Tests hold two golden packets; a wrong parity bit for one length or a changed interleaver prime stays symmetric between encoder and decoder and passes a loopback test while breaking interoperability.",
 ["src/horus_l2.c","src/horus_l2.h","horusdemodlib/encoder.py"],
 [("packet layout, interleaver permutation and scrambler","src/horus_l2.c:horus_l2_encode_tx_packet,interleave,scramble"),("length computation","src/horus_l2.c:horus_l2_get_num_tx_data_bytes"),("Python wrapper","horusdemodlib/encoder.py:Encoder.horus_l2_encode_packet")],
 observe=["bytes written by horus_l2_encode_tx_packet","return value"])

p("C03","Every binary packet is delivered exactly once, in order, with the right bytes",
 "Whatever the alignment of a packet to receive blocks, the gap or lack of gap to its neighbours, the mix of packet sizes, and correctable channel errors (up to one in the unique word and three per codeword), the binary receiver reports each transmitted valid packet exactly once, in order, as the exact uppercase hex payload. No block reports a packet that was not sent, and the checksum flag, packet version and payload size read back agree with the packet just delivered.",
 ["histories","inputs","schedules"],"all sequences of up to 3 packets over the size/version alphabet x all 100 bit alignments x gap and error patterns within stated bounds",
 "Tests run one recording per mode at one alignment and check a packet count; alignment to the 100-bit block, back-to-back packets, several tracked unique words and errors inside the unique word are never enumerated.",
 ["src/horus_api.c"],
 [("bit buffer shift and unique-word tracking list","src/horus_api.c:horus_rx"),("unique word search over the newly arrived bits","src/horus_api.c:horus_find_uw"),("packet extraction for each candidate size","src/horus_api.c:extract_horus_binary_v1, extract_horus_binary_v2_256")],
 state=[("uw_loc / uw_count","positions of unique words still waiting for a complete packet","struct horus"),("rx_bits","sliding window of demodulated bits","struct horus")],
 observe=["horus_rx return value and output text","horus_crc_ok","horus_get_total_payload_bits"])

p("C04","A damaged packet is never accepted as valid telemetry",
 "No packet whose decoded contents differ from a validly checksummed packet by one, two or three bits, or by an error burst of up to 16 bits, is ever delivered as valid by the receiver or turned into telemetry by the decoder; every change of a packet's length is likewise refused. What is delivered with a good checksum flag always carries a genuinely matching CRC-16 in the place its version requires, and the C and Python checksums are the same function.",
 ["inputs","fault_sequences"],"all 1-, 2-, 3-bit flips and all bursts <=16 bits at every position for every packet format; the complete CRC step function 65536 x 256",
 "Tests flip one fixed byte of one packet; the guarantee is over every error pattern, every position and both checksum placements.",
 ["src/horus_api.c","src/horus_l2.c","horusdemodlib/checksums.py","horusdemodlib/decoder.py"],
 [("CRC-16 CCITT","src/horus_l2.c:horus_l2_gen_crc16"),("checksum gate before decoding","horusdemodlib/decoder.py:decode_packet, horusdemodlib/checksums.py:check_packet_crc"),("receiver checksum gate","src/horus_api.c:extract_horus_binary_v2_256")],
 observe=["decode_packet raising ValueError","horus_rx return"])

p("C05","RTTY sentences are delivered exactly once and only with a matching checksum",
 "In each of the three serial formats the receiver reports every valid '$$...*CRC' sentence exactly once, in order and with exactly the transmitted characters, whatever its bit alignment, number of leading '$' characters, length up to the supported maximum and line ending. A sentence is reported valid only if four hexadecimal digits after its first '*' equal the CRC-16 of the characters between the leading '$'s and that '*'.",
 ["histories","inputs"],"3 serial formats x all 50 bit alignments x sentence lengths x '$' counts 2..7 x sequences of two sentences x single-character corruptions",
 "Tests decode one recording of one format; alignment against the 50-bit block, sentence length near the window size, extra '$' characters and malformed checksum characters are not explored.",
 ["src/horus_api.c"],
 [("character assembly, '*' detection, checksum compare","src/horus_api.c:extract_horus_rtty"),("clearing of neighbouring unique words after success","src/horus_api.c:horus_rx")],
 state=[("uw_loc","start positions of candidate sentences","struct horus")],
 observe=["horus_rx return value and ascii_out","horus_crc_ok"])

p("C06","The receiver is memory-safe for any bit stream and fits its advertised buffers",
 "For every sequence of demodulated bits, in every mode, the receiver never reads or writes outside its own state or the output buffer of the advertised maximum size, never reads uninitialised memory, never aborts, and always leaves a terminated text in the output when it reports a packet. The flags it exposes are defined from the moment it is opened.",
 ["inputs","histories"],"structured bit streams that place unique words, '*' and characters at every position of the window; up to 3 blocks of adversarial history",
 "Tests only feed well formed recordings; buffer-edge positions are reached only by particular corrupted streams.",
 ["src/horus_api.c","src/horus_l2.c"],
 [("bounds derived from packet length and window length","src/horus_api.c:extract_horus_*"),("advertised output size","src/horus_api.c:horus_get_max_ascii_out_len")],
 observe=["AddressSanitizer/UBSan/MemorySanitizer reports","canaries round the output buffer"])

p("C07","A clean signal demodulates without bit errors at any timing, tone plan or format",
 "A noise-free FSK signal produced by the project's own modulator (or an equivalent ideal one) within the supported settings is recovered bit-exactly after a short acquisition, at every sample timing offset, for 2- and 4-tone modes, real and quadrature input, any tone spacing and position inside the estimator limits, and with small sample-clock and frequency offsets. Complete packets modulated this way are received end to end.",
 ["inputs","configurations"],"all sample offsets within a symbol x configuration grid (M, Fs, Rs, P, spacing, base tone, amplitude, IQ/real, clock offset)",
 "Tests use one recorded signal per mode; per-sample timing offsets and configuration corners are unreached.",
 ["src/fsk.c","src/horus_api.c"],
 [("tone frequency estimators","src/fsk.c:fsk_demod_freq_est"),("timing estimation and nin adaption","src/fsk.c:fsk_demod_core"),("modulators","src/fsk.c:fsk_mod, fsk_mod_c")],
 observe=["demodulated bits","horus_rx output"])

p("C08","Receiver instances are independent and deterministic",
 "The sequence of outputs of a receiver instance depends only on its own configuration and the samples it was given, never on other instances opened, used or closed in any interleaving, on previous use of the process, or on memory contents left behind. Opening and closing any number of instances in any order releases everything.",
 ["schedules","histories"],"all interleavings of the call sequences of two instances of every mode pair up to a bound, each from differently filled heap memory; all open/use/close histories up to a depth",
 "Tests use one instance per process; cross-instance leakage through shared or uninitialised state needs interleaved histories.",
 ["src/horus_api.c","src/fsk.c","src/horus_l2.c","src/golay23.c"],
 [("per-instance state allocation","src/horus_api.c:horus_open_advanced_sample_rate, src/fsk.c:fsk_create_core"),("release","src/horus_api.c:horus_close, src/fsk.c:fsk_destroy")],
 observe=["outputs and statistics of each instance","LeakSanitizer / allocation accounting"])

p("C09","The requested sample count is always bounded and honoured",
 "At every moment the number of samples a receiver asks for next is positive, stays within half a symbol of the nominal block, never exceeds the advertised maximum input size, and exactly that many samples are consumed, for every supported sample rate, baud rate, oversampling factor and mode, whatever the input signal. Unsupported combinations are refused rather than misconfigured.",
 ["configurations","inputs"],"configuration grid over sample rates, baud rates, oversampling and modes x adversarial sample blocks (silence, full-scale, tones, steps, impulses)",
 "Tests use the default configuration only.",
 ["src/fsk.c","src/horus_api.c"],
 [("nin update from timing estimate","src/fsk.c:fsk_demod_core"),("advertised maximum","src/horus_api.c:horus_get_max_demod_in, horus_nin")],
 observe=["horus_nin","horus_get_max_demod_in","guard zones round the input buffer"])

p("C10","Streaming results do not depend on how the samples are chunked",
 "However a sample stream is split into chunks when it is handed to the streaming interface, the packets delivered to the callback, their order and contents are the same as when the same samples are given whole, and each frame is delivered exactly once. No sample is dropped, repeated or reordered between the input and the demodulator, for mono, stereo quadrature and resampled input.",
 ["schedules","inputs"],"all compositions of a short stream into chunks at a granularity, and every single split point of packet streams; mono/IQ x input rates",
 "Tests feed fixed-size chunks of one size; the buffering boundary conditions depend on chunk sizes relative to the changing request size.",
 ["horusdemodlib/demod.py"],
 [("input buffer accumulation and consumption","horusdemodlib/demod.py:HorusLib.add_samples")],
 state=[("input_buffer","samples not yet passed to the demodulator","HorusLib"),("resampler_state","carry of the rate converter","HorusLib")],
 observe=["callback invocations","samples seen by the demodulator"])

p("C11","Every input sample rate feeds the demodulator enough valid samples",
 "For any supported input sample rate, channel count and block, the Python demodulation call never lets the modem read beyond the samples it was given, keeps the rate conversion continuous across calls, and still decodes packets sent at that rate. Short or empty input never reads stray memory or changes results between runs.",
 ["configurations","inputs"],"input sample rates x requested sizes (all three request sizes) x mono/IQ x block lengths around the requested size",
 "Tests use one 48 kHz and one 8 kHz recording; a short read only shows as an out-of-bounds read, invisible to a functional assertion.",
 ["horusdemodlib/demod.py"],
 [("resampling and buffer hand-over","horusdemodlib/demod.py:HorusLib.demodulate")],
 observe=["size of the buffer handed to the modem versus requested samples","decoded frames"])

p("C12","Version 1 and 2 packets decode to the transmitted field values or are refused",
 "Every field of a correctly checksummed version 1 or 2 packet is reported with the transmitted value in documented units, and a packet whose time, latitude, longitude or length lies outside its documented range is refused with a value error rather than reported. The generated sentence carries the same values and a correct checksum, and parses back to them; decoding one packet never alters the result of another.",
 ["inputs","histories"],"per-format field boundary/bit-walk values, all time bytes, all biseconds, non-finite floats, pairs of fields, ordered pairs of packets, payload-list and custom-layout contents",
 "Tests decode five packets and mostly check that no exception occurs; per-field ranges, non-finite floats and cross-packet effects are not sampled.",
 ["horusdemodlib/decoder.py","horusdemodlib/delegates.py","horusdemodlib/payloads.py"],
 [("struct layouts and delegates","horusdemodlib/decoder.py:HORUS_PACKET_FORMATS, decode_packet"),("field range checks","horusdemodlib/delegates.py")],
 observe=["dictionary from decode_packet","ValueError"])

p("C13","Version 3 packets decode to the transmitted fields with documented units",
 "For every combination of optional fields and every boundary value, a version 3 packet decodes to exactly the fields that were sent, in documented units, with absent or 'invalid'-marked fields absent and every extra field listed by name for publication exactly once. Zero values count as present, nothing leaks from one packet to the next, and a packet violating its schema is refused.",
 ["inputs","histories"],"all 2^k optional-field presence combinations with boundary values per field, all sensor value kinds and sizes, ordered pairs of packets",
 "Tests decode one 'bells and whistles' packet; dropped fields, wrong scale for one field and leaks between packets need the presence lattice and boundary values.",
 ["horusdemodlib/decoder.py","horusbinaryv3/HorusBinaryV3.asn1"],
 [("field mapping of version 3","horusdemodlib/decoder.py:decode_packet")],
 observe=["dictionary from decode_packet"])

p("C14","Remembered sensor names follow each payload's latest announcement",
 "In any history of packets from any number of payloads, a sensor value sent without a name is reported under the most recent name that the same payload announced for that same sensor slot, or as unknown if it never announced one. Announcements by one payload or slot never affect another, and values accompanying an announcement carry that name.",
 ["histories"],"all packet histories up to depth 4 over 2 payloads x 2 slots x {absent, unnamed, name A, name B}",
 "The test covers one history of three packets from one payload and one slot.",
 ["horusdemodlib/decoder.py"],
 [("sensor name cache","horusdemodlib/decoder.py:decode_packet / HORUS_V3_NAME_CACHE")],
 state=[("name cache","last announced name per callsign and slot","horusdemodlib/decoder.py")],
 observe=["field names in the decoded dictionary"])

p("C15","A telemetry sentence is accepted exactly when valid, with its exact values",
 "A UKHAS sentence is accepted if and only if its checksum matches and its sequence number, time, coordinates and altitude are well formed and in range; accepted sentences yield exactly the transmitted values and a normalised time, whatever the number of leading '$', surrounding whitespace or trailing fields. Any other string, including every single-character change between the leading '$'s and the end of the checksum of a valid sentence, is refused with a value error and no other exception.",
 ["inputs"],"field alphabets per position (cartesian), all single character substitutions/deletions/insertions/truncations, strings and byte strings",
 "Tests parse one good sentence.",
 ["horusdemodlib/decoder.py","horusdemodlib/checksums.py"],
 [("sentence parsing and checks","horusdemodlib/decoder.py:parse_ukhas_string"),("checksum text","horusdemodlib/checksums.py:ukhas_crc")],
 observe=["dictionary or ValueError"])

p("C16","The C and Python version 3 codecs agree bit for bit",
 "For every telemetry value the schema allows, within stated bounds, the generated C encoder and the Python encoder produce identical bits, and each decodes the other's output back to the same value. A value outside the schema's constraints is refused on both sides: by constraint checking or, for the number of sensors and enumeration values, by the C encoder.",
 ["inputs"],"all optional-field presence subsets, boundary and bit-walk values for each field, all list sizes and choice alternatives, pairwise combinations",
 "Tests compare a few fixed messages; disagreement appears only for particular presence maps, lengths or boundary integers.",
 ["horusbinaryv3/clib","horusbinaryv3/HorusBinaryV3.asn1","horusdemodlib/decoder.py"],
 [("generated type descriptors","horusbinaryv3/clib/*.c"),("schema","horusbinaryv3/HorusBinaryV3.asn1")],
 observe=["encoded bytes","decoded values"])

p("C17","The C version 3 decoder is safe and self-consistent on arbitrary bytes",
 "For arbitrary, truncated or corrupted input bytes the C decoder returns success or failure without memory errors, hangs or leaks, never claims to have consumed more than it was given, and any value it accepts that satisfies the schema's constraints re-encodes to a message that decodes to the same value. A truncated message is never accepted as complete.",
 ["inputs","fault_sequences"],"all truncations, single/double bit flips and byte substitutions of a message corpus, all inputs of up to 2-3 bytes",
 "Tests decode valid messages only.",
 ["horusbinaryv3/clib"],
 [("UPER decode and free","horusbinaryv3/clib/uper_decoder.c, constr_*.c")],
 observe=["return code, consumed bits, sanitizer reports"])

p("C18","Uploads follow the retry policy under every server and network behaviour",
 "For every sequence of server answers, each telemetry batch is sent again after a server error (500-504) until accepted or the configured number of attempts is used up, is sent exactly once when accepted (including with warnings) or refused, and a network failure or malformed answer loses at most that batch and never stops the uploader. Every attempt carries the complete unmodified batch, compressed as declared, and the station position follows its own update interval with an equally bounded number of attempts.",
 ["fault_sequences","histories"],"all sequences of up to R+1 answers over {200, 202 good/malformed, 4xx, 500..504, timeout, connection error}, for telemetry and position uploads, over several queue rounds",
 "Tests mock one constant 200 answer.",
 ["horusdemodlib/sondehubamateur.py"],
 [("retry loops","horusdemodlib/sondehubamateur.py:upload_telemetry, station_position_upload"),("queue loop","horusdemodlib/sondehubamateur.py:process_queue")],
 observe=["recorded HTTP requests"])

p("C19","Queued telemetry is uploaded exactly once, in order, under every thread schedule",
 "In every interleaving of the receiving thread with the upload thread, every packet accepted for upload before shutdown is uploaded exactly once and in order of arrival, and closing the uploader always ends its thread promptly without deadlock. Nothing added after shutdown is uploaded, and an uploader with uploads disabled accepts every operation and uploads nothing.",
 ["schedules"],"all interleavings of add/close/status calls with the worker at queue, clock and network operations, up to 3 packets and a preemption bound",
 "Tests start the thread, sleep and close; they see one schedule.",
 ["horusdemodlib/sondehubamateur.py","horusdemodlib/uploader.py"],
 [("queue hand-over and stop flag","horusdemodlib/sondehubamateur.py:add, process_queue, close")],
 state=[("input_queue","packets accepted and not yet uploaded","SondehubAmateurUploader"),("input_processing_running","stop flag","SondehubAmateurUploader")],
 observe=["uploaded batches in order","thread termination"])

p("C20","Only eligible telemetry is published, with unchanged values",
 "Telemetry is offered to the tracking database exactly when it is addressed to it, comes from a known payload, carries a complete position (altitude included), and its time is known and within three minutes of the receiver's clock; otherwise nothing is published. Published records carry position, frame number and callsign unchanged, each optional field exactly when present and valid, frequency in MHz, all extra fields (apart from numbers JSON cannot express), and the receiver's metadata, and formatting never fails on anything the decoders can produce.",
 ["inputs","configurations"],"cartesian product of field presence/validity alphabets x addressing x callsign x time offsets around the limits; every packet format's decoder output",
 "The test prints one conversion result without asserting on it.",
 ["horusdemodlib/utils.py","horusdemodlib/sondehubamateur.py"],
 [("eligibility gates and mapping","horusdemodlib/utils.py:telem_to_sondehub")],
 observe=["returned record or None","queue contents"])

p("C21","The receive pipeline survives any input line and reports each valid one once",
 "For any sequence of input lines, valid or not, the telemetry handler processes every line in order: each valid packet, sentence or statistics line has exactly its own effect (one log entry, one network summary, one upload offer), each invalid line has none, and no line stops the handler, in any combination of its options. It ends cleanly at end of input with all worker threads stopped, and refuses to start without a readable configuration. An unknown payload leads to new lists being fetched at most every 30 minutes.",
 ["histories","configurations","fault_sequences"],"all line sequences up to length 3 over an alphabet of valid/invalid/boundary lines x option combinations x failing side effects",
 "Tests feed one valid line per run.",
 ["horusdemodlib/uploader.py","horusdemodlib/horusudp.py"],
 [("line dispatch and per-line error handling","horusdemodlib/uploader.py:main")],
 observe=["log file lines, UDP summaries, upload offers, process end"])

p("C22","Payload and custom-field lists load robustly and never lose entries",
 "For any list text, every well formed entry is available after loading, malformed entries are skipped without affecting others, built-in defaults stay available, and no content makes loading fail or makes a later packet undecodable. After a failed or invalid download the previously stored list is used, and the stored file is never replaced by invalid content.",
 ["inputs","fault_sequences","histories","crash_points"],"all sequences of up to 4 lines/entries over an alphabet of good and bad entries; download outcomes x stored-file states x write faults; histories of loads",
 "Tests parse the shipped files only.",
 ["horusdemodlib/payloads.py","payload_id_list.txt","custom_field_list.json"],
 [("list parsers","horusdemodlib/payloads.py:parse_payload_list, parse_custom_field_list"),("download, validate, store, fall back","horusdemodlib/payloads.py:download_latest_*, init_*")],
 observe=["returned lists","cache files on disk"])

p("C23","Generated version 2 packets carry the requested values, clipped to range",
 "A packet generated from any finite numeric telemetry values (position assumed in range) is always valid and decodes to the requested values, each out-of-range value clipped to the nearest end of its documented range and each in-range value kept to within one step of its field, independently of the other fields; the sequence number wraps modulo 65536. Coded and uncoded outputs describe the same packet and invalid payload identifiers are refused.",
 ["inputs"],"per-field boundary grids incl. both sides of every limit, all hours/minutes/seconds, pairs of fields, datetime and h/m/s inputs",
 "Tests build one default packet.",
 ["horusdemodlib/encoder.py"],
 [("clipping and packing","horusdemodlib/encoder.py:create_horus_v2_packet")],
 observe=["decode of the generated packet"])

p("C24","Bytes expand to modulation symbols and bits losslessly and in order",
 "For any packet and preamble length the symbol stream and the bit stream consist of exactly the preamble pattern followed by the packet, most significant bits first, four symbols or eight bits per byte; both describe the same transmission and modulating and demodulating them yields the packet. Prefix bytes and packet content never influence each other.",
 ["inputs"],"all byte values and all byte pairs, preamble lengths 0..16, packets of every operational size",
 "Tests print the output without checking.",
 ["horusdemodlib/encoder.py"],
 [("expansion","horusdemodlib/encoder.py:bytes_to_4fsk_symbols, bytes_to_onebitperbyte")],
 observe=["returned symbols/bits"])

p("C25","Averaged modem statistics reflect exactly the samples inside the time window",
 "After any sequence of statistics updates at any times, the reported signal quality, clock offset and tone spacing equal the mean (or maximum, in peak-hold mode) of exactly those samples received within the averaging window, and the tone estimates are those of the last valid update for 2- or 4-tone modems. Malformed or incomplete updates change nothing and never raise.",
 ["histories","inputs"],"all histories up to depth 5 over {time steps around the window length} x {values} x {valid, malformed, missing field, nan, 2/4 tones}",
 "Two tests use regular timestamps and one window.",
 ["horusdemodlib/demodstats.py"],
 [("window maintenance and averaging","horusdemodlib/demodstats.py:FSKDemodStats.update")],
 state=[("samples","window contents","FSKDemodStats")],
 observe=["snr, ppm, fest, fest_mean, fest_spacing"])

p("C26","Local network messages are sent once, complete, and never disturb reception",
 "For every decoded telemetry record with a time and a complete position (latitude, longitude and altitude), exactly one summary message with the record's values (and -1 for absent standard fields) reaches the network, by broadcast or, when broadcasting is impossible, by loopback; without a position none is sent. No socket failure at any step raises into the caller, blocks it or leaks a socket.",
 ["fault_sequences","inputs"],"every subset of failing socket calls (create, options, broadcast send, loopback send, close) x record field presence",
 "Tests send to a real socket once and check nothing.",
 ["horusdemodlib/horusudp.py"],
 [("summary and OziMux senders","horusdemodlib/horusudp.py:send_payload_summary, send_ozimux_message")],
 observe=["datagrams handed to the socket layer","open sockets"])

p("C27","Times of day are resolved to the correct date around midnight",
 "For any receiver clock and any telemetry time of day within the clock skew the rollover window covers (less than an hour), the resolved timestamp is exactly the moment the payload meant, including across midnight, month, year and leap-day boundaries; seconds are preserved exactly and the result is always expressed in the receiver's time zone.",
 ["inputs"],"every second of the day near midnight (and every minute elsewhere) x skews -59..59 min x boundary dates, clock given or read, several time zones",
 "No test pins the rollover window; it depends on the clock at run time.",
 ["horusdemodlib/delegates.py","horusdemodlib/utils.py"],
 [("rollover window","horusdemodlib/delegates.py:fix_datetime")],
 observe=["returned datetime"])

p("C28","The command line demodulators print each packet once however input is fed",
 "The command-line receiver prints every packet that the complete demodulation blocks of its sample stream deliver exactly once, as one line in the documented form, and, when asked for, statistics lines the statistics parser accepts, independent of how its input arrives (file or pipe, any read chunking, a truncated final block), of the statistics settings and of the output destination, under the mode, rate, tone spacing and estimator limits given on its command line. The C and Python command-line receivers print the same packets for the same samples.",
 ["inputs","configurations","schedules"],"mode x IQ x statistics options x input splits x truncation points for generated recordings; C and Python programs",
 "Tests grep for one packet count in one invocation.",
 ["src/horus_demod.c","horusdemodlib/demod.py"],
 [("read/demodulate/print loop","src/horus_demod.c:main"),("python loop","horusdemodlib/demod.py:main")],
 observe=["stdout, stderr, exit status"])

p("C29","Test frame generator and modulator tools produce receivable transmissions",
 "For every supported mode and frame count, the test-bit generator emits exactly that many complete frames, each a valid packet of that mode, and the modulator tool turns any bit stream into exactly the corresponding number of samples with continuous phase and constant amplitude at the requested tones. Fed through the receiver (followed by enough silence for its buffer to empty), exactly the generated number of packets comes out.",
 ["configurations","inputs"],"all generator modes x frame counts x modulator settings grid",
 "One pipeline per mode is run with a fixed setting.",
 ["src/horus_gen_test_bits.c","src/fsk_mod.c","src/fsk.c"],
 [("frame generation","src/horus_gen_test_bits.c"),("modulation","src/fsk.c:fsk_mod, src/fsk_mod.c")],
 observe=["stdout bytes of the tools"])
p("C30","Reported modem statistics describe the received signal",
 "After every block the receiver's statistics are finite and in range whatever the input, the same through every accessor, and reading them never changes reception. On a clean signal the reported tones are the transmitted ones in ascending order (within a third of the symbol rate), the SNR estimate follows the true one, and the clock offset has the right size and sign. A frame's attached statistics, and the statistics lines of the command line receiver, are the receiver's values at that moment and never change afterwards.",
 ["inputs","configurations","histories"],"tone plans x formats x estimators x timing, noise levels -1..13 dB, clock offsets, all short sequences over an alphabet of input blocks; Python frames and command line lines against the plain library loop",
 "Tests never look at a statistic's value; published frequencies and signal reports are computed from them.",
 ["src/fsk.c","src/horus_api.c","src/horus_demod.c","horusdemodlib/demod.py"],
 [("estimates","src/fsk.c:fsk_demod_core, fsk_demod_freq_est, fsk_get_demod_stats"),("accessors","src/horus_api.c:horus_get_modem_stats, horus_get_modem_extended_stats"),("frames","horusdemodlib/demod.py:HorusLib")],
 observe=["struct MODEM_STATS after each block","Frame.extended_stats, Frame.snr","statistics lines"])

p("C31","FSK test tools generate, demodulate and count bits exactly",
 "fsk_get_test_bits writes exactly the whole fixed test frames that fit in the requested count. fsk_put_test_bits counts every test frame and bit error in any bit stream, and passes exactly when its thresholds are met. fsk_demod writes one decision per bit of every complete input block - on a clean signal the transmitted bits, soft decisions agreeing in sign - for every input format and setting, with right test frame counts and true statistics lines. Unusable arguments or files end these tools without a crash.",
 ["inputs","configurations"],"all counts x frame sizes; all short bit strings x thresholds; modes x input formats x options x timing x truncation points, against the test frame, a sliding-window model and the plain library loop",
 "These programs have no tests at all; modem changes are qualified with the error rates they report.",
 ["src/fsk_demod.c","src/fsk_get_test_bits.c","src/fsk_put_test_bits.c","src/fsk.c"],
 [("generator","src/fsk_get_test_bits.c:main"),("counter","src/fsk_put_test_bits.c:main"),("demodulator","src/fsk_demod.c:main")],
 observe=["standard output","report lines","exit status"])
p("C32","The receive scripts wire radio, demodulators and uploaders as configured",
 "For every setting of a shipped receive script (start_*.sh, scripts/docker_*.sh), the radio is started once with the configured device, gain, bias and offset at a rate the demodulators expect; each configured signal gets exactly one demodulator of its kind, fed with the radio's complete stream and searching exactly the configured width around that signal; its output goes to its own uploader, which is told the frequency actually tuned (and, if any, that signal's target frequency) and, where the script takes arguments, the user's. A signal sent at a configured frequency therefore comes out of its own chain once and is reported at its true frequency. Without a needed program the radio is not started, and the ka9q channel is closed when its chain ends for whatever reason.",
 ["configurations","inputs"],"product of the scripts' settings (frequencies, widths, offsets, gain, bias, ppm, device, arguments) x missing programs x local venv x radio failure; real demodulators on one packet per configured signal",
 "The scripts are not run by any test; a copied line with one wrong number misreports one payload of eight.",
 ["start_rtlsdr.sh","start_dual_4fsk.sh","start_dual_rtty_4fsk.sh","start_triple_4fsk.sh","start_eight_4fsk.sh","start_gqrx.sh","scripts/docker_single.sh","scripts/docker_dual_4fsk.sh","scripts/docker_dual_rtty_4fsk.sh","scripts/docker_ka9q_single.sh","scripts/docker_soapy_single.sh","horusdemodlib/demod.py","horusdemodlib/uploader.py"],
 [("tuning and search window arithmetic","start_*.sh, scripts/docker_*.sh"),("pipelines","start_*.sh, scripts/docker_*.sh"),("command line options","horusdemodlib/demod.py:main, horusdemodlib/uploader.py:main")],
 observe=["arguments and input of every program a script starts","exit status"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
