"""writes DESIGN.md (text below, table of properties, table of planted bugs from seeded/*/meta.json and tools/catches.txt)"""
import glob, json, os
B = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
HEAD = r'''# Model checking horusdemodlib

The deciding step of every check is *exhaustive enumeration* of a bounded space - all words, all error patterns, all
alignments, all call interleavings, all fault sequences, all histories to a depth - executed on the **real code**
compiled/imported from /repo's working tree at check time, with an independent oracle on every execution. No sampling,
no solver verdicts over source. Bounds and counts are in every evidence file. Where a model appears (the "last
announcement" map of C14, the sliding window of C25, the delivery model of C18/C19/C21), it is never checked on its own:
every model step is replayed on the implementation and compared, so there is no model/code gap to validate separately.

Property/check numbers: C01-C32, all claimed; nothing is listed under `not_applicable`.

## Why exhaustive enumeration reaches far here

* The coder is affine over GF(2): an encoder that agrees with a reference on every byte value at every position over
  fixed backgrounds agrees on all payloads of that length; error patterns act per 23-bit codeword, so the packet level
  statement factors into 2^23 words x codeword positions.
* The receiver above the demodulator is a deterministic transducer of bits; its only dependence on history is the bit
  window and the list of tracked unique words. The seam `fsk_demod_core` (linker `--wrap`, no change in /repo) lets a
  harness play any bit history: alignments, gaps and error placements are enumerated instead of recorded.
* The demodulator itself is a numeric transducer of samples. Its input space cannot be enumerated, but timing phase x
  tone plan x format x configuration can (all (half-)sample offsets of a symbol), and so can all sequences over a small
  alphabet of blocks - including hostile ones - to a depth.
* The Python side is sequential or two-threaded; clock, HTTP, sockets, files and the thread scheduler are replaced by
  harness seams (monkeypatching from outside), so schedules and fault sequences are explicit choice points explored depth
  first (stateless model checking, deviation bounded).

No hooks were needed in /repo (`hooks` in MANIFEST.json is empty); all seams are link time, LD_PRELOAD or import time.

## Layout

* `mc/run.py ID [--tier quick|thorough]` runs one check, writes `evidence/ID.json`, prints VIOLATION / KNOWN-FINDING;
  a violation's replay file (`replays/ID.json`) lists the failing keys and cases.
* `mc/vlib.py` builds from /repo's current sources into `build/<hash of sources and flags>` (git-ignored), findings,
  evidence. `mc/pymc.py` parallel enumeration helpers and hang alarm. `mc/world.py` controlled scheduler + virtual clock.
* `mc/checks/cNN.py` one driver per property. `mc/c/*.c` harnesses: `rx.c` bit stream receiver, `dsp.c`/`stats.c` modem,
  `fec.c` coder, `v3c.c` generated codec, `fsshim.c` file-system fault shim, `fskref.c` plain library loop.
* `mc/pyref.py`, `mc/c/ref.h`, `mc/uper.py`, `mc/modulate.py` independent oracles (coder/CRC, UPER codec, modulator).
* `known_findings.txt` findings and repaired defects. `seeded/` planted bugs. `tools/` helpers not used by checks.

Exit codes: 0 held, 1 violation, 2 the check could not decide (build error and the like).

## Per property

Cost is wall time of the quick check on 8 cores. "Tests" says why the unit tests cannot settle it.

'''
ROWS=[
("C01","Golay/interleaver/scrambler decode",
 "all 2^23 received words (3 build variants: run-time tables, static tables, with/without interleaver) against the perfect-code construction; then at packet level every <=3-bit pattern in every codeword position for every operational size and three payload kinds",
 "reference encoder written from the format; a word within distance 3 of a codeword must decode to it","complete for codewords","tests flip a handful of bits"),
("C02","Frame encoder","sizes 1..128 x every byte value x every position x backgrounds, C encoder and cffi wrapper; exact-size ASan buffers","reference encoder `ref.h`; golden packets pin it","affine extension to all payloads","tests hold a few golden packets"),
("C03","Delivery of binary packets","every bit stream of: single packets at every alignment 0..Nbits-1 x preamble kinds, pairs with every gap, triples back to back, packets with enumerated errors in codewords, truncated streams, long runs with more than one wrap of the UW list","list of transmitted packets + independent bit-exact receiver","gaps 0..~2 blocks, <=3 packets","sample files have one alignment each"),
("C04","Damage is never accepted","every 1-,2-bit and adjacent 3-bit flip, bursts, byte swaps, of decoded content re-encoded for the air (so the FEC does not hide the CRC path), x sizes; CRC state machine of C and Python compared on all 65536 states x 256 inputs","bit-serial CRC-16","patterns per format","tests check one bad CRC"),
("C05","RTTY sentences","all alignments x '$' counts 0..9 x lengths x CR/LF/none endings x 3 framings; pairs with all gaps; every single character corruption x 255 values","reference parser on the same bit stream","<=2 sentences, length <=120","one recording per framing"),
("C06","Receiver memory safety","the stream families of C03/C05 plus hostile ones ('$' and UW floods, missing '*', oversize) with exact-size heap buffers under ASan+UBSan and under MSan","sanitizers, termination, delivered => contained","bounded families","tests run without sanitizers"),
("C07","Clean signal demodulates","every sample/half-sample timing offset of a symbol x tone plans x real/IQ x oversampling x both estimators x limits x clock offsets <= 1000 ppm, from ideal and own modulators; whole packets at every offset of a grid","transmitted bits: zero errors after 3 blocks; packets once, in order","grid in evidence","recordings have one timing and tone plan"),
("C08","Instances independent","all interleavings of the call sequences of two instances for each mode pair; all open/use/close histories to a depth with memory and stack filled differently each time; MSan/ASan replays","digest of the solo run per step; zero live allocations","quarter-recording steps","tests open one instance"),
("C09","Requested sample counts","all block sequences to a depth over an alphabet of extreme blocks; grid of rate/tone spacing/mode combos: refused or fully exercised; every sample of a request perturbed and shown to matter","nin within [N-Ts/2, N+Ts/2] and advertised maximum; guard zones","Ts <= 7680","tests use default configuration"),
("C10","Chunking","every composition of short byte streams x request-size sequences over a stand-in modem; every split point of longer ones; real packet streams on the real modem","same stream whole; byte-exact blocks","streams <= ~14 bytes fully","tests use one chunk size"),
("C11","Input rates","every rate x request x block length around the request x channels, stand-in modem checking every buffer; ramp/tone continuity; packets at 16 rates on the real modem","arithmetic","rates 8k..192k","tests use 48 kHz and one other"),
("C12","v1/v2 decoding","full domains of every byte/time field, boundary products of the rest, packet histories across payload ids","independent layout oracle incl. custom fields","depth 3 histories","a few golden packets"),
("C13","v3 decoding","2^10 presence subsets x value profiles, boundary pairs, sensor lists, constraint violations, truncations, histories (non-mutation of inputs and shared state)","independent UPER encoder + README mapping","-","a few golden packets"),
("C14","Sensor names","26^2 x 5, 31^3, 11^4 histories over payloads x slots x {absent, unnamed, A, B}; several callsigns incl. prefix/case twins","last-announcement map","depth 4","tests send two packets"),
("C15","Sentences","products of classed field texts, every single-character edit, truncation, all 65536 checksum texts","classed acceptance oracle, exact values","-","tests hold ~10 sentences"),
("C16","C vs Python v3 codec","schema values: presence lattice, bit walks, list sizes, alternatives, pairs; values and messages outside constraints, each judged by C constraint checking, the C encoder and the Python codec","reference UPER codec; bit equality three ways","C long range","Python codec only is tested"),
("C17","C v3 decoder robustness","all truncations, single/double flips, byte substitutions of a corpus; all inputs up to 2-3 bytes; extension additions, bitmaps and open types; in exact-size blocks under ASan/LSan/UBSan; decoded values re-encoded","sanitizers, idempotence, constraints","-","no test feeds bad bytes to C"),
("C18","Upload retry policy","depth-first over the answer to each HTTP attempt (35 answers incl. exceptions) for telemetry and station uploads, long backlogs","policy automaton; every attempt's body and headers","batches x attempts","needs a server"),
("C19","Exactly-once upload","every schedule with each source line of the uploader a preemption point, <=2 (3) deviations; add/close/backlog scenarios","uploaded multiset = queued, order, promptness","deviation bound","thread timing"),
("C20","Eligibility and mapping","time offsets at each second around limits x addressing x completeness; presence lattice; every value of each integer field alone; every decoder's output","independent eligibility/mapping oracle","-","a few records"),
("C21","Receive pipeline","every sequence (depth 3) over 47 lines (binary, RTTY, statistics, noise, undecodable bytes) x options x failing effects through the real main()","per-line effect model","-","lines are sampled"),
("C22","List loading","entry sequences, short texts, download outcomes x stored states x histories; each file-system call of the store failing/short/crashing","entry-wise oracle; old or new file","process crash only","no faults in tests"),
("C23","v2 generator","grids around every limit, all field pairs, all times/ids","packing oracle","-","a few values"),
("C24","Bit/symbol expansion","every byte, byte pair, preamble, size; real modulator/receiver loop","arithmetic","-","-"),
("C25","Averaged statistics","all histories to depth over time steps x values x malformed updates, mean and peak; every pair/quadruple of tones and SNR/ppm magnitude; default settings","list model","depth 4-5","one history"),
("C26","UDP messages","every subset of failing socket calls x 88 decoder-made records, leak accounting, time limits","fake network; expected JSON","-","no failures in tests"),
("C27","Midnight","every second near midnight x clocks around 16 boundary days (month/year/leap)","real timestamps","|skew|<1 h","three times"),
("C28","CLI receivers","C and Python programs x mode x IQ x options x input/output form x read chunking; truncation at each block edge; promptness on open pipes; estimator limits, tone spacing, default rate and every mode spelling with a second signal present","plain library loop","-","one run per mode"),
("C29","Generator/modulator tools","modes x counts (incl. counter wrap), every short bit string x settings, pipelines into receiver","independent decoder, phase/amplitude recurrence","-","not tested"),
("C30","Modem statistics","tone plans x formats x estimators x timing, noise -1..13 dB, clock offsets, all block sequences to depth 3 (thorough 4) over 8 extreme blocks; Python frames kept over time; C and Python program statistics lines","transmitted tones/noise/offset within stated tolerances; agreement of all accessors and programs","tolerances in evidence","no test reads a statistic"),
("C31","FSK test tools","get: counts x frame sizes; put: all 10-13 bit strings for 3 frame sizes, structured streams for others x thresholds; demod: modes x formats x options x timing x noise x full scale x every value, truncation +-3 bytes around block edges, ASan build","glibc frame, sliding window model, transmitted bits, plain library loop byte for byte","nsym >= 10","not tested"),
("C32","Receive scripts","product of settings x arguments per script (bounds printed), missing programs, venv, radio failure, shipped defaults; real demodulators with one packet per configured signal x frequency offsets","settings arithmetic on recorded calls; stream checksum; packet at its own uploader once, frequency within 40 Hz","grid values","scripts never run by tests"),
]
TAIL = r'''
## Judgements about what is and is not specified (false alarms that were removed by narrowing)

* C01/C02/C13/C16: floats are compared bit for bit except -0.0 = 0.0.
* C03: streams that contain another packet by a 16-bit checksum coincidence are recognised by the reference receiver and
  only checked for "delivered => contained in the bits". The list of tracked unique words holds 32; floods beyond that may
  lose packets. Unique words are accepted with at most one bit error.
* C05: RTTY needs mark or non-'$' idle; a NUL character ends a sentence; the longest sentence is 120 characters.
* C07/C09: symbols longer than 7680 samples need more stack than usual (DEMOD_ALLOC_STACK, documented in fsk.c): not run.
  The advertised maximum is in units larger than samples (sizeof(short) x ...): only nin <= value is judged.
* C08: closing one Python receiver object twice frees the C state twice; not part of any property, not repaired.
* C12/C14: Custom fields of a payload are shared with the list object: existing tests rely on in-place mutation of
  HORUS_CUSTOM_FIELDS, so that alias was left alone.
* C15: Python numeral quirks ("1_0", "+1", " 1") are unspecified. C21: the text of log lines of version 3 packets is too.
* C16/C17: UBSan's pointer-overflow (NULL+0 in generated code) is excluded; asn1c's stack check needs ASan without
  use-after-return detection.
* C18: an exception ends a batch or is retried; a position upload may retry only on 500. C22: power loss not modelled;
  the HTTP status of a download is not judged. C25: "nan" inside eye diagrams is 0.
* C26: if the socket or its mandatory options cannot be set up, nothing is sent; sends on broadcast sockets must have a time
  limit; the OziMux sender never had one and is not judged for it.
* C27: times are "HH:MM:SS"; dateutil's reading of other forms is out of scope.
* C28: the Python program prints "CRC BAD" lines with -v. Mode -1 without -m asserts (refusal).
* C29: bytes behind a generated v3 message are uninitialised padding: ignored by every receiver, not judged.
* C30: an early version compared Python frames with the library loop's *checked* packets; the wrapper also delivers frames
  whose checksum fails (decode_packet refuses them later), so the oracle counts every non-empty output.
* C32: an uploader without a target frequency is allowed (two scripts leave one out); quoting of user arguments with spaces is not judged.
* C31: below ten symbols per block the library asserts (eye diagram): refusal. Ties at inexact thresholds are not judged.

Recorded finding (known_findings.txt): C13, text sensor named "count" in slot k collides with counter k; repairing it would
change the published field names. All other defects found were repaired by `fix:` commits listed in the same file.

* C22: a payload line with a wrong number of fields defines nothing; which of two well formed entries for one number is in
  force is open.

## How the checks were tested

* Planted bugs (table below), each independent of the checks.
* Mutants: one-token mutants (comparison, constant, operator, deleted statement) of the Python modules and C sources were run
  against the checks; survivors were read one by one (equivalent, outside every property, or a gap that was closed). They led
  to: pool draining in `pymc.py` (a flood of violations could hang the run), C25 default settings, C22 malformed lines.
* Endless loops: C explorers carry a processor-time watchdog per case (200 s), Python items an alarm (300 s), native code that
  hears no alarm is noticed by the parent, and the check as a whole answers by 780 s. Tried with loops that stop advancing in
  `demod.py` (C10) and `horus_api.c` (C03, C07): each ends as a violation inside the 900 s.
* Refactorings: a copy of the tree with about 60 behaviour-preserving edits over all Python modules, the C library, the tools
  and two scripts (helpers extracted, loops rewritten, statements reordered, arithmetic restated) was run through all 32
  checks; it led to one correction (C13 used one callsign for two items, so the answer depended on which worker ran them).

## Planted bugs

`seeded/<id>` (id = property + letter). Each builds, passes the stable tests, and is confirmed by its demo. The table is made
from runs of `tools/trybug.sh` (quick tier). Bugs missed at first led to: C01 packet-level positions, C05 endings, C08 memory
fill, C09 consumption check, C13 history interleaving, C14 prefix names, C18/C19 long backlogs, C20 mutation check, C21
faults, C26 time limits, C28 chunked reads, C29 wrap counts, C31 full-scale samples.

| bug | needs | caught by |
|---|---|---|
'''
wall = {}
w = os.path.join(B, "tools", "cost.json")
if os.path.exists(w): wall = json.load(open(w))
for f in glob.glob(B + "/evidence/*.json"):
    e = json.load(open(f))
    if e["tier"] == "quick": wall[e["property"]] = round(e["wall_s"])
json.dump(wall, open(w, "w"))
P = {json.loads(l)["id"]: json.loads(l) for l in open(B + "/properties.jsonl")}
o = HEAD + "| | enumerated on the real code | oracle | limits | cost | tests |\n|---|---|---|---|---|---|\n"
for i, t, a, b, c, d in ROWS: o += f"| **{i}** {t} | {a} | {b} | {c} | {wall.get(i, '?')} s | {d} |\n"
c = {}
for l in open(os.path.join(B, "tools", "catches.txt")):
    k, v = l.rstrip("\n").split("\t"); c[k] = v
o += TAIL
for d in sorted(glob.glob(B + "/seeded/*/meta.json")):
    k = d.split("/")[-2]; o += f"| {k} | {json.load(open(d))['needs']} | {c.get(k, '?')} |\n"
open(B + "/DESIGN.md", "w").write(o)
missing = set(P) - {r[0] for r in ROWS}
print("DESIGN.md", len(o), "missing", missing)
