"""technique, level, level_note per property (source of MANIFEST.json)"""
X = "exploration"
T = {
"C01": ("exhaustive enumeration of all received words and error patterns on the real coder", X, "Complete over 2^23 words in three build variants; packet level complete over <=3-bit patterns per codeword position for the enumerated payload kinds. Trusts the reference encoder and compiler."),
"C02": ("exhaustive enumeration of sizes and an affine payload basis on the real encoder", X, "Byte-exact comparison with an independent reference for sizes 1..128; extension to all payloads rests on GF(2) affinity. Sanitizers judge memory."),
"C03": ("exhaustive bit-stream exploration of the real receiver through a wrapped demodulator", X, "All alignments/gaps/sequences/error placements within the bounds in the evidence; demodulator replaced by a chosen bit source."),
"C04": ("exhaustive fault enumeration of damaged packets on the real receiver and decoder", "fault_enumeration", "All 1-3 bit flips and bursts of the formats' sizes within the printed bounds; CRC agreement by affine basis."),
"C05": ("exhaustive bit-stream exploration of the real RTTY receiver", X, "All alignments, '$' counts, lengths and single-character corruptions in bounds against a reference parser."),
"C06": ("exhaustive bit-stream exploration under ASan/UBSan/MSan", X, "Memory errors are what the sanitizers see on enumerated streams with exact-size buffers."),
"C12": ("exhaustive enumeration of field domains and decode histories on the real decoder", X, "Whole byte/time domains, boundary products and packet histories against an independent layout oracle."),
"C13": ("exhaustive enumeration of optional-field subsets and packet histories", X, "All 2^10 presence subsets x value profiles, boundary pairs, sensor combinations, decode histories; independent UPER encoder as oracle."),
"C14": ("exhaustive enumeration of packet histories against a last-announcement model", X, "Every model step is replayed on the real decoder; histories to the printed depth over 2-3 payloads x slots x {absent, unnamed, two names}."),
"C15": ("exhaustive enumeration of field texts and single-character edits", X, "Field alphabets are finite; verdicts for Python numeral quirks are left unspecified."),
"C18": ("exhaustive enumeration of server answer sequences on the real uploader thread", "fault_enumeration", "Depth-first search over the answer given to each HTTP attempt under a virtual clock and controlled scheduler; requests replaced by a fake."),
"C19": ("stateless model checking of thread interleavings (controlled scheduler, deviation bound)", X, "Every source line of the uploader is a preemption point (opcodes for the smallest scenarios); at most 2-3 deviations; queue operations atomic; virtual time."),
"C20": ("exhaustive enumeration of presence lattice x clock offsets on the real formatter", X, "Independent eligibility/mapping oracle under a controlled clock."),
"C21": ("exhaustive enumeration of input line sequences and failing side effects on the real handler", "fault_enumeration", "Line alphabet and depth bounded; network, uploader and file system replaced by recorders."),
"C22": ("exhaustive enumeration of list texts, download outcomes and stored-file states on the real loaders", "fault_enumeration", "Entry alphabet and depth bounded; requests replaced by a fake, files in a scratch directory."),
"C23": ("exhaustive enumeration of field grids and pairs on the real generator", X, "Independent packing oracle; grids around every limit."),
"C24": ("exhaustive enumeration of bytes, byte pairs, preambles and sizes", X, "Arithmetic oracle; on-air loop through the real modulator and receiver for every operational size."),
"C25": ("exhaustive enumeration of statistics histories against a list model", X, "Histories to the printed depth; every model step replayed on the real class under a virtual clock."),
"C26": ("exhaustive enumeration of failing socket call subsets", "fault_enumeration", "Every subset of failing calls x decoder-produced records, with a fake network and socket leak accounting."),
"C27": ("exhaustive enumeration of payload times and receiver clocks around boundary instants", X, "Every second near midnight of 16 boundary days; skew below one hour."),
"C16": ("exhaustive enumeration of schema values through both codecs and a reference encoder", X, "Presence lattice, bit walks, list sizes, choice alternatives, pairs; integers inside the C long range; 'via' exists only in the Python codec. One known finding (text sensors)."),
"C17": ("exhaustive fault enumeration of message bytes under ASan/LSan/UBSan memory checks", "fault_enumeration", "All truncations, single/double flips, byte substitutions of the corpus and all tiny inputs; memory errors are what the sanitizers see."),
"C07": ("exhaustive enumeration of timing offsets x tone plans x formats on the real modem", X, "Real modulator and demodulator; all (half-)sample offsets of the grid in the evidence; bit patterns fixed; noise-free."),
"C08": ("exhaustive interleaving of receiver call sequences on the real library", X, "All interleavings of two instances' calls per mode pair, all open/use/close histories to a depth, each with different memory fill; MSan/ASan replays."),
"C09": ("exhaustive enumeration of configuration grids x adversarial block sequences under ASan", X, "Every configuration either refused or fully exercised with guard-zoned exact-size input; block alphabet of extreme signals to a depth."),
"C10": ("exhaustive enumeration of chunkings x request-size sequences on the real wrapper", X, "All byte compositions of short streams and all split points of longer ones over a recording stand-in modem; splits of real packet streams on the real modem."),
"C11": ("exhaustive enumeration of rates x block lengths x request sizes on the real wrapper", X, "Stand-in modem verifies each buffer; ramp and continuity oracles for the converter; packets at 16 rates on the real modem."),
"C28": ("exhaustive enumeration of options x input forms x read chunkings x truncation points of the real programs", X, "Read boundaries are forced through pipes; truncation at every block edge; oracle is the plain library loop on complete blocks."),
"C29": ("exhaustive enumeration of modes x counts and of all short bit strings x settings on the real tools", X, "Independent frame decoder/UPER encoder; sample recurrences for tone, phase and amplitude; pipelines end to end."),
"C30": ("exhaustive enumeration of signals and input block sequences with every reading judged", X, "Tone/noise/clock grids and all block sequences to the printed depth on the real modem; estimates judged within tolerances fixed from the clean signal's physics; frames and program lines against the plain library loop."),
"C31": ("exhaustive enumeration of bit strings, settings and truncation points on the real tools", X, "All bit strings of 10-13 bits for small frames, structured streams for real ones; demodulator output compared with the plain library loop byte for byte and with the transmitted bits."),
"C32": ("exhaustive enumeration of configurations, missing programs and failures over real runs of the scripts", X, "Every external program is a recorder; call arguments and stream contents judged against the settings; the project's own argument parsers must accept them; real demodulators on one packet per configured signal."),
}
