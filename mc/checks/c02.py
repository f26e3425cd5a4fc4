"""C02: encoder output equals the reference encoder for every size and an affine basis (and more) of payloads; memory exactness."""
from vlib import *
from checks.c01 import SRC, VARIANTS
LEVEL = "exploration"
ASSUMPTIONS = ["Frames are affine in the payload over GF(2), so agreement on every byte value at every position over fixed backgrounds extends to all payloads; the reference encoder is pinned to the format by the project's golden packets."]
GOLDEN = [("000900071E2A000000000000000000000000259A6B14", None)]

def run(chk):
    chk.cov["rule"] = "one case per (size, position, byte value, background, variant); all non-trivial. Oracle: mc/c/ref.h reference encoder; ASan exact-size buffers"
    for v, d in VARIANTS.items():
        exe = cbuild("fec-" + v, ["fec.c"], SRC, defs=d)
        run_shards(chk, exe, ["--job", "format", "--thorough", int(not chk.quick)], label="format-" + v)
        exa = cbuild("fec-asan-" + v, ["fec.c"], SRC, defs=d, cflags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=shift"], opt="-O1")
        run_shards(chk, exa, ["--job", "mem"], label="mem-" + v)
    wrapper(chk)

def wrapper(chk):
    """The Python wrapper produces the same frames as the C encoder's reference and inverts them."""
    import_repo()
    import binascii
    from horusdemodlib.encoder import Encoder
    from pyref import ref_encode
    e = Encoder()
    n_ = 0
    for n in list(range(1, 129)):
        for k in range(4):
            p = [bytes(n), b"\xff" * n, bytes((i * 37 + n) & 255 for i in range(n)), bytes((i * i * 7 + 11 * n) & 255 for i in range(n))][k]
            want = ref_encode(p)
            got, cnt = e.horus_l2_encode_packet(p)
            if got != want or cnt != len(want) or e.get_num_tx_data_bytes(n) != len(want):
                chk.violation("wrapper-encode", f"size {n} kind {k}")
            if e.horus_l2_decode_packet(want, n) != p:
                chk.violation("wrapper-decode", f"size {n} kind {k}")
            n_ += 1
    # the format's published golden vector (also embedded in the project's documentation and tests)
    g = bytes.fromhex("2424C06B300D0415C5DBD332EFD7C190D7AF7F3C2891DE9F4BA1EB2B437BE1E2D8419D3DC9E44FDF78DAA07A98")
    pay = e.horus_l2_decode_packet(g, 22)
    if binascii.crc_hqx(pay[:-2], 0xffff) != int.from_bytes(pay[-2:], "little"):
        chk.violation("golden", "published frame no longer decodes to a checksummed payload: " + pay.hex())
    if ref_encode(pay) != g or e.horus_l2_encode_packet(pay)[0] != g:
        chk.violation("golden", "published frame not reproduced by the encoder")
    for bad in ("abc", None, 5, bytearray(b"abc")):
        try:
            e.horus_l2_encode_packet(bad)
            chk.violation("wrapper-type", f"accepted {bad!r}")
        except TypeError:
            pass
    chk.add("evaluations", n_); chk.add("distinct_nontrivial", n_)
    chk.cov["wrapper_frames"] = n_
