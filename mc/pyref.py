"""Independent Python references (format, checksum) shared by the Python explorers. No project code."""
def crc16(data, c=0xFFFF):
    for b in data:
        c ^= b << 8
        for _ in range(8):
            c = ((c << 1) ^ 0x1021) & 0xFFFF if c & 0x8000 else (c << 1) & 0xFFFF
    return c

def golay_parity(d):
    r = d << 11
    for b in range(22, 10, -1):
        if r >> b & 1:
            r ^= 0xC75 << (b - 11)
    return r

def _prime(nbits):
    if nbits == 43 * 8: return 337
    if nbits == 63 * 8: return 389
    x = int(nbits / 1.62) + 1
    while any(x % i == 0 for i in range(2, int(x ** .5) + 1)): x += 1
    return x

def coded_len(n):
    return (16 + 8 * n + 11 * ((8 * n + 11) // 12) + 7) // 8

def scramble(b):
    s, out = 0x4a80, bytearray(b)
    for i in range(len(out) * 8):
        o = (s >> 1 ^ s) & 1
        out[i // 8] ^= o << (i % 8)
        s = s >> 1 | o << 14
    return bytes(out)

def ref_encode(pay):
    n = len(pay)
    bits = [pay[i // 8] >> (7 - i % 8) & 1 for i in range(8 * n)]
    out = list(bits)
    for k in range(0, 8 * n, 12):
        w = bits[k:k + 12]
        d = 0
        for x in w: d = d << 1 | x
        if len(w) < 12: d <<= 1
        p = golay_parity(d)
        out += [p >> i & 1 for i in range(10, -1, -1)]
    body = coded_len(n) - 2
    out += [0] * (body * 8 - len(out))
    raw = bytes(sum(out[i * 8 + j] << (7 - j) for j in range(8)) for i in range(body))
    nb = body * 8
    il = bytearray(body)
    for i in range(nb):
        j = _prime(nb) * i % nb
        il[j // 8] |= (raw[i // 8] >> (i % 8) & 1) << (j % 8)
    return b"\x24\x24" + scramble(il)

def ref_decode(frame, n):
    """inverse of ref_encode without error correction: payload of n bytes if the frame is exactly the encoding of it, else None"""
    if len(frame) != coded_len(n) or frame[:2] != b"\x24\x24": return None
    il = scramble(frame[2:])
    nb = len(il) * 8
    raw = bytearray(len(il))
    for i in range(nb):
        j = _prime(nb) * i % nb
        raw[i // 8] |= (il[j // 8] >> (j % 8) & 1) << (i % 8)
    p = bytes(raw[:n])
    return p if ref_encode(p) == frame else None
