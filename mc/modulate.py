"""Independent FSK modulator (phase continuous, float then rounded to 16 bit) for any sample rate, real or quadrature."""
import math, struct
from array import array
def fsk(bits, m, fs, rs, f1, spacing, amp=10000.0, iq=False, lead=0):
    """bits (0/1 list) -> bytes of s16 samples; symbol boundaries at exact (fractional) multiples of fs/rs"""
    k = 1 if m == 2 else 2
    out = array("h")
    ph, n, t = 0.0, 0, 0
    out.extend([0] * (lead * (2 if iq else 1)))
    two = 2 * math.pi
    for i in range(0, len(bits) - k + 1, k):
        s = bits[i] if k == 1 else bits[i] * 2 + bits[i + 1]
        t += 1
        end = round(t * fs / rs)
        w = two * (f1 + s * spacing) / fs
        while n < end:
            ph += w
            if iq: out.append(round(amp * math.cos(ph))); out.append(round(amp * math.sin(ph)))
            else: out.append(round(amp * math.cos(ph)))
            n += 1
        ph %= two
    return out.tobytes()
def bits_of(b):
    return [x >> s & 1 for x in b for s in range(7, -1, -1)]
def rtty_bits(text, nbits=7, nstop=2):
    o = []
    for c in text.encode():
        o.append(0); o += [c >> i & 1 for i in range(nbits)]; o += [1] * nstop
    return o
