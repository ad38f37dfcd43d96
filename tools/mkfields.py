"""Writes harness/paramgen/fields.in: prime fields for the parameter generator.
Every exponent the candidate table can yield, and none, are reached by fields
whose p-1 shares a factor with all earlier candidates; sizes cover one to
twelve limbs and bit lengths around byte and limb boundaries."""
import random
from sympy import isprime, nextprime
R = random.Random(377)
ORDER = [3, 5, 9, 7, 17, 15, 13, 11, 33, 27, 25, 23, 21, 19, 65, 51, 49, 45, 43, 41, 39, 37, 35, 31, 29]
PR = [3, 5, 7, 17, 13, 11, 23, 19, 43, 41, 37, 31, 29]
out = []
SEP = []
def add(p, sep=False):
    if sep: SEP.append(p)
    if p not in out: out.append(p)
def find(m, bits, avoid):
    for _ in range(10**6):
        k = R.getrandbits(max(1, bits - m.bit_length())) | 1 << max(0, bits - m.bit_length() - 1)
        p = m * k + 1
        if p % 2 and isprime(p) and all((p - 1) % q for q in avoid): return p
    raise Exception((m, bits))
for p in (3, 5, 7, 11, 13, 31, 61, 211, 257, 30031, 65537): 
    if isprime(p): add(p, p in (3, 11, 257, 65537))
for i, c in enumerate(PR + [None]):
    m = 2
    for q in PR[:i]: m *= q
    avoid = [] if c is None else [c]
    base = m.bit_length()
    for bits in (max(base + 14, 60), 253):
        add(find(m, bits, avoid))
    # extra factors: powers of earlier primes, and later candidates
    for extra in (9 if i > 0 else 1, 25 if i > 1 else 1):
        if extra > 1: add(find(m * extra, base + extra.bit_length() + 20, avoid))
    later = [q for q in PR[i + 1:]]
    if later:
        mm = m
        for q in later: mm *= q
        add(find(mm, mm.bit_length() + 12, avoid))
# one earlier candidate skipped: the first coprime one wins although later ones are coprime too
for i, c in enumerate(PR):
    m = 2
    for q in PR:
        if q != c: m *= q
    add(find(m, m.bit_length() + 16, [c]))
# sizes
for bits in (9, 16, 17, 33, 64, 65, 120, 128, 129, 192, 193, 249, 256, 257, 377, 384, 753):
    p = R.getrandbits(bits) | 1 << (bits - 1) | 1
    add(nextprime(p) if nextprime(p).bit_length() == bits else find(2, bits, []), True)
for p in (0x12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001, # decaf377
          0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001, # BLS12-381 scalar
          21888242871839275222246405745257275088696311157297823662689037894645226208583,
          21888242871839275222246405745257275088548364400416034343698204186575808495617,
          2**255 - 19, 2**127 - 1, 2**64 - 2**32 + 1):
    assert isprime(p); add(p, True)
with open("/verif/harness/paramgen/fields.in", "w") as f:
    f.write("fields! {\n")
    for i, p in enumerate(out):
        n = (p.bit_length() + 63) // 64
        f.write('    f%d F%d %d %d %s [%s];  // %d\n' % (i, i, i, n, 'sep' if p in SEP else 'no', ", ".join(hex(p >> (64 * k) & (2**64 - 1)) for k in range(n)), p))
    f.write("}\n")
print(len(out))
