"""Values worth trying as inputs because the library's own text mentions them
(a dictionary, as fuzzers use).  Only input generation looks at them; nothing
is concluded from the text."""
import glob, json, re

P = 0x12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001

SRC = ["/repo/poseidon377/src/*.rs", "/repo/poseidon-permutation/src/*.rs", "/repo/poseidon-parameters/src/*.rs"]
NUM = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:_?(?:u|i)(?:8|16|32|64|128|size))?(?![\w.])")


def number(s):
    s = s.replace("_", "")
    return int(s, 0) if s[:2] in ("0x", "0b", "0o") else int(s)


def strip_tests(t):
    i = re.search(r"#\[cfg\((all\()?test", t)
    return t[:i.start()] if i else t


def values(limit=8):
    out = []
    def add(v):
        v %= P
        if v >= 64 and v <= P - 64 and v not in out:
            out.append(v)
    for g in SRC:
        for f in sorted(glob.glob(g)):
            t = strip_tests(open(f, errors="replace").read())
            t = re.sub(r"//[^\n]*", "", t)
            t = re.sub(r"<[\d,\s]+>", "", t)
            for s in re.findall(r'b?"((?:[^"\\\n]|\\.)*)"', t):
                if re.fullmatch(r"\d{2,}", s):
                    add(int(s))
                elif re.fullmatch(r"(0x)?[0-9a-fA-F]{8,}", s):
                    add(int(s, 16))
            for s in re.findall(r'b"((?:[^"\\\n]|\\.)*)"', t):
                add(int.from_bytes(s.encode("utf8", "replace"), "little"))
            t = re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)
            for m in re.findall(r"\[([^\[\]]{3,4000})\]", t):
                parts = [x.strip() for x in m.split(",") if x.strip()]
                if 2 <= len(parts) <= 64 and all(NUM.fullmatch(x) for x in parts):
                    ns = [number(NUM.fullmatch(x).group(1)) for x in parts]
                    w = 8 if len(ns) > 8 else 64 if len(ns) <= 4 else 32
                    if all(n < 1 << w for n in ns):
                        v = sum(n << (w * i) for i, n in enumerate(ns))
                        add(v)
                        add(v * pow(1 << 256, -1, P))
            for m in NUM.finditer(t):
                add(number(m.group(1)))
            for a, b in re.findall(r"\b1(?:_?u\d+)?\s*<<\s*(\d+)()", t):
                add(1 << int(a))
    return ["%x" % v for v in out[:limit]]


def extra(c):
    v = values()
    if not v:
        return ""
    c.cov["dictionary_values"] = len(v)
    p = c.work + "/extra.json"
    json.dump(v, open(p, "w"))
    return p


if __name__ == "__main__":
    print(values())
