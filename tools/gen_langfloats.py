"""Writes spec/LangFloats.tla: the float each short literal of LangGen's alphabet denotes
(Float32 re-checks every entry, so a wrong one only makes a text unjudged)."""
import itertools, re, struct, os
rows = []
def add(lit):
    v = float(lit)
    try:
        b = struct.unpack("<I", struct.pack("<f", v))[0]
    except OverflowError:
        b = 0x7f800000
    inf = (b & 0x7fffffff) == 0x7f800000
    ex, man = (b >> 23) & 255, b & 0x7fffff
    m, e = (man, -149) if ex == 0 else (man | 0x800000, ex - 150)
    if inf: m, e = 0, 0
    rows.append("[lit |-> <<%s>>, neg |-> %d, m |-> %d, e |-> %d, inf |-> %s]" % (",".join(str(ord(c)) for c in lit), b >> 31, m, e, "TRUE" if inf else "FALSE"))
ok = re.compile(r"^-?(\d+\.\d*|\.\d+)(E-?\d+)?$")
for n in range(1, 6):
    for t in itertools.product("07-.E", repeat=n):
        s = "".join(t)
        if ok.match(s) and s[0] != ".":
            add(s)
for s in ("1.5", "-0.1", "0.1", "3.4028235e38", "3.4028236e38", "1.0e-46", "16777217.0"):
    add(s)
out = "---- MODULE LangFloats ----\nEXTENDS Integers\n(* generated by tools/gen_langfloats.py; every entry is confirmed by Float32 before use *)\nShortFloats == <<\n " + ",\n ".join(rows) + " >>\n====\n"
open(os.path.join(os.path.dirname(__file__), "..", "spec", "LangFloats.tla"), "w").write(out)
print(len(rows))
