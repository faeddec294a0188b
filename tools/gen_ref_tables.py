#!/usr/bin/env python3
"""Derive the reference property tables from the Unicode 15.0.0 data files, independently of
/repo/gen.  Run once at development time (usage: gen_ref_tables.py DATADIR OUT.h); the result is
committed, so that a change to the data files or generators of the code under test is noticed.
Cross-checked against Python's unicodedata (15.0.0)."""
import sys, os, re, unicodedata
D, OUT = sys.argv[1], sys.argv[2]
assert unicodedata.unidata_version == "15.0.0"
N = 0x110000

def rows(fn):
    for line in open(os.path.join(D, fn), encoding="utf-8"):
        line = line.split("#", 1)[0].strip()
        if not line: continue
        f = [x.strip() for x in line.split(";")]
        a, _, b = f[0].partition("..")
        yield int(a, 16), int(b or a, 16), f[1:]

def prop(fn, default):
    t = [default] * N
    for lo, hi, f in rows(fn):
        for c in range(lo, hi + 1): t[c] = f[0]
    return t

gc = [unicodedata.category(chr(c)) for c in range(N)]
extpict = [False] * N
for lo, hi, f in rows("emoji-data.txt"):
    if f[0] == "Extended_Pictographic":
        for c in range(lo, hi + 1): extpict[c] = True

gcb = prop("GraphemeBreakProperty.txt", "Other")
for c in range(N):
    if extpict[c]:
        assert gcb[c] == "Other", hex(c)
        gcb[c] = "ExtPict"
GCB = ["Other","CR","LF","Control","Extend","ZWJ","Regional_Indicator","Prepend","SpacingMark","L","V","T","LV","LVT","ExtPict"]

wb = prop("WordBreakProperty.txt", "Other")
WB = ["Other","CR","LF","Newline","Extend","ZWJ","Regional_Indicator","Format","Katakana","Hebrew_Letter","ALetter","Single_Quote","Double_Quote","MidNumLet","MidLetter","MidNum","Numeric","ExtendNumLet","WSegSpace","ExtPict","ALetterExtPict"]
for c in range(N):
    if extpict[c]:
        if wb[c] == "Other": wb[c] = "ExtPict"
        elif wb[c] == "ALetter": wb[c] = "ALetterExtPict"
        else: raise SystemExit("unexpected %x %s" % (c, wb[c]))

sb = prop("SentenceBreakProperty.txt", "Other")
SB = ["Other","CR","LF","Extend","Sep","Format","Sp","Lower","Upper","OLetter","Numeric","ATerm","SContinue","STerm","Close"]

eaw = prop("EastAsianWidth.txt", "N")
lb = prop("LineBreak.txt", "XX")
LB = ["AL","B2","BA","BB","BK","CB","CL","CM","CP","CPwide","CR","EB","EM","EX","GL","H2","H3","HL","HY","ID","IDcn","IN","IS","JL","JT","JV","LF","NL","NS","NU","OP","OPwide","PO","PR","QU","RI","SP","SY","WJ","ZW","ZWJ","ALcn"]
wide = lambda c: eaw[c] in ("F", "W", "H")
for c in range(N):
    k = lb[c]
    if k in ("AI", "SG", "XX"): k = "AL"
    elif k == "SA": k = "CM" if gc[c] in ("Mn", "Mc") else "AL"
    elif k == "CJ": k = "NS"
    if k in ("CP", "OP") and wide(c): k += "wide"
    if extpict[c] and gc[c] == "Cn":
        assert k in ("ID", "AL"), (hex(c), k)
        k += "cn"
    lb[c] = k

# --- bidi
LONG = {"Left_To_Right":"L","Right_To_Left":"R","Arabic_Letter":"AL","European_Terminator":"ET"}
bc = ["L"] * N
for line in open(os.path.join(D, "DerivedBidiClass.txt"), encoding="utf-8"):
    m = re.match(r"# @missing: ([0-9A-F]+)\.\.([0-9A-F]+); (\w+)", line)
    if m:
        for c in range(int(m[1], 16), int(m[2], 16) + 1): bc[c] = LONG[m[3]]
for lo, hi, f in rows("DerivedBidiClass.txt"):
    for c in range(lo, hi + 1): bc[c] = f[0]
for c in range(N):
    b = unicodedata.bidirectional(chr(c))
    assert b == "" or b == bc[c], (hex(c), b, bc[c])
BC = ["L","R","AL","EN","ES","ET","AN","CS","NSM","BN","B","S","WS","ON","LRE","LRO","RLE","RLO","PDF","LRI","RLI","FSI","PDI"]

brackets = []          # (cp, canonical id of the pair, 'o'/'c')
def canon(c):
    d = unicodedata.decomposition(chr(c))
    return c if not d or d.startswith("<") else int(d.split()[0], 16)
for lo, hi, f in rows("BidiBrackets.txt"):
    pair = int(f[0], 16)
    brackets.append((lo, canon(lo) if f[1] == "o" else canon(pair), f[1]))
mirror = [(lo, int(f[0], 16)) for lo, hi, f in rows("BidiMirroring.txt")]

# --- case
simple = {"lower": {}, "upper": {}, "title": {}}
for line in open(os.path.join(D, "UnicodeData.txt"), encoding="utf-8"):
    f = line.rstrip("\n").split(";")
    if len(f) < 15: continue
    c = int(f[0], 16)
    for k, i in (("upper", 12), ("lower", 13), ("title", 14)):
        if f[i]: simple[k][c] = [int(f[i], 16)]
    if not f[14] and f[12]: simple["title"][c] = [int(f[12], 16)]
for line in open(os.path.join(D, "SpecialCasing.txt"), encoding="utf-8"):
    line = line.split("#", 1)[0].strip()
    if not line: continue
    f = [x.strip() for x in line.split(";")]
    if len(f) > 5 or (len(f) == 5 and f[4]): continue       # conditional mapping
    c = int(f[0], 16)
    for k, i in (("lower", 1), ("title", 2), ("upper", 3)):
        simple[k][c] = [int(x, 16) for x in f[i].split()]
for c in range(N):
    for k, fn in (("lower", str.lower), ("upper", str.upper), ("title", str.title)):
        ours = "".join(map(chr, simple[k].get(c, [c])))
        assert ours == fn(chr(c)), (hex(c), k)
cased = bytearray(N); ign = bytearray(N)
for lo, hi, f in rows("DerivedCoreProperties.txt"):
    t = cased if f[0] == "Cased" else ign if f[0] == "Case_Ignorable" else None
    if t is not None:
        for c in range(lo, hi + 1): t[c] = 1
cs = [("C" if cased[c] else "") + ("I" if ign[c] else "") for c in range(N)]
CS = ["", "C", "I", "CI"]

out = open(OUT, "w")
out.write("/* generated by tools/gen_ref_tables.py from the Unicode 15.0.0 data files; do not edit */\n")
def ranges(name, t, names, prefix):
    out.write("enum %s_class {" % name + ",".join(prefix + (n or "NONE") for n in names) + ", %sNUM};\n" % prefix)
    out.write("static const char *const %s_names[] = {%s};\n" % (name, ",".join('"%s"' % (n or "none") for n in names)))
    out.write("static const struct ref_range %s_ranges[] = {\n" % name)
    i = 0; n = 0
    default = 0
    while i < N:
        j = i
        while j + 1 < N and t[j + 1] == t[i]: j += 1
        k = names.index(t[i])
        if k != default:
            out.write("{0x%x,0x%x,%d},%s" % (i, j, k, "\n" if n % 6 == 5 else "")); n += 1
        i = j + 1
    out.write("\n};\n")
ranges("gcb", gcb, GCB, "G_")
ranges("wb", wb, WB, "W_")
ranges("sb", sb, SB, "S_")
ranges("lb", lb, LB, "B_")
ranges("bc", bc, BC, "BC_")
ranges("cs", cs, CS, "CS_")
ranges("asg", ["A" if gc[c] != "Cn" else "U" for c in range(N)], ["A", "U"], "ASG_")
out.write("static const struct ref_bracket {uint32_t cp, id; char type;} ref_brackets[] = {\n")
for x in brackets: out.write("{0x%x,0x%x,'%s'}," % x)
out.write("\n};\nstatic const struct ref_mirror {uint32_t cp, to;} ref_mirrors[] = {\n")
for x in mirror: out.write("{0x%x,0x%x}," % x)
out.write("\n};\nstruct ref_map {uint32_t cp; uint32_t to[3];};\n")
for k in ("lower", "upper", "title"):
    out.write("static const struct ref_map ref_%s[] = {\n" % k)
    n = 0
    for c, m in sorted(simple[k].items()):
        if m == [c]: continue
        assert 1 <= len(m) <= 3 and 0 not in m
        m = m + [0] * (3 - len(m))
        out.write("{0x%x,{0x%x,0x%x,0x%x}},%s" % (c, *m, "\n" if n % 6 == 5 else "")); n += 1
    out.write("\n};\n")
from collections import Counter
for nm, t in (("gcb", gcb), ("wb", wb), ("sb", sb), ("lb", lb), ("bc", bc), ("cs", cs)): print(nm, dict(Counter(t)))
print(len(brackets), len(mirror), {k: len(v) for k, v in simple.items()})
