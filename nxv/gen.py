"""Makes inputs. Nothing here decides what is right: a text made here may or may not be a program,
the specification says so. `good` aims at programs, `bad` at near misses."""
import random, re
from . import core

FLOATS = ["0.0", "-0.0", "1.0", "-1.0", "0.5", "-0.5", "2.0", "3.14159265", "0.1", "-0.1", "1.5", "65504.0",
          "65519.0", "65520.0", "65535.0", "65536.0", "1.0009765625", "1.00048828125", "1.001", "0.00006103515625",
          "0.000060975551605224609375", "0.000000059604644775390625", "0.0000000298023223876953125",
          "0.00000002980232594040899", "0.00000001", "2047.0", "2049.0", "2051.0", "4097.5", "16777215.0", "16777216.0",
          "16777217.0", "16777219.0", "33554433.0", "123456.789", "-98765.4321", "1.00000011920928955078125",
          "1.000000059604644775390625", "1.00000005960464477539062500001", "0.333333333333333", "255.99999",
          "340282346638528859811704183484516925440.0", "340282356779733661637539395458142568447.9",
          "340282356779733661637539395458142568448.0", "-999999999999999999999999999999999999999999.0",
          "0.00000000000000000000000000000000000001175494350822287507968736537222245677818665556772087521508751706",
          "0.000000000000000000000000000000000000000000001401298464324817070923729583289916131280261941876515771",
          "0.0000000000000000000000000000000000000000000007006492321624085354618647916449580656401309709382578859",
          "0.0000000000000000000000000000000000000000000007006492321624085354618647916449580656401309709382578856",
          "1.", "-3.", "+2.5", "00.50", "007.0", "99999999999999999999.0", "6.", "0.0009765625", "-2.25", "1000000.0"]
FINTS = ["0", "1", "-1", "2", "3", "100", "-7", "0x10", "2047", "2048", "2049", "65504", "65519", "65520", "-65536",
         "16777215", "16777216", "16777218", "33554432", "0x7fffff80", "0x4000000000000000", "1024", "4096", "456"]
SPECIALS = ["QNAN", "INF", "-INF", "+INF", "-QNAN", "+QNAN"]
BADFLOATS = ["16777217", "9223372036854775807", "-9223372036854775807", "0x7fffff8000000000", "-9223372036854775808",
             "0x7fffffc000000000", "9223372036854775808", "0x1000001000000000", "33554434" , "33554433", "-16777219", "0x7fffffff", "NAN", "qnan", "inf", "--1.0", "-", "+",
             "1.0f", "1.5e3", "1..5", "0x1.0", "R1", "P0", "1.2.3", ".5", "INFINITY", "|1.0|", "~1.0", "[1.0]", ""]

BIGINTS = ["9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-18446744073709551616", "99999999999999999999",
           "-99999999999999999999", "0xffffffffffffffff", "0x8000000000000000", "-0x8000000000000001", "0x10000000000000000", "01777777777777777777777",
           "-01000000000000000000001", "1" + "0" * 40, "-1" + "0" * 40, "1" + "0" * 400]


def number(rng, v):
    """some spelling of an integer"""
    s, a = ("-", -v) if v < 0 else ("", v)
    r = rng.random()
    if r < .45:
        return s + "%d" % a
    if r < .8:
        return s + "0x%x" % a
    if r < .88:
        return s + "0x%X" % a
    if r < .92:
        return s + "0X%x" % a
    if r < .96:
        return s + "0%o" % a
    return (s or "+") + "%d" % a


def interesting(rng, bits, signed):
    hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    lo = -(1 << (bits - 1)) if signed else 0
    r = rng.random()
    if r < .25:
        return rng.choice([hi, lo, hi - 1, min(lo + 1, hi), 0, min(1, hi), hi // 2, hi // 2 + 1])
    if r < .5:
        v = 1 << rng.randrange(bits)
        v = v if rng.random() < .5 else -v
        return max(lo, min(hi, v + rng.choice([-1, 0, 0, 1])))
    return rng.randint(lo, hi)


def edges(bits, signed):
    hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    lo = -(1 << (bits - 1)) if signed else 0
    vals = {hi, lo, hi - 1, lo + 1, 0, 1, 2, 3, 4, 5}
    for k in range(bits):
        vals |= {1 << k, (1 << k) - 1, (1 << k) + 1}
        if signed:
            vals |= {-(1 << k), -(1 << k) + 1, -(1 << k) - 1}
    return sorted(v for v in vals if lo <= v <= hi)


def outside(bits, signed):
    hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    lo = -(1 << (bits - 1)) if signed else 0
    vals = [hi + 1, hi + 2, lo - 1, lo - 2, 2 * hi + 1, 2 * hi + 2, 2 * lo - 1]
    for k in (8, 16, 19, 20, 24, 31, 32, 33, 40, 62):
        vals += [1 << k, (1 << k) - 1, (1 << k) + 1, -(1 << k), -(1 << k) - 1, (1 << k) + hi // 2]
    vals += [(1 << 63) - 1, -(1 << 63), 1 << 63, 1 << 64, (1 << 64) - 1, -(1 << 63) - 1]
    return sorted({v for v in vals if not lo <= v <= hi})


def reg(rng):
    r = rng.random()
    if r < .12:
        return "RZ"
    if r < .25:
        return "R%d" % rng.choice([0, 1, 2, 63, 64, 127, 128, 129, 253, 254])
    return "R%d" % rng.randrange(255)


def pred(rng):
    return rng.choice(["P0", "P1", "P2", "P3", "P4", "P5", "P6", "PT"])


def decimal(rng):
    r = rng.random()
    if r < .35:
        return rng.choice(FLOATS)
    if r < .5:
        return rng.choice(FINTS)
    if r < .58:
        return rng.choice(SPECIALS)
    s = rng.choice(["", "", "-", "-", "+"])
    if r < .7:   # near a half or single tie
        import fractions
        m = rng.randrange(1024, 2048)
        e = rng.randrange(-26, 16)
        f = fractions.Fraction(2 * m + 1, 2) * fractions.Fraction(2) ** (e - 10)
        return s + exact(f) + rng.choice(["", "", "0", "1"])
    if r < .82:
        import fractions
        m = rng.randrange(1 << 23, 1 << 24)
        e = rng.randrange(-40, 60)
        f = fractions.Fraction(2 * m + rng.randrange(2), 2) * fractions.Fraction(2) ** (e - 23)
        return s + exact(f) + rng.choice(["", "", "0", "1"])
    i = str(rng.randrange(10 ** rng.randrange(1, rng.choice([3, 5, 9, 20, 40]))))
    n = rng.choice([0, 1, 2, 3, 5, 9, 17, 30])
    return s + i + "." + "".join(rng.choice("0123456789") for _ in range(n))


def exact(f):
    """the decimal expansion of a dyadic fraction"""
    n, d = f.numerator, f.denominator
    k = d.bit_length() - 1
    digits = str(n * 5 ** k).rjust(k + 1, "0")
    return (digits[:-k] + "." + digits[-k:]) if k else digits + ".0"


def near(n):
    """words that resemble a word"""
    d, w = ("." if n.startswith(".") else ""), n.lstrip(".")
    out = [n + "X", n + "_", n + "0", n[:-1], n.lower(), "." + n, n + ".", d + "X" + w, d + w[1:], d + w[::-1], w if d else "." + w, n.swapcase(), n.capitalize(),
           d + w.capitalize()]
    for i in range(1, len(w) - 1):
        out.append(d + w[:i] + w[i + 1:])
        out.append(d + w[:i] + w[i] + w[i:])
    return [x for x in dict.fromkeys(out) if x != n]


class Form:
    def __init__(self, index, raw):
        self.index, self.m, self.guard, self.ops = index, raw["m"], raw["guard"], raw["ops"]


class Catalogue:
    def __init__(self):
        raw = core.catalogue()
        self.forms = [Form(i, f) for i, f in enumerate(raw["forms"])]
        self.tests, self.tex = raw["tests"], raw["tex"]
        self.simple = [f for f in self.forms if f.guard and all(
            o["k"] in ("comma", "gpr", "cbuf", "imm20", "dot", "flag", "f20", "pred", "predn", "uint") for o in f.ops)]
        self.mnemonics = sorted({f.m for f in self.forms})
        self.words = sorted({n for f in self.forms for o in f.ops for n in self.names_in(o)})

    def names_in(self, o):
        out = [n for n in o["names"] if n]
        if "s" in o:
            out.append(o["s"])
        if "d" in o:
            out += self.names_in(o["d"])
        out += [n for n in o.get("u", []) + o.get("v", [])]
        return [n for n in out if not n.startswith("SR")]

    # -------------------------------------------------------- one operand
    def good(self, o, rng, ctx):
        k, a = o["k"], o["a"]
        if k == "comma":
            return ","
        if k == "gpr":
            r = ctx["regs"].get(a) or reg(rng)
            ctx["regs"][a] = r
            reuse = rng.random() < ctx["reuse"] and a in (8, 20, 39)
            return r + (".reuse" if reuse else "")
        if k == "mirror":
            return ctx["regs"].get(a, "R0")
        if k in ("pred", "ipred"):
            return pred(rng)
        if k == "predn":
            return rng.choice(["", "", "!"]) + pred(rng)
        if k == "cbuf":
            return "c[%s][%s]" % (number(rng, interesting(rng, 5, False)),
                                  number(rng, interesting(rng, 16, True) & ~3))
        if k == "imm20":
            return number(rng, interesting(rng, 20, True))
        if k == "uext":
            return number(rng, interesting(rng, 20, False))
        if k == "uint":
            return number(rng, interesting(rng, o["b"], False))
        if k == "sint":
            return number(rng, interesting(rng, o["b"], True))
        if k in ("f20", "f32", "d20", "h9", "h16"):
            return decimal(rng)
        if k == "zero":
            return rng.choice(["0", "0x0", "0", "00", "-0"])
        if k in ("flag", "opt"):
            return rng.choice(["", o["s"]]) if rng.random() < ctx["mods"] else ""
        if k == "req":
            return o["s"]
        if k == "dot":
            names = [n for n in o["names"] if n]
            if not o["req"] and rng.random() > ctx["mods"]:
                return ""
            return rng.choice(names)
        if k == "neg":
            return "-" if rng.random() < .3 else ""
        if k == "tilde":
            return "~" if rng.random() < .3 else ""
        if k == "abs":
            inner = self.good(o["d"], rng, ctx)
            return "|" + inner + "|" if rng.random() < .3 else inner
        if k == "po":
            return ".PO" if rng.random() < .2 else ""
        if k == "mem":
            return self.mem(o, rng, ctx)
        if k == "ldcaddr":
            return "c[%s]" % number(rng, interesting(rng, 5, False)) + \
                self.mem(dict(imm=True, size=16, shr=0), rng, ctx)
        if k == "attrimm":
            return "a[%s]" % number(rng, interesting(rng, 10, False))
        if k == "attrpatch":
            v = interesting(rng, 11, True)
            return "a[%s%s%s]" % (reg(rng), rng.choice(["+", "+", ""]) if v < 0 else "+", number(rng, v).lstrip("+"))
        if k == "attrphys":
            return "a[%s]" % reg(rng)
        if k == "label":
            return ctx["label"](rng)
        if k == "flow":
            return "CC" + rng.choice(self.tests) if rng.random() < .7 else ""
        if k == "xsigns":
            return rng.choice(["", ".S16.S16", ".S16.U16", ".U16.S16", ".U16.U16"])
        if k == "f2fround":
            return rng.choice(["", ".ROUND", ".FLOOR", ".CEIL", ".TRUNC", ".PASS", ".RN", ".RM", ".RP", ".RZ"])
        if k == "intfmt":
            return rng.choice([n for n in o["u"] + o["v"] if n])
        if k == "srcfmt":
            return rng.choice(["", ".S8", ".S16", ".S32", ".U8", ".U16", ".U32"])
        if k in ("seli", "selv"):
            return rng.choice(["", "", ".B0", ".B1", ".B2", ".B3", ".H0", ".H1"])
        if k == "s2r":
            names = [n for n in o["names"] if n]
            return rng.choice(["SR_TID.X", "SR_TID.Y", "SR_TID.Z", "SR_TID", "SR_CTAID.X", "SR_CTAID.Y",
                    "SR_CTAID.Z", rng.choice(names), rng.choice(names), rng.choice(names)])
        if k == "ldgsize":
            return rng.choice(["", ".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128", ".U.128"])
        if k == "atomsize":
            return rng.choice(["", ".U32", ".S32", ".U64", ".S64", ".F32.FTZ.RN", ".F16x2.RN"])
        if k == "texsmode":
            return rng.choice(["", ".LZ", ".LL"]) + rng.choice(["", "", ".DC"])
        if k in ("texstype", "tldstype"):
            return rng.choice(["1D", "2D", "2D", "2D", "3D", "ARRAY_2D", "CUBE"])
        if k == "swizzle":
            return rng.choice(["R", "G", "B", "A", "RG", "RA", "GA", "BA"]
                              if ctx["regs"].get(28) == "RZ" else ["RGB", "RGA", "RBA", "GBA", "RGBA"])
        if k == "const":
            return ""
        raise core.Broken("unknown operand kind " + k)

    def mem(self, o, rng, ctx):
        r = rng.random()
        base = reg(rng)
        if rng.random() < ctx["reuse"]:
            base += ".reuse"
        shift = o["shr"]
        if r < .2 or not o["imm"]:
            return "[%s]" % base
        if r < .4:
            return "[%s]" % number(rng, interesting(rng, o["size"] - shift, False) << shift)
        v = interesting(rng, o["size"] - shift, not base.startswith("RZ")) << shift
        s = number(rng, v)
        return "[%s%s%s]" % (base, "" if s[0] in "+-" else "+", s)

    # ---------------------------------------------- all the alternatives
    def every(self, o, ctx):
        """a list of spellings that shows each thing the operand can be (ranges by their edges)"""
        k, a = o["k"], o["a"]
        rng = random.Random(1)
        if k == "gpr":
            regs = ["R%d" % n for n in (0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 253, 254)] + ["RZ"]
            return regs + ([r + ".reuse" for r in ("R0", "R5", "R254", "RZ")] if a in (8, 20, 39) else [])
        if k == "pred" or k == "ipred":
            return ["P0", "P1", "P2", "P3", "P4", "P5", "P6", "PT"]
        if k == "predn":
            return [n + p for p in ("P0", "P1", "P2", "P3", "P4", "P5", "P6", "PT") for n in ("", "!")]
        if k == "cbuf":
            return ["c[%d][0x%x]" % (b, 4 * b) for b in range(32)] + \
                   ["c[3][%d]" % v for v in edges(16, True) if v % 4 == 0]
        if k == "imm20":
            return ["%d" % v for v in edges(20, True)]
        if k == "uext":
            return ["0x%x" % v for v in edges(20, False)]
        if k == "uint":
            return ["0x%x" % v for v in (range(1 << o["b"]) if o["b"] <= 6 else edges(o["b"], False))]
        if k == "sint":
            return ["%d" % v for v in edges(o["b"], True)]
        if k in ("f20", "f32", "d20", "h9", "h16"):
            return FLOATS + FINTS + SPECIALS
        if k in ("flag", "opt"):
            return ["", o["s"]]
        if k == "dot":
            return ([] if o["req"] else [""]) + [n for n in o["names"] if n]
        if k == "neg":
            return ["", "-"]
        if k == "tilde":
            return ["", "~"]
        if k == "po":
            return ["", ".PO"]
        if k == "abs":
            inner = self.every(o["d"], ctx)
            return inner + ["|" + x + "|" for x in inner]
        if k == "mem":
            size, shr = o["size"], o["shr"]
            return (["[R1]", "[RZ]", "[R254]"] + ["[%d]" % (v << shr) for v in edges(size - shr, False)]
                    + ["[R7%+d]" % (v << shr) for v in edges(size - shr, True)]
                    + ["[RZ+%d]" % (v << shr) for v in edges(size - shr, False)]
                    + ["[R9.reuse+4]", "[R9.reuse]"])
        if k == "ldcaddr":
            return ["c[%d]%s" % (b, "[R2+4]") for b in range(32)] + \
                   ["c[5][R3%+d]" % v for v in edges(16, True)] + ["c[5][%d]" % v for v in edges(16, False)]
        if k == "attrimm":
            return ["a[0x%x]" % v for v in edges(10, False)]
        if k == "attrpatch":
            return ["a[R3+%d]" % v for v in edges(11, True)] + ["a[RZ+0]", "a[R254+1]", "a[R1 -4]"]
        if k == "attrphys":
            return ["a[R0]", "a[R5]", "a[R254]", "a[RZ]"]
        if k == "flow":
            return [""] + ["CC" + t for t in self.tests]
        if k == "s2r":
            return [n for n in o["names"] if n] + ["SR_TID", "SR_TID.X", "SR_TID.Y", "SR_TID.Z", "SR_CTAID.X",
                                                   "SR_CTAID.Y", "SR_CTAID.Z"]
        if k == "xsigns":
            return ["", ".S16.S16", ".S16.U16", ".U16.S16", ".U16.U16"]
        if k == "f2fround":
            return ["", ".ROUND", ".FLOOR", ".CEIL", ".TRUNC", ".PASS", ".RN", ".RM", ".RP", ".RZ"]
        if k == "intfmt":
            return [n for n in o["u"] + o["v"] if n]
        if k == "srcfmt":
            return ["", ".S8", ".S16", ".S32", ".U8", ".U16", ".U32"]
        if k in ("seli", "selv"):
            return ["", ".B0", ".B1", ".B2", ".B3", ".H0", ".H1"]
        if k == "ldgsize":
            return ["", ".U8", ".S8", ".U16", ".S16", ".32", ".64", ".128", ".U.128"]
        if k == "atomsize":
            return ["", ".U32", ".S32", ".U64", ".S64", ".F32.FTZ.RN", ".F16x2.RN"]
        if k == "texsmode":
            return ["", ".LZ", ".LL", ".DC", ".LZ.DC", ".LL.DC"]
        if k in ("texstype", "tldstype"):
            return list(self.tex)
        if k == "swizzle":
            return ["R", "G", "B", "A", "RG", "RA", "GA", "BA", "RGB", "RGA", "RBA", "GBA", "RGBA"]
        if k == "label":
            return ["0", "8", "0x100", "0x7ffff8", "-8"]
        if k == "zero":
            return ["0", "0x0", "00", "-0", "+0"]
        return [self.good(o, rng, ctx)]

    # ----------------------------------------------------- near misses
    JUNK = ["", ",", "R1", "P1", "0", "1.0", "c[0][0]", "[R1]", "-", "|", "~", "XYZ", ".XYZ", "]", "!P1",
                "RZ", "PT", "-1", "a[0]", "@", "+", "R255", "P7", "CC.T", ".reuse"]

    def bad(self, o, rng, ctx):
        return rng.choice(self.JUNK) if rng.random() < .3 else rng.choice(self.wrong(o, rng, ctx))

    def wrong(self, o, rng, ctx):
        """what is almost an operand"""
        k = o["k"]
        if k == "comma":
            return ["", ",,", ";", ".", " "]
        if k == "gpr":
            return ["R255", "R256", "R999", "r1", "R", "R-1", "R1.", "R1.REUSE", "R0.reuse.reuse", "P0",
                    "R1.H0", "5", "RZZ", "R1.reuse", "R260", "R511", "R512", "R65536", "R4294967296", "R18446744073709551616", "R1 R2",
                    "-R1", "~R1", "R1x", "R0x1", "R1.reus", "R1.reuse2", "R+1", "R 1", "|R1|", "[R1]", "!R1", "R1:", "R_", "RZ0", "RZ.REUSE", "R1.X", "R1,"]
        if k == "mirror":
            return ["R1", "RZ", "R254", "5", "R1.reuse", "R2.reuse", "P0", "-R1", "", "R255", "|R1|"]
        if k in ("pred", "ipred"):
            return ["!P0", "!PT", "P7", "P8", "P9", "P", "R0", "PZ", "P01", "!P7", "!P6", "P10", "-P0", "~P0", "|P0|", "P0.X", "P-1", "PTT", "P0T", "PT0", "!pt", "p7", "P 0"]
        if k == "predn":
            return ["!!P0", "P7", "!P8", "!", "!R0", "~P0", "-P0", "!P", "!P7", "P8", "P9", "!P9", "P10", "!P10", "!p7", "p7", "! P0", "!PZ", "|P0|", "!|P0|", "P0!", "P0.X", "PTT", "!PTT", "P01", "!R1", "!0", "not P0"]
        if k == "cbuf":
            return ["c[%d][%d]" % (rng.choice([32, 33, 63, 64, -1, 256, 1 << 32]), 4),
                    "c[0][%d]" % rng.choice([1, 2, 3, 5, 6, 7, -1, -2, 0x101, 0x7fff]),
                    "c[0][%d]" % rng.choice([0x8000, 0x10000, -0x8004, 0xfffc, 1 << 32, 1 << 40]),
                    "c[0]", "c[0][", "c[0][0", "c0[0]", "C[0][0]", "c[0][R1]", "c[0][0][0]", "c[0].[0]"]
        if k in ("imm20", "uint", "sint", "uext"):
            bits, signed = {"imm20": (20, True), "uext": (20, False)}.get(k) or (o["b"], k == "sint")
            return ["%d" % v for v in outside(bits, signed)] + ["1.0", "0.0", "R1", "", "--1", "1-", "0x", "0xg", "08", "1 2", "+", "-", "a", "0b1", "1e3", "[1]"]
        if k in ("f20", "f32", "d20", "h9", "h16"):
            return BADFLOATS + BIGINTS
        if k == "zero":
            return ["1", "-1", "0x100", "0.0", "R0", "RZ", "P0", "", "0x10000000000000000", "4294967296", "8192", "0 0", "-", "00x0"]
        if k in ("flag", "opt"):
            return [o["s"] + o["s"]] + near(o["s"])
        if k == "req":
            return ["", o["s"] + o["s"]] + near(o["s"])
        if k == "dot":
            return [x for n in o["names"] if n for x in [n + n] + near(n)] + ["", "."]
        if k in ("neg", "tilde"):
            return ["--", "~~", "-~", "~-", "+", "!", "|"]
        if k == "abs":
            inner = self.good(o["d"], rng, ctx)
            return ["|" + inner, inner + "|", "||" + inner + "||", "|-" + inner + "|", "| |", "-|-" + inner]
        if k == "po":
            return [".PO.PO", ".P", ".POX"]
        if k == "mem":
            v = rng.choice(outside(o["size"] - o["shr"], True)) << o["shr"]
            u = rng.choice(outside(o["size"] - o["shr"], False)) << o["shr"]
            return ["[R1%+d]" % v, "[%d]" % u, "[RZ%+d]" % -4, "[R1+%d]" % (rng.randrange(1, 4)),
                    "[R1+R2]", "[R1", "R1]", "[]", "[R1+]", "[R1 4", "[R1+-4]", "[-4]", "[RZ%+d]" % u,
                    "[R1+1.0]", "[R1][4]", "[R1+4].X"]
        if k == "ldcaddr":
            return ["c[32][R1]", "c[0][R1+0x8000]", "c[0]", "c[0][R1-0x8001]", "c[0][0x10000]", "c[0][-1]"]
        if k in ("attrimm", "attrphys", "attrpatch"):
            return ["a[0x400]", "a[-1]", "a[R1+0x400]", "a[R1+-0x401]", "a[R1-0x401]", "a[R1", "a[]", "b[0]",
                    "a[R1+R2]", "a[R1+]", "A[0]", "a[1.0]", "a[R1++4]", "a[R1+4+4]", "a[RZ]", "a[R1]"]
        if k == "label":
            return ["nowhere", "0x800008", "-0x7ffff9", "16777216", "1.0", "R1", "", "c[0][0]", "-lab"]
        if k == "flow":
            return ["CC", "CC.", "CC.XX", ".T", "CC.T.T", "cc.T", "CC.t"]
        if k == "s2r":
            return ["SR_", "SR256", "SR_CTAID", "SR_CTAID.W", "SR_CTAID.x", "SR_TID.x", "SR_TID.XX", "SR_CTAIDX", "SR_TIDX", "SR_TID.X.X", "SR_CTAID.X.Y",
                    "SR_TID .W", "SR0", "SR1", "SR32", "SR33", "SR37", "SR_TID_X", "SR_NTID.X", "SR_LANEID.X", "LANEID", "sr_tid", "SR-1", "0", "SR", ""] + \
                   ["SR_TID" + n for n in self.words if n.startswith(".")] + ["SR_CTAID" + n for n in self.words if n.startswith(".")]
        if k in ("texstype", "tldstype", "swizzle"):
            return ["4D", "R", "RGBA", "RGBAX", "SR_", "SR256", "SR_CTAID", "SR_TID.W", "ARRAY_3D", "1d",
                    "ARRAY_1D", "ARRAY_CUBE", "SR_TID.x", "", "BGR"] + [x for n in self.names_in(o) for x in near(n)] + \
                   ["1D", "2D", "3D", "CUBE", "ARRAY_2D", "RG", "GB", "RB", "RGB", "GBA", "RBA", "RGA", "BA", "A", "ARGB", "ABGR", "RR", "ZERO", "ONE",
                    "1D.ARRAY", "2D_ARRAY", "BUFFER", "1D_BUFFER", "0D", "5D", "D", "2", "2.0", "ARRAY_", "ARRAY", "CUBE_ARRAY"]
        return [".U8", ".S8", ".U16", ".S16", ".U32", ".S32", ".B0", ".H1", ".U64", ".X", ".F32", ".F16x2",
                    ".F32.FTZ", ".F16x2", ".U", ".LZ.LZ", ".DC.LZ", ".RN", ".ROUND", ".S16"] + [x for n in self.names_in(o) for x in near(n)] + \
               [".U128", ".S128", ".U.64", ".U.32", ".U.U", ".128.U", ".F32.RN", ".F32.FTZ.RZ", ".F16x2.FTZ.RN", ".F64", ".F64.RN", ".B4", ".H2", ".B", ".H",
                ".S64", ".LL.LL", ".LL.LZ", ".LZ.LL", ".DC.DC", ".LB", ".FLOOR.FLOOR", ".PASS", ".RZ.RZ", ".CEIL", ".S16.S16.S16", ".U16.U16", ".S16.U32"]

    # ------------------------------------------------------- statements
    def context(self, rng=None, **kw):
        ctx = dict(regs={}, reuse=.15, mods=.5, label=lambda r: number(r, 8 * r.randrange(0, 4000)))
        ctx.update(kw)
        return ctx

    @staticmethod
    def join(m, parts):
        out = m
        for p in parts:
            if not p:
                continue
            if p[0] == "." and re.search(r"[-+ ]\d\w*$", out):
                out += " " + p        # a number would run into it
            elif p[0] in ".,":
                out += p
            elif out[-1] in "-~|":
                out += p
            else:
                out += " " + p
        return out

    def statement(self, form, rng, replace=None, **kw):
        """one statement of a form; replace: {operand index: text}"""
        ctx = self.context(**kw)
        if any(o["k"] == "swizzle" for o in form.ops) and rng.random() < .6:
            ctx["regs"][28] = "RZ"
        parts = []
        for i, o in enumerate(form.ops):
            if replace and i in replace:
                parts.append(replace[i])
                if o["k"] == "gpr":
                    ctx["regs"][o["a"]] = replace[i].split(".")[0]
            else:
                parts.append(self.good(o, rng, ctx))
        return self.join(form.m, parts)

    def guard(self, form, rng, p=.3):
        if form.guard and rng.random() < p:
            return "@%s%s " % (rng.choice(["", "!"]), pred(rng))
        return ""

    def random_form(self, rng):
        return self.forms[rng.randrange(len(self.forms))]

    def random_statement(self, rng, guard=.3, sched=.0, **kw):
        f = self.random_form(rng)
        return self.guard(f, rng, guard) + self.statement(f, rng, **kw) + (
            sched_text(rng) if rng.random() < sched else "")


def sched_text(rng):
    parts = []
    if rng.random() < .5:
        parts.append("@WAIT %s" % number(rng, rng.randrange(16)))
    if rng.random() < .4:
        parts.append(rng.choice(["@Y", "@YIELD"]))
    if rng.random() < .4:
        parts.append("@WB %s" % number(rng, rng.randrange(6)))
    if rng.random() < .4:
        parts.append("@RB %s" % number(rng, rng.randrange(6)))
    for d in rng.sample(range(6), rng.choice([0, 0, 1, 1, 2, 3, 6])):
        parts.append("@DEP %s" % number(rng, d))
    rng.shuffle(parts)
    return "".join(" " + p for p in parts)
