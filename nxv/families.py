"""Families of inputs. They aim at things; only the specification says what is a program."""
import functools, itertools, random, re
from . import core, gen

MOD = {"flag", "opt", "dot", "neg", "tilde", "abs", "po", "xsigns", "f2fround", "intfmt", "srcfmt", "seli", "selv",
       "ldgsize", "atomsize", "texsmode", "texstype", "tldstype", "swizzle", "flow", "s2r", "req"}
INT = {"imm20", "uext", "uint", "sint", "cbuf", "mem", "ldcaddr", "attrimm", "attrpatch", "label", "zero"}
FLT = {"f20", "f32", "d20", "h9", "h16"}


def inner(o):
    return o["d"] if o["k"] == "abs" else o


def values(cat, o, ctx, rng, limit=None):
    """what an operand can be, as text; for |x|, of what is inside"""
    if o["k"] == "abs":
        vs = cat.every(o["d"], ctx)
        vs = vs + ["|%s|" % v for v in vs]
    else:
        vs = cat.every(o, ctx)
    if limit and len(vs) > limit:
        vs = rng.sample(vs, limit)
    return vs


# ------------------------------------------------------------ one statement
def registers(cat, rng, per, everything=False):
    """every register operand of every form, through the registers"""
    fixed = [0, 1, 2, 4, 8, 16, 32, 64, 128, 254, 255, 127, 253]
    for f in cat.forms:
        for i, o in enumerate(f.ops):
            k = inner(o)["k"]
            if k == "gpr":
                regs = range(256) if everything else fixed + rng.sample(range(256), max(0, per - len(fixed)))
                spell = ["RZ" if n == 255 else "R%d" % n for n in regs]
            elif k in ("pred", "ipred"):
                spell = ["P0", "P1", "P2", "P3", "P4", "P5", "P6", "PT"]
            elif k == "predn":
                spell = [n + p for p in ("P0", "P1", "P2", "P3", "P4", "P5", "P6", "PT") for n in ("", "!")]
            elif k in ("mem", "attrpatch", "attrphys", "ldcaddr"):
                regs = range(256) if everything else fixed + rng.sample(range(256), max(0, per - len(fixed)))
                form = {"mem": "[%s]", "attrpatch": "a[%s+4]", "attrphys": "a[%s]", "ldcaddr": "c[2][%s+8]"}[k]
                spell = [form % ("RZ" if n == 255 else "R%d" % n) for n in regs]
            else:
                continue
            for s in spell:
                if o["k"] == "abs" and rng.random() < .3:
                    s = "|%s|" % s
                yield cat.guard(f, rng, .1) + cat.statement(f, rng, replace={i: s}, reuse=.05)


def plain(cat, f, rng, replace=None):
    """a statement with as few modifiers as the form lets"""
    rep = {i: "" for i, o in enumerate(f.ops) if o["k"] in ("neg", "tilde", "po", "xsigns", "f2fround", "srcfmt",
                                                           "seli", "selv", "ldgsize", "atomsize", "texsmode", "flow")}
    rep.update(replace or {})
    return cat.statement(f, rng, replace=rep, mods=0, reuse=0)


def modifiers(cat, rng):
    """every modifier of every form: alone, and every pair"""
    for f in cat.forms:
        mods = [i for i, o in enumerate(f.ops) if o["k"] in MOD]
        ctx = cat.context()

        def vals(i):
            o = f.ops[i]
            if o["k"] == "abs":
                v = cat.good(o["d"], rng, cat.context())
                return [v, "|%s|" % v]
            return cat.every(o, ctx)
        yield plain(cat, f, rng)
        for i in mods:
            for v in vals(i):
                yield plain(cat, f, rng, {i: v})
                yield cat.statement(f, rng, replace={i: v})
        for i, j in itertools.combinations(mods, 2):
            for v in vals(i):
                for w in vals(j):
                    yield plain(cat, f, rng, {i: v, j: w})


def many_modifiers(cat, rng, count):
    """three and more modifiers at a time"""
    for n in range(count):
        f = cat.forms[n % len(cat.forms)]
        rep = {}
        ctx = cat.context()
        for i, o in enumerate(f.ops):
            if o["k"] in MOD and o["k"] != "abs" and rng.random() < .8:
                rep[i] = rng.choice(cat.every(o, ctx))
        yield cat.guard(f, rng, .2) + cat.statement(f, rng, replace=rep)


def wide(o):
    k = o["k"]
    if k == "cbuf":
        return ["c[%d][%d]" % (b, v) for b, v in
                [(b, 16) for b in range(32)] + [(b, 0) for b in (32, 33, 63, 64, 255, 256, -1, -32, 1 << 32, (1 << 32) + 1)]
                + [(7, v) for v in gen.edges(16, True) if v % 4 == 0]
                + [(7, v) for v in (1, 2, 3, 5, 6, 7, -1, -2, -3, 0x7ffd, 0x7fff, 0x101, -0x7ffe)]
                + [(7, v) for v in gen.outside(16, True)]
                + [(31, 0x7ffc), (31, -0x8000), (0, -4), (16, 0x4000), (1, 0x8000)]]
    if k == "mem":
        size, shr = o["size"], o["shr"]
        if not o["imm"]:
            return ["[R1]", "[RZ]", "[0]", "[4]", "[R1+4]", "[R1+0]", "[RZ+0]", "[-4]"]
        n = size - shr
        return (["[%d]" % (v << shr) for v in gen.edges(n, False) + gen.outside(n, False)]
                + ["[RZ%+d]" % (v << shr) for v in gen.edges(n, False) + gen.outside(n, False)]
                + ["[R7%+d]" % (v << shr) for v in gen.edges(n, True) + gen.outside(n, True)]
                + ["[R7%+d]" % v for v in (1, 2, 3, 5, 6, 7, -1, -2, -3, 9)] + ["[%d]" % v for v in (1, 2, 3, 5, 7)]
                + ["[R254.reuse%+d]" % (v << shr) for v in (1, -1, 5)])
    if k == "ldcaddr":
        return (["c[%d][R2+4]" % b for b in list(range(34)) + [63, 64, -1]]
                + ["c[5][R3%+d]" % v for v in gen.edges(16, True) + gen.outside(16, True)]
                + ["c[5][%d]" % v for v in gen.edges(16, False) + gen.outside(16, False)]
                + ["c[5][RZ%+d]" % v for v in gen.edges(16, False) + gen.outside(16, False)])
    if k == "attrimm":
        return ["a[%d]" % v for v in gen.edges(10, False) + gen.outside(10, False)]
    if k == "attrpatch":
        vs = gen.edges(11, True) + gen.outside(11, True)
        return ["a[R3+%d]" % v for v in vs] + ["a[R3 %d]" % v for v in vs] + ["a[RZ %+d]" % v for v in (0, 1, -1, 1023)]
    if k == "imm20":
        return ["%d" % v for v in gen.edges(20, True) + gen.outside(20, True)]
    if k == "uext":
        return ["%d" % v for v in gen.edges(20, False) + gen.outside(20, False)]
    if k == "uint":
        vs = list(range(1 << o["b"])) if o["b"] <= 6 else gen.edges(o["b"], False)
        return ["%d" % v for v in vs + gen.outside(o["b"], False)]
    if k == "sint":
        return ["%d" % v for v in gen.edges(o["b"], True) + gen.outside(o["b"], True)]
    if k == "label":
        vs = gen.edges(24, True) + gen.outside(24, True)
        return ["%d" % v for v in vs] + ["%d" % (v + d) for v in (-(1 << 23), 1 << 23) for d in range(0, 40, 4)] + \
               ["%d" % (v - d) for v in (-(1 << 23), 1 << 23) for d in range(0, 40, 4)]
    if k == "zero":
        return ["%d" % v for v in (0, 1, -1, 2, 255, 256, 1 << 16, 1 << 32, 1 << 40)] + ["-0", "+0", "0x0", "00"]
    return None


def integers(cat, rng):
    """every integer operand of every form at and around its limits: (texts)"""
    for f in cat.forms:
        for i, o in enumerate(f.ops):
            vs = wide(inner(o))
            if vs is None:
                continue
            for v in dict.fromkeys(vs):
                s = respell(rng, v)
                if o["k"] == "abs" and rng.random() < .3:
                    s = "|%s|" % s
                yield cat.guard(f, rng, .1) + cat.statement(f, rng, replace={i: s})


def spills(cat, rng, count):
    """numbers that would reach into the bits beside their field"""
    for f in cat.forms:
        for i, o in enumerate(f.ops):
            k = inner(o)
            vs = wide(k)
            if vs is None:
                continue
            few = []
            if k["k"] in ("uint", "sint", "imm20", "uext"):
                b = k.get("b", 20)
                for j in range(b - (k["k"] in ("sint", "imm20")), b + 4):
                    few += ["%d" % (1 << j), "%d" % ((1 << j) + rng.randrange(1 << j))]
                few += ["-1", "%d" % -(1 << (b - 1)), "%d" % (-(1 << (b - 1)) - 1)]
            for v in few + rng.sample(vs, min(len(vs), count)):
                yield cat.guard(f, rng, .2) + cat.statement(f, rng, replace={i: respell(rng, v)})


def random_integers(cat, rng, count):
    forms = [(f, i) for f in cat.forms for i, o in enumerate(f.ops) if inner(o)["k"] in INT]
    for n in range(count):
        f, i = forms[n % len(forms)]
        yield cat.guard(f, rng, .1) + cat.statement(f, rng, reuse=.1)


def respell(rng, text):
    """the same numbers in another notation"""
    def sub(m):
        sign, digits = m[1], m[2]
        v = int(digits)
        r = rng.random()
        if r < .5:
            return sign + digits
        if r < .85:
            return sign + "0x%x" % v
        if r < .93:
            return sign + "0X%X" % v
        return sign + ("0%o" % v if v else "0")
    return re.sub(r"(?<![\w.])([+-]?)(\d+)(?![\w.])", sub, text)


def floats(cat, rng, per):
    for f in cat.forms:
        for i, o in enumerate(f.ops):
            if o["k"] in FLT:
                vs = gen.FLOATS + gen.FINTS + gen.SPECIALS + gen.BADFLOATS + gen.BIGINTS + [gen.decimal(rng) for _ in range(per)]
                for v in vs:
                    yield cat.guard(f, rng, .1) + cat.statement(f, rng, replace={i: v})


def half_sweep(cat, rng, step=1):
    """every half-precision number and the ties between them, in the 16 bit form"""
    import fractions
    f = next(f for f in cat.forms if any(o["k"] == "h16" for o in f.ops))
    ops = [i for i, o in enumerate(f.ops) if o["k"] == "h16"]
    for bits in range(0, 0x7c00, step):
        e, m = bits >> 10, bits & 1023
        v = fractions.Fraction(m, 1 << 24) if e == 0 else fractions.Fraction(1024 + m, 1024) * fractions.Fraction(2) ** (e - 15)
        ulp = fractions.Fraction(1, 1 << 24) if e == 0 else fractions.Fraction(2) ** (e - 25)
        pick = [v, v + ulp / 2, v + ulp / 2 + ulp / 4096, v + ulp / 2 - ulp / 4096]
        rng.shuffle(pick)
        yield cat.statement(f, rng, replace={i: rng.choice(["", "-"]) + gen.exact(pick[n % 4]) for n, i in enumerate(ops)})


def half_bits(cat, rng, per):
    """between two half-precision numbers, with single bits of the rest set"""
    from fractions import Fraction as F
    forms = [f for f in cat.forms if any(o["k"] in ("h16", "h9") for o in f.ops)]
    for e in list(range(0, 31)) + [-1, -2, -3, -4, -12]:
        for k in range(1, 14):
            for half in (0, 1):
                for _ in range(per):
                    m = rng.choice([0, 1, 2, 1022, 1023, rng.randrange(1024)])
                    if e <= 0:                  # subnormal: one more leading zero for each
                        ulp = F(1, 1 << 24)
                        v = ulp * (rng.randrange(1024) >> -e if e > -11 else 0)
                    else:
                        ulp = F(2) ** (e - 25)
                        v = ulp * (1024 + m)
                    v += half * ulp / 2 + rng.choice([1, 1, -1]) * ulp / (1 << k)
                    f = rng.choice(forms)
                    ops = [i for i, o in enumerate(f.ops) if o["k"] in ("h16", "h9")]
                    x = gen.exact(abs(v))
                    yield cat.statement(f, rng, replace={rng.choice(ops): rng.choice(["", "-"]) + x})


def across(cat, rng, limit, cap):
    """pairs of values of any two operands of a form"""
    for f in cat.forms:
        ops = [i for i, o in enumerate(f.ops) if o["k"] not in ("comma", "const", "mirror")]
        vals = {i: values(cat, f.ops[i], cat.context(), rng, limit) for i in ops}
        pairs = [(i, v, j, w) for i, j in itertools.combinations(ops, 2) for v in vals[i] for w in vals[j]]
        if len(pairs) > cap:
            pairs = rng.sample(pairs, cap)
        for i, v, j, w in pairs:
            yield cat.guard(f, rng, .3) + cat.statement(f, rng, replace={i: v, j: w})


@functools.lru_cache(maxsize=None)
def covering(sizes, strength, tries=4):
    """rows such that in any of `strength` columns every combination of their values occurs"""
    rng = random.Random(str((sizes, strength)))
    if len(sizes) <= strength:
        return list(itertools.product(*map(range, sizes)))
    left = {c: set(itertools.product(*(range(sizes[i]) for i in c))) for c in itertools.combinations(range(len(sizes)), strength)}
    rows = []
    while left:
        c = max(left, key=lambda c: len(left[c]))
        best = -1, None
        for v in itertools.islice(left[c], 2):
            for _ in range(tries):
                row = [rng.randrange(n) for n in sizes]
                for i, x in zip(c, v):
                    row[i] = x
                gain = sum(tuple([row[i] for i in d]) in rest for d, rest in left.items())
                if gain > best[0]:
                    best = gain, row
        row = best[1]
        rows.append(row)
        for d in list(left):
            left[d].discard(tuple([row[i] for i in d]))
            if not left[d]:
                del left[d]
    return rows


def few(cat, o, rng):
    """each modifier there is, and some values of everything else, with those at the limits"""
    k = o["k"]
    if k == "gpr":
        return ["R0", "R%d" % rng.randrange(1, 128), "R%d" % rng.randrange(128, 254), "R254", "RZ", "same"] + \
               (["R%d.reuse" % rng.randrange(255)] if o["a"] in (8, 20, 39) else [])
    if k == "abs":
        vs = few(cat, o["d"], rng)
        return vs + ["|%s|" % v for v in vs]
    vs = cat.every(o, cat.context())
    if k in MOD and k != "s2r" or len(vs) <= 8:
        return vs
    if k == "predn":
        return ["P0", "!P0", "P%d" % rng.randrange(1, 7), "!P%d" % rng.randrange(1, 7), "PT", "!PT"]
    if k in ("pred", "ipred"):
        return ["P0", "P%d" % rng.randrange(1, 7), "P6", "PT"]
    if k == "mem":
        return ["[RZ]", "[R%d]" % rng.randrange(255), "[R9.reuse]"] + rng.sample(vs, 5)
    return [vs[0], vs[-1]] + rng.sample(vs[1:-1], 5)


def together(cat, rng, strength=2):
    """any two operands, modifiers or the guard, each with any of its values"""
    for f in cat.forms:
        ops = [i for i, o in enumerate(f.ops) if o["k"] not in ("comma", "const", "mirror", "req")]
        vals = [few(cat, f.ops[i], rng) for i in ops]
        before = ["", "@P%d " % rng.randrange(7), "@!P%d " % rng.randrange(7), "@PT ", "@!PT "] if f.guard else [""]
        for row in covering(tuple(map(len, vals + [before])), strength):
            rep = {i: v[r] for i, v, r in zip(ops, vals, row)}
            regs = [w for w in rep.values() if re.fullmatch(r"R\d+|RZ", w)]
            same = rng.choice(regs) if regs else "R3"
            rep = {i: w.replace("same", same) for i, w in rep.items()}
            yield before[row[-1]] + cat.statement(f, rng, replace=rep, reuse=0)


GUARDS = ["@%s%s" % (n, p) for n in ("", "!") for p in ("P0", "P1", "P2", "P3", "P4", "P5", "P6", "PT")]


def guards(cat, rng, repeat=1):
    for f in cat.forms:
        for _ in range(repeat):
            for g in [""] + GUARDS:
                yield (g + " " if g else "") + cat.statement(f, rng)


def odd_guards(cat, rng, per=4):
    odd = ["@P7", "@!P7", "@P8", "@!", "@", "@R0", "@RZ", "@0", "@!!P0", "@-P0", "@~P0", "@ P3", "@\n!P2", "@! P1", "@p0",
           "@!p5", "@pt", "@!Pt", "@pT", "@P0 @P1", "@P00", "@P1.X", "@PT,", "P0", "!P0", "@PZ", "@PREDICATE", "@@P0",
           "@P0;", "@c", "@[P0]", "@+P0", "@|P0|", "@P", "@!P", "@T", "@P0 @P0", "@!PT @PT"]
    for f in cat.forms:
        for g in rng.sample(odd, per):
            yield g + " " + cat.statement(f, rng)
    f = next(f for f in cat.forms if f.m == "NOP")
    for g in odd:
        for g2 in ("", " "):
            yield g + g2 + cat.statement(f, rng)


# ------------------------------------------------------------- programs
NAMES = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


def named(rng, chars):
    """labels in which each of these characters is first, inside and last"""
    texts = []
    for c in chars:
        for name in (c, c + "a", "a" + c, "a" + c + "b", c + "_" + c, "L" + c + c, c + "0" + c, "B_" + c, "x9" + c):
            other = name[:-1] + ("a" if name[-1:] != "a" else "b")
            texts.append("NOP;\n%s:\nMOV R1, R2;\nBRA %s;\n" % (name, name))
            texts.append("BRA %s;\nNOP;\nNOP;\n%s:\nNOP;\n%s:\nSSY %s;\n" % (name, name, other, other))
    return texts


LABELS = ["a", "b", "L0", "loop", "end_loop", "main", "Z9", "x_", "R0x", "RZ_", "P0_", "PTx", "BRA_", "NOPE", "c0", "SR_X"]
# names that are labels where they are defined but something else where they are used
MISLEADING = ["R0", "RZ", "P0", "PT", "R255", "P9", "CC", "c", "NOP", "BRA", "QNAN", "R", "P", "RZZ", "p0", "P0x", "R1x"]


def flow_forms(cat):
    return [f for f in cat.forms if any(o["k"] == "label" for o in f.ops)]


def branch(cat, rng, target, form=None):
    f = form or rng.choice(flow_forms(cat))
    return cat.guard(f, rng, .3) + cat.statement(f, rng, label=lambda r: target)


def program(cat, rng, n, nlabels=0, sched=.3, reuse=.15, labels=None, branches=.3, undefined=0.):
    """a program of n instructions with labels between them"""
    names = (labels or LABELS)[:]
    rng.shuffle(names)
    names = names[:nlabels]
    at = {}
    for l in names:
        at.setdefault(rng.randint(0, n), []).append(l)
    out = []
    for i in range(n + 1):
        for l in at.get(i, []):
            out.append(l + ":" + rng.choice(["\n", "\n", " ", "\t", ""]) if rng.random() < .9 else l + ":\n")
            if not out[-1].endswith("\n") and (i == n or len(at[i]) > 1 and l != at[i][-1]):
                out.append("\n")
        if i < n:
            if names and rng.random() < branches:
                t = rng.choice(names) if rng.random() >= undefined else "nowhere"
                s = branch(cat, rng, t)
            else:
                s = cat.random_statement(rng, reuse=reuse)
            s += gen.sched_text(rng) if rng.random() < sched else ""
            out.append(s + ";" + ("\n" if rng.random() < .95 or i + 1 in at else " "))
    return "".join(out)


def safe(cat, rng, **kw):
    """a statement of a simple form: almost always a program"""
    f = cat.simple[rng.randrange(len(cat.simple))]
    return cat.guard(f, rng, .2) + cat.statement(f, rng, **kw)


def safe_program(cat, rng, n, nlabels=0, labels=None, sched=.3, branches=.3, sep=None):
    names = (labels or LABELS)[:]
    rng.shuffle(names)
    names = names[:nlabels]
    at = {}
    for l in names:
        at.setdefault(rng.randint(0, n), []).append(l)
    out = []
    for i in range(n + 1):
        for l in at.get(i, []):
            out.append(l + ":\n")
        if i < n:
            s = branch(cat, rng, rng.choice(names)) if names and rng.random() < branches else safe(cat, rng)
            out.append(s + (gen.sched_text(rng) if rng.random() < sched else "") + ";" + (sep or "\n"))
    return "".join(out)


TOKEN = re.compile(r"\s+|[-+]?\d[\w]*(?:\.\d*)?|[A-Za-z_!][\w]*|.", re.S)


def relayout(rng, text, spaces=(" ", "  ", "\t", "\r", " \t ", "\n", "\r\n", "\n\n", "\t\n  "), lines=True, p=.3):
    """the same words with other blanks between them; not after a colon at the start of a line, where a line feed
    would not matter but a label has to stay at the start of its line"""
    out = []
    for line in text.split("\n"):
        m = re.match(r"[A-Za-z]\w*:", line)
        start = m[0] if m else ""
        rest = line[len(start):]
        if start:
            out.append(("\n" if out and not out[-1].endswith("\n") else "") + start)
        for t in TOKEN.findall(rest):
            if t.isspace():
                out.append(rng.choice(spaces) if rng.random() < .6 else t)
            else:
                if t in ",;[]|~@.-+" and t != "." and rng.random() < p and not (t in "+-") :
                    out.append(rng.choice(spaces))
                out.append(t)
                if t in ",;[]|~@" and rng.random() < p:
                    out.append(rng.choice(spaces))
        out.append("\n")
    return "".join(out)


# ---------------------------------------------------------- what is none
CH = "RPZc[]|-~+@,;. \t\n\r0189xXaTF!:_#\"\\/%\x80\xff\x01b\v\f"


def mutate(rng, s, times=None, chars=CH):
    for _ in range(times or rng.choice([1, 1, 2, 3])):
        p = rng.randrange(len(s) + 1)
        q = rng.random()
        if q < .3:
            s = s[:p] + s[p + 1:]
        elif q < .6:
            s = s[:p] + rng.choice(chars) + s[p:]
        elif q < .8:
            s = s[:p] + rng.choice(chars) + s[p + 1:]
        elif q < .87:
            s = s[:p]
        else:
            a = rng.randrange(len(s) + 1)
            b = min(len(s), a + rng.randrange(1, 8))
            s = s[:p] + s[a:b] + s[p:]
    return s


def swap_words(cat, rng, s):
    """words taken out, doubled, exchanged or replaced"""
    ts = [t for t in TOKEN.findall(s)]
    if not ts:
        return s
    i, j = rng.randrange(len(ts)), rng.randrange(len(ts))
    r = rng.random()
    if r < .25:
        del ts[i]
    elif r < .45:
        ts.insert(i, ts[i])
    elif r < .65:
        ts[i], ts[j] = ts[j], ts[i]
    elif r < .85:
        ts[i] = rng.choice(cat.words + cat.mnemonics + ["R1", "P1", "5", "1.0", ",", ";", "[", "]", ".", "|", "-"])
    else:
        ts.insert(i, rng.choice(cat.words + ["R1", "P1", "5", "1.0", ",", ";", "[", "]", "|", "-", "~", "@", ".reuse"]))
    return "".join(ts)


def misses(cat, rng, per):
    """one operand of every form is not what it has to be"""
    for f in cat.forms:
        for i, o in enumerate(f.ops):
            for _ in range(per):
                yield cat.guard(f, rng, .2) + cat.statement(f, rng, replace={i: cat.bad(o, rng, cat.context())}) + ";"


def operands(cat):
    """the different operands there are, each with the places where it is found"""
    out = {}
    for f in cat.forms:
        for i, o in enumerate(f.ops):
            if o["k"] not in ("const",):
                out.setdefault(repr(sorted(o.items(), key=str)), []).append((f, i))
    return list(out.values())


def almost(cat, rng, per):
    """everything that is almost an operand, in the place of every different operand"""
    for where in operands(cat):
        vs = list(dict.fromkeys(cat.wrong(where[0][0].ops[where[0][1]], rng, cat.context()) + cat.JUNK))
        for v in vs:
            for f, i in rng.sample(where, min(per, len(where))):
                yield cat.guard(f, rng, .1) + cat.statement(f, rng, replace={i: v}, mods=rng.choice([0, .5])) + ";"


def strangers(cat, rng, share):
    """every word of the language in the place of every different operand"""
    for where in operands(cat):
        for w in cat.words:
            if rng.random() < share:
                f, i = rng.choice(where)
                yield cat.statement(f, rng, replace={i: w}, mods=rng.choice([0, .5])) + ";"
                if rng.random() < .3:
                    f, i = rng.choice(where)
                    old = cat.good(f.ops[i], rng, cat.context())
                    yield cat.statement(f, rng, replace={i: old + ("" if w.startswith(".") else " ") + w}, mods=.3) + ";"


def mirrored(cat, rng, everything=False):
    """forms whose source has to be their destination: the same register, and every register that differs in a bit"""
    for f in cat.forms:
        at = [i for i, o in enumerate(f.ops) if o["k"] == "mirror"]
        if not at:
            continue
        dst = next(i for i, o in enumerate(f.ops) if o["k"] == "gpr" and o["a"] == f.ops[at[0]]["a"])
        for n in range(256) if everything else [0, 1, 2, 4, 8, 16, 32, 64, 128, 254, 255, 127, 85, 170] + rng.sample(range(256), 10):
            for m in [n] + [n ^ (1 << b) for b in range(8)] + [255, 0, rng.randrange(256)]:
                a, b = ("RZ" if x == 255 else "R%d" % x for x in (n, m))
                yield cat.guard(f, rng, .1) + cat.statement(f, rng, replace={dst: a, at[0]: b}) + ";"


def foreign(cat, rng, per):
    """a modifier that belongs to another form, at any place"""
    for f in cat.forms:
        for _ in range(per):
            s = cat.statement(f, rng)
            w = rng.choice(cat.words)
            cuts = [m.start() for m in re.finditer(r"(?<=\w)(?=[ .,;\]|]|$)", s)]
            p = rng.choice(cuts)
            yield s[:p] + (w if w.startswith(".") else " " + w) + s[p:] + ";"


def unknown_words(cat, rng, per=3):
    """a word that is in no table, in the place of every word and after every prefix of modifiers"""
    odd = [".QQ", "QQ", ".", ".0", ".X0Z", ".R", ".FOO_BAR", ".INVALID", ".qq"]
    for f in cat.forms:
        for i, o in enumerate(f.ops):
            for _ in range(per):
                yield cat.statement(f, rng, replace={i: rng.choice(odd)}) + ";"
        for _ in range(per):
            s = cat.statement(f, rng)
            for m in re.finditer(r"(?<=\w)(?=[ .,;\]|]|$)", s):
                yield s[:m.start()] + rng.choice(odd[:1] + odd) + s[m.start():] + ";"
                yield s[:m.start()] + rng.choice(odd[:1] + odd) + re.sub(r"^\.[\w.]+", "", s[m.start():]) + ";"


PIECE = re.compile(r"\.?[\w]+|\s+|.", re.S)


def without(cat, rng, rounds=1):
    """every form with each of its words taken out, one at a time, and with each of them twice"""
    for f in cat.forms:
        for _ in range(rounds):
            for i, o in enumerate(f.ops):
                if o["k"] in ("const", "flag", "opt", "neg", "tilde", "po"):
                    continue
                yield cat.guard(f, rng, .1) + cat.statement(f, rng, replace={i: ""}, mods=.3) + ";"
            # written out in full: with bars and brackets, and with as many modifiers as can be
            rep = {}
            for i, o in enumerate(f.ops):
                if o["k"] == "abs":
                    rep[i] = "|%s|" % cat.good(o["d"], rng, cat.context())
            s = cat.guard(f, rng, .2) + cat.statement(f, rng, replace=rep, mods=.8, reuse=.1) + ";"
            ts = PIECE.findall(s)
            for i, t in enumerate(ts):
                if t.isspace():
                    continue
                yield "".join(ts[:i] + ts[i + 1:])
                if rng.random() < .3:
                    yield "".join(ts[:i + 1] + ts[i:])


def left_out(cat, rng, per):
    """modifiers an instruction cannot do without, left out"""
    for f in cat.forms:
        for i, o in enumerate(f.ops):
            if o["k"] in ("dot", "req", "intfmt", "texstype", "tldstype", "swizzle", "s2r", "xsigns", "srcfmt", "ldgsize", "atomsize"):
                for k in range(per):
                    yield cat.guard(f, rng, .2) + cat.statement(f, rng, replace={i: ""}, mods=k / per) + ";"


def same_registers(cat, rng, rounds=1):
    """the same register, or the same predicate, in several places of a statement"""
    for f in cat.forms:
        regs = [i for i, o in enumerate(f.ops) if inner(o)["k"] == "gpr"]
        preds = [i for i, o in enumerate(f.ops) if inner(o)["k"] in ("pred", "ipred", "predn")]
        mems = [i for i, o in enumerate(f.ops) if inner(o)["k"] in ("mem", "attrphys", "attrpatch", "ldcaddr")]
        for _ in range(rounds):
            sets = [regs] + [list(p) for p in itertools.combinations(regs, 2)]
            for some in sets:
                for r in ("RZ", "R0", "R%d" % rng.randrange(1, 255)):
                    rep = {i: r for i in some}
                    for i in mems:
                        rep[i] = re.sub(r"\bR(\d+|Z)\b", r, cat.good(f.ops[i], rng, cat.context()), count=1)
                    yield cat.guard(f, rng, .2) + cat.statement(f, rng, replace=rep)
            for some in [preds] + [list(p) for p in itertools.combinations(preds, 2)]:
                for p in ("PT", "P0", "P%d" % rng.randrange(1, 7)) if some else ():
                    rep = {i: rng.choice(["", "!"] if inner(f.ops[i])["k"] == "predn" else [""]) + p for i in some}
                    yield ("@%s%s " % (rng.choice(["", "!"]), p) if f.guard and rng.random() < .6 else "") + cat.statement(f, rng, replace=rep)


def products(cat, rng, cap):
    """every combination of the modifiers of a form, or as many as cap"""
    for f in cat.forms:
        mods = [i for i, o in enumerate(f.ops) if o["k"] in MOD and o["k"] not in ("abs", "s2r")]
        bars = [i for i, o in enumerate(f.ops) if o["k"] == "abs"]
        vals = [cat.every(f.ops[i], cat.context()) for i in mods] + [["", "|"]] * len(bars)
        total = 1
        for v in vals:
            total *= len(v)
        if total <= cap:
            combos = itertools.product(*vals)
        else:
            rows = covering(tuple(map(len, vals)), 3)
            combos = itertools.chain(([v[r] for v, r in zip(vals, row)] for row in rows),
                                     ([rng.choice(v) for v in vals] for _ in range(cap - len(rows))))
        for c in combos:
            rep = dict(zip(mods, c))
            for i, b in zip(bars, list(c)[len(mods):]):
                rep[i] = b + cat.good(f.ops[i]["d"], rng, cat.context()) + b
            yield cat.guard(f, rng, .1) + cat.statement(f, rng, replace=rep, reuse=.05)


PLACES = ["{}MOV R1, R2;", "MOV{}R1, R2;", "MOV R1{}, R2;", "MOV R1,{}R2;", "MOV R1, R2{};", "MOV R1, R2;{}", "NOP;\n{}\nNOP;", "M{}OV R1, R2;",
          "MOV R{}1, R2;", "MOV R1, R2{}2;", "MOV R1, {}5;", "MOV R1, 5{};", "MOV32I R1, 0x1{}2;", "FADD.FTZ{} R1, R2, 1.5;", "FADD{}FTZ R1, R2, 1.5;",
          "FADD R1, R2, 1{}5;", "FADD R1, R2, 1.5{};", "@{}P0 NOP;", "@P0{}NOP;", "@P{}0 NOP;", "NOP @WAIT{}3;", "NOP {}WAIT 3;", "LDG R1, [R2{}4];",
          "LDG R1, [{}R2];", "MOV R1, c{}[1][4];", "MOV R1, c[1]{}[4];", "FADD R1, {}R2{}, R3;", "l{}:\nBRA l{};", "l:\nBRA l{};", "{}l:\nBRA l;", "l:{}BRA l;",
          ".num_gprs{}5\nNOP;", ".num_gprs 5{}\nNOP;", ".num_gprs 5\n{}NOP;", "{}.dksh compute\nmain:\nNOP;", ".dksh compute{}\nmain:\nNOP;", "NOP{}",
          "MOV R1, R2.{}reuse;", "MOV R1, R2{}reuse;", "ISETP.GT.AND P0, PT, R1, R2, {}P1;"]


def every_byte(places=PLACES, low=1):
    """every character, in places of every kind"""
    return [p.replace("{}", chr(c)) for p in places for c in range(low, 256)]
