"""The checks, one for each property of properties.jsonl."""
import itertools, json, os, re, shutil, signal, stat, struct, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from . import core, families as fam, gen
from .session import Violation

PROPERTIES = {}
# what it says in a diagnostic matters to C19 only
ALL = tuple(k for k in core.KINDS if k != "claim")
# everything but the place of a diagnostic
CODE = tuple(k for k in ALL if k != "loc")


class Prop:
    def __init__(self, run, level):
        self.run, self.level = run, level


def prop(pid, level="model_checking"):
    def deco(f):
        PROPERTIES[pid] = Prop(f, level)
        return f
    return deco


BEFORE = (0, 1, 100, 5000, 30000, 66000)


def deep(s, kinds, bad=0, count=None, wrong=(), **how):
    """any statements, far down in long programs"""
    rng = s.rng("deep")
    stmts = [s.cat.guard(f, rng) + s.cat.statement(f, rng, reuse=.3, **how) + (gen.sched_text(rng) if rng.random() < .4 else "")
             for f in (s.cat.forms[i % len(s.cat.forms)] for i in range(count or s.scale(6000, 40000)))]
    s.long("far down in long programs", stmts + list(wrong), kinds, before=BEFORE, bad=bad)


# ------------------------------------------------------- instruction words
@prop("C01")
def registers(s):
    kinds = CODE
    s.batched("registers", fam.registers(s.cat, s.rng("regs"), s.scale(34, 0), s.thorough), kinds)
    s.batched("registers that are the same", fam.same_registers(s.cat, s.rng("same"), s.scale(1, 10)), kinds)
    s.texts("sources that are the destination", fam.mirrored(s.cat, s.rng("mirrored"), s.thorough), kinds)
    s.batched("any two together", fam.together(s.cat, s.rng("together"), s.scale(2, 3)), kinds)
    rng = s.rng("random")
    s.batched("random statements", [s.cat.random_statement(rng) for _ in range(s.scale(12000, 60000))], kinds)
    deep(s, kinds)


@prop("C02")
def modifiers(s):
    kinds = CODE
    s.batched("every modifier, every pair", fam.modifiers(s.cat, s.rng("mods")), kinds)
    s.batched("any two together", fam.together(s.cat, s.rng("together"), s.scale(2, 3)), kinds)
    s.batched("products of modifiers", fam.products(s.cat, s.rng("products"), s.scale(150, 3000)), kinds)
    s.batched("many modifiers", fam.many_modifiers(s.cat, s.rng("many"), s.scale(6000, 100000)), kinds)
    s.texts("modifiers left out", fam.left_out(s.cat, s.rng("out"), s.scale(3, 20)), kinds)
    deep(s, kinds, mods=.8)


@prop("C03")
def integers(s):
    kinds = CODE
    s.batched("at and around the limits", fam.integers(s.cat, s.rng("ints")), kinds, per=1)
    s.batched("random values", fam.random_integers(s.cat, s.rng("random"), s.scale(12000, 100000)), kinds)
    rng = s.rng("after")
    flts = [f for f in s.cat.forms if any(o["k"] in fam.FLT for o in f.ops)]
    ints = [f for f in s.cat.forms if any(o["k"] in fam.INT for o in f.ops)]
    huge = ["9" * 50 + ".0", "0." + "0" * 60 + "1", "-" + "9" * 45 + ".5", "1.0", "0.0"]
    texts = []
    for _ in range(s.scale(2000, 10000)):
        out = []
        for _ in range(rng.randrange(2, 6)):
            f = rng.choice(rng.choice([flts, ints]))
            rep = {i: rng.choice(huge) for i, o in enumerate(f.ops) if o["k"] in fam.FLT}
            out.append(s.cat.statement(f, rng, replace=rep) + ";\n")
        texts.append("".join(out))
    s.texts("integers and floats together", texts, kinds)
    s.long("far down in long programs", itertools.islice(fam.random_integers(s.cat, s.rng("deep"), 10 ** 6), s.scale(6000, 40000)),
           kinds, before=BEFORE)


@prop("C04")
def floats(s):
    kinds = CODE
    s.batched("literals", fam.floats(s.cat, s.rng("floats"), s.scale(420, 3000)), kinds, per=4)
    s.batched("half precision", fam.half_sweep(s.cat, s.rng("half"), s.scale(5, 1)), kinds)
    s.batched("half precision, bit by bit", fam.half_bits(s.cat, s.rng("bits"), s.scale(4, 40)), kinds)
    some = list(fam.floats(s.cat, s.rng("deep"), 400))
    s.long("far down in long programs", s.rng("some").sample(some, min(len(some), s.scale(4000, 20000))), kinds, before=BEFORE)


@prop("C05")
def independence(s):
    s.model("MCFields", "INIT Init\nNEXT Next\nINVARIANTS Disjoint FreeOfFixed\nCONSTRAINT Stop\n")
    s.model("MCFields", "INIT Init\nNEXT Next\nINVARIANT Unambiguous\n")
    s.batched("pairs of operands", fam.across(s.cat, s.rng("across"), s.scale(8, 20), s.scale(150, 1500)),
              CODE)
    s.batched("any two together", fam.together(s.cat, s.rng("together"), s.scale(2, 3)), CODE)
    s.batched("numbers beside their field", fam.spills(s.cat, s.rng("spills"), s.scale(8, 100)), CODE, per=1)


@prop("C06")
def guards(s):
    kinds = CODE
    s.batched("every form under every guard", fam.guards(s.cat, s.rng("guards"), s.scale(3, 20)), kinds, per=4)
    s.batched("what is no guard", fam.odd_guards(s.cat, s.rng("odd"), s.scale(10, 38)), kinds, per=1)
    some = list(fam.guards(s.cat, s.rng("deep"), 1))
    s.long("far down in long programs", s.rng("some").sample(some, min(len(some), s.scale(5000, 20000))), kinds, before=BEFORE)


# --------------------------------------------------------------- programs
@prop("C07")
def labels(s):
    kinds = CODE
    layout_proof(s)
    rng = s.rng("labels")
    pieces = ["MOV R1, R2;\n", "BRA a;\n", "BRA b;\n", "a:\n", "b:\n"]
    s.texts("every structure", ["".join(d) for d in s.written(pieces, s.scale(5, 7))], kinds)
    pieces = ["NOP;\n", "SSY a;\n", "a:", " a:", "a:\n", "\n", ";"]
    s.texts("every placement of one label", ["".join(d) for d in s.written(pieces, s.scale(4, 6))], kinds)
    texts = [fam.program(s.cat, rng, rng.randrange(0, 25), rng.randrange(0, 12)) for _ in range(s.scale(1500, 8000))]
    texts += [fam.safe_program(s.cat, rng, rng.randrange(1, 40), rng.randrange(1, 16)) for _ in range(s.scale(1000, 5000))]
    texts += [fam.safe_program(s.cat, rng, rng.randrange(1, 12), rng.randrange(1, 6), labels=fam.LABELS + fam.MISLEADING)
              for _ in range(s.scale(1500, 6000))]
    texts += [fam.relayout(rng, fam.safe_program(s.cat, rng, rng.randrange(1, 15), rng.randrange(1, 6)))
              for _ in range(s.scale(800, 4000))]
    s.texts("programs with labels", texts, kinds)
    s.texts("every character in a label", fam.named(rng, [chr(c) for c in range(1, 256)]), kinds)
    texts = []
    for n in s.scale([40, 100, 130, 260, 300], [20, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 700, 1030]):
        names = ["%s%d" % (rng.choice(["l", "Lab_", "x", "loop_"]), i) for i in range(n)]
        texts.append(fam.safe_program(s.cat, rng, n, n, labels=names, branches=.6))
        texts.append(fam.safe_program(s.cat, rng, n // 4, n, labels=names, branches=.9))
    for length in (1, 2, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4000):
        a, b = "L" * length, "L" * (length - 1) + "M"
        texts.append("NOP;\n%s:\nBRA %s;\nNOP;\n%s:\nBRA %s;\nBRA %s;\n" % (a, b, b, a, b) if length > 1 else
                     "NOP;\nL:\nBRA L;\n")
    for a, b in [("loop", "Loop"), ("a", "aa"), ("a", "a_"), ("x1", "x10"), ("x1", "x01"), ("LOOP", "loop"), ("a0", "a_0"),
                 ("main", "main2"), ("end", "End"), ("A_B", "AB"), ("a1b", "a1c")]:
        for order in (0, 1):
            p, q = (a, b) if order else (b, a)
            texts.append("BRA %s;\n%s:\nNOP;\nBRA %s;\n%s:\nBRA %s;\nBRA %s;\n" % (q, p, p, q, p, q))
    for eol in ("\r\n", "\n", "\r", "\n\r\n", " \n", "\t\n"):
        texts.append(eol.join(["a:", "NOP;", "BRA a;", "b:NOP;", "BRA b; NOP;", "c: BRA c;", "", "BRA d;", "d:", ""]))
        texts.append(eol.join(["BRA a; BRA b;", "a: b:", "NOP;"]))
        texts.append(eol.join(["BRA a;NOP; a:", "NOP;"]))
    s.texts("many labels, long and similar names", texts, kinds)
    texts = []
    for f in fam.flow_forms(s.cat):
        i = next(i for i, o in enumerate(f.ops) if o["k"] == "label")
        for n in range(s.scale(60, 400)):
            pre = rng.randrange(0, 30)
            pc = 8 + 32 * (pre // 3) + 8 * (pre % 3)
            t = rng.choice([pc, pc + 8, pc + 16, 0, 8, -8, pc + 8 + (1 << 23) - rng.randrange(3), 1 << 22,
                            pc + 8 - (1 << 23) - rng.randrange(-2, 3), pc + 8 + (1 << 23) + rng.randrange(3),
                            rng.randrange(-(1 << 24), 1 << 24), 1 << 32, -(1 << 32), rng.randrange(0, 4096)])
            texts.append("NOP;\n" * pre + fam.branch(s.cat, rng, gen.number(rng, t), f) + ";\n")
    s.texts("numeric targets", texts, kinds)
    far(s, kinds)


def far(s, kinds):
    """targets as far away as can be: +-2^23 bytes"""
    rng = s.rng("far")
    programs = []
    # forward: k statements between; the distance is AddrOf(k + 1) - AddrOf(0) - 8 for a branch that is first
    for k in s.scale([786431, 786432], [786430, 786431, 786432, 786433]):
        programs.append([("", "BRA far", 1), ("", "NOP", k - 1), ("far", "NOP", 2)])
        programs.append([("near", "NOP", k - 1), ("", "BRA near", 1), ("", "MOV R1, R2", 1)])
    for k in s.scale([6000, 98304], [6000, 98304, 98305, 196608, 393216]):
        programs.append([("a", "NOP", k), ("b", "SSY a @WAIT 3", 1), ("", "EXIT", k + 1), ("", "BRA b", 1),
                         ("c", "CAL d", 1), ("", "NOP", rng.randrange(1, 9)), ("d", "RET", 1)])
    for n in s.scale([1100, 2200], [600, 1100, 2200, 5000]):
        names = ["%s%d" % (rng.choice(["l", "Lab_", "x", "loop_"]), i) for i in range(n)]
        stmts = ["BRA ", "SSY ", "PBK ", "@!P3 BRA ", "CAL "]
        programs.append([(names[i], rng.choice(stmts) + rng.choice(names) if rng.random() < .6 else fam.safe(s.cat, rng), 1) for i in range(n)])
    s.blocks("far targets, very many labels", programs, kinds)


def layout_proof(s):
    """unbounded in the length of the program: the invariant of the two passes is inductive"""
    work = tempfile.mkdtemp(prefix="nxv-apa-")
    try:
        for init, inv, length in (("Init", "IndInv", 0), ("IndInit", "IndInv", 1), ("IndInit", "Agree", 0),
                                  ("IndInit", "Sealed", 0)):
            r = subprocess.run(["apalache-mc", "check", "--init=" + init, "--next=Next", "--inv=" + inv,
                                "--length=%d" % length, "--out-dir=" + work, "PassLayout.tla"], cwd=core.SPEC,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300,
                               env={**os.environ, "TMPDIR": work, "JVM_ARGS": "-Xmx2g"})
            if r.returncode or b"EXITCODE: OK" not in r.stdout:
                raise core.Broken("PassLayout, %s: %s" % (inv, r.stdout.decode(errors="replace")[-1500:]))
        s.models.append(dict(module="PassLayout", checker="apalache", obligations=4, discharged=4))
        s.log("PassLayout: 4 obligations discharged")
    finally:
        shutil.rmtree(work, ignore_errors=True)


@prop("C08")
def scheduling(s):
    kinds = CODE
    full = s.thorough
    s.model("MCSched", "SPECIFICATION Spec\nINVARIANTS InSlot Faithful Apart\nCONSTANTS Waits = %s\nBarriers = %s\nDeps = %s\n" % (
        "{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}" if full else "{0,1,2,4,8,15}",
        "{0,1,2,3,4,5}" if full else "{0,2,5}", "{0,1,2,3,4,5}" if full else "{0,2,5}"))
    rng = s.rng("sched")
    anns = ["@WAIT %d" % n for n in range(17)] + ["@WAIT -1", "@WAIT 0x1f", "@WAIT 16", "@WAIT 4294967296", "@WAIT"] + \
           ["@Y", "@YIELD", "@WB", "@RB", "@DEP", "@", "@WB 0x100000001", "@NONE", "@YIELD 1", "@wait 1", "@Y 0"] + \
           ["@%s %d" % (w, n) for w in ("WB", "RB", "DEP") for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, -1)]
    s.texts("one annotation", ["%s %s;" % (f, a) for f in ("NOP", "MOV R1, R2.reuse", "FFMA R0, R1.reuse, R2.reuse, R3.reuse",
                                                           "EXIT") for a in anns], kinds)
    pieces = [" @WAIT 9", " @Y", " @WB 2", " @RB 5", " @DEP 0", " @DEP 3", " @YIELD"]
    s.texts("every order", ["FADD R0, R1.reuse, R2%s;" % "".join(d) for d in s.written(pieces, s.scale(4, 5))], kinds)
    texts = []
    extremes = [a for a in itertools.product(["", "@WAIT 0", "@WAIT 15", "@WAIT 1"], ["", "@Y"], ["", "@WB 0", "@WB 5"], ["", "@RB 0", "@RB 5"],
                                             ["", "@DEP 0", "@DEP 5", " ".join("@DEP %d" % d for d in range(6))])]
    for a in extremes:                        # in each slot, at the end of a program and before its end
        for before in range(3):
            for after in s.scale([0, rng.choice([1, 2, 3])], range(4)):
                other = ["NOP%s;\n" % rng.choice(["", " @WAIT 15 @Y", " @WB 0 @RB 0", gen.sched_text(rng)]) for _ in range(before + after)]
                st = "%s %s;\n" % (rng.choice(["NOP", "FFMA R1, R2.reuse, R3.reuse, R4.reuse", "MOV R1, R2.reuse", "EXIT"]), " ".join(x for x in a if x))
                texts.append("".join(other[:before]) + st + "".join(other[before:]))
    s.texts("extremes, in every slot", texts, kinds)
    texts = []
    for _ in range(s.scale(6000, 40000)):     # three slots of a bundle, and a few more
        k = rng.choice([1, 2, 3, 3, 3, 4, 5, 6, 7])
        texts.append("".join(fam.safe(s.cat, rng, reuse=.5) + gen.sched_text(rng) + ";\n" for _ in range(k)))
    s.texts("bundles", texts, kinds)
    slots = {8: 0, 20: 1, 39: 2}
    texts = []
    for f in s.cat.forms:                    # every choice of reused operands, of every form
        at = [i for i, o in enumerate(f.ops) if fam.inner(o)["k"] in ("gpr", "mirror", "mem", "attrphys", "attrpatch", "ldcaddr")]
        choices = list(itertools.product([False, True], repeat=len(at)))
        if len(choices) > 16:
            choices = rng.sample(choices, 16)
        for c in choices:
            for place in s.scale([rng.randrange(3)], range(3)):
                st = s.cat.statement(f, rng, reuse=0)
                rep = {}
                for i, on in zip(at, c):
                    o = fam.inner(f.ops[i])
                    text = s.cat.good(o, rng, dict(s.cat.context(), reuse=0, regs={8: "R8", 20: "R20", 39: "R39", 0: "R1", 28: "R28"}))
                    if on:
                        text = re.sub(r"\b(R\d+|RZ)\b", r"\1.reuse", text, count=1)
                    rep[i] = text
                st = s.cat.statement(f, rng, replace=rep, reuse=0)
                texts.append("NOP @WAIT 1;\n" * place + st + gen.sched_text(rng) + ";\n")
    s.texts("operand reuse", texts, kinds)
    texts = []
    for _ in range(s.scale(3000, 20000)):
        a = "".join(" " + rng.choice(anns) for _ in range(rng.randrange(1, 6)))
        texts.append(fam.relayout(rng, fam.safe(s.cat, rng) + a + ";"))
    s.texts("annotations that may not go together", texts, kinds)
    s.long("far down in long programs", (fam.safe(s.cat, rng, reuse=.5) + gen.sched_text(rng) for _ in range(s.scale(8000, 40000))),
           kinds, before=BEFORE)


@prop("C09")
def layout(s):
    kinds = CODE
    layout_proof(s)
    rng = s.rng("layout")
    texts = []
    for n in range(0, s.scale(48, 200)):
        for k in range(s.scale(6, 12)):
            texts.append(fam.safe_program(s.cat, rng, n, rng.choice([0, 0, 1, 4]), sched=rng.choice([0, .3, 1])))
            if k < 2:
                texts.append(".dksh compute\nmain:\n" + fam.safe_program(s.cat, rng, n, 0))
    s.texts("every small size", texts, kinds)
    texts = []
    for n in s.scale([64, 96, 127, 128, 129, 191, 192, 200, 255, 256, 257, 300, 340, 383, 384, 385, 512, 600, 1000, 1025],
                     list(range(50, 1100, 13)) + [1535, 1536, 1537, 2047, 2048, 2049, 3000, 4096]):
        texts.append(fam.safe_program(s.cat, rng, n, 3, sched=.6))
        texts.append("".join("MOV R%d, %d @WAIT %d;\n" % (i % 255, i, i % 16) for i in range(n)))
    s.texts("larger sizes", texts, kinds)
    programs = []
    for n in s.scale([3000, 4095, 4096, 4097, 10000, 16383, 16384, 21845, 21846, 32767, 32768, 49152, 65535, 65536, 65537,
                      100001, 262144, 1000000],
                     [2 ** k + d for k in range(10, 20) for d in (-1, 0, 1)] + [1500000, 2000001]):
        a = rng.randrange(0, n)
        mid = rng.randrange(0, 4)
        programs.append([("", "MOV R1, R2 @WAIT 2", a), ("", fam.safe(s.cat, rng) + gen.sched_text(rng), mid),
                         ("", "FADD R3, R4.reuse, R5 @WB 1", n - a)])
    programs = [[b for b in p if b[2]] for p in programs]
    s.blocks("very large sizes", programs, kinds)


@prop("C10")
def spelling(s):
    kinds = CODE
    rng = s.rng("layout")
    texts = []
    for _ in range(s.scale(5000, 30000)):
        t = fam.program(s.cat, rng, rng.randrange(1, 5), rng.randrange(0, 3), sched=.4)
        texts.append(fam.relayout(rng, t, p=rng.choice([.05, .2, .6])))
    s.texts("other blanks and lines", texts, kinds)
    texts = []
    for n in range(s.scale(6000, 40000)):
        f = s.cat.forms[n % len(s.cat.forms)]
        t = s.cat.statement(f, rng)
        if rng.random() < .5:
            t = fam.respell(rng, t)
        if rng.random() < .3:
            t = re.sub(r"\bR(\d+)", lambda m: "R" + "0" * rng.randrange(1, 6) + m[1], t)
        if rng.random() < .3:
            t = re.sub(r"\bP([0-6T])\b", lambda m: rng.choice("Pp") + rng.choice([m[1], m[1].lower()]), t)
        if rng.random() < .2:
            t = re.sub(r"(?<=[\[ ])(\d)", r"+\1", t)
        if rng.random() < .2:
            t = re.sub(r" +", "", t[:20]) + t[20:] if rng.random() < .1 else re.sub(r"\s*([,\[\]|~])\s*", r"\1", t)
        texts.append(t + rng.choice([";", " ;", "\n;", "\t;\r\n", ";\n\n\n", ";   "]))
    s.texts("other spellings", texts, kinds)
    # everything of up to so many characters in places where literals are read
    chars = list("019xXafR.-+P;Z :")
    words = ["".join(d) for d in s.written(chars, s.scale(3, 4))]
    s.texts("every short literal", ["MOV32I R1, %s;" % w for w in words], kinds)
    words = ["".join(d) for d in s.written(list("RPTZpr07!.@D"), 3)]
    s.texts("every short word", ["FADD R0, R1, %s;" % w for w in words], kinds)
    texts = []
    for _ in range(s.scale(2500, 20000)):
        base = rng.choice(["%d", "0x%x", "0%o", "0x%X", "+%d", "-%d", "-0x%x", "00%o", "0x00%x", "-0%o", "0b%d"])
        v = rng.choice([gen.interesting(rng, b, False) for b in (4, 8, 16, 19, 20, 24, 31, 32, 33, 48, 63, 64, 65)])
        texts.append("MOV32I R1, %s;" % (base % v))
        texts.append("MOV R1, %s;" % (base % v))
        texts.append("LDG R1, [R2%s];" % (rng.choice(["+", " ", "", "-", " -", " +"]) + "%d" % (v % (1 << 24))))
    s.texts("integer notations", texts, kinds)
    pieces = ["MOV R1, R2;", "\n", "\r", "\t", " ", "a:"]
    s.texts("every character in a label", fam.named(rng, fam.NAMES), kinds)
    s.texts("every character everywhere", fam.every_byte(), kinds)
    s.texts("every short arrangement", ["".join(d) for d in s.written(pieces, s.scale(4, 6))], kinds)


@prop("C11")
def nothing_else(s):
    kinds = CODE
    s.texts("an operand that does not fit", fam.misses(s.cat, s.rng("misses"), s.scale(4, 60)), kinds)
    s.texts("everything that is almost an operand", fam.almost(s.cat, s.rng("almost"), s.scale(1, 3)), kinds)
    s.texts("every word in place of every operand", fam.strangers(s.cat, s.rng("strangers"), s.scale(.2, 1)), kinds)
    s.texts("sources that are the destination", fam.mirrored(s.cat, s.rng("mirrored"), s.thorough), kinds)
    s.texts("each word taken out", fam.without(s.cat, s.rng("without"), s.scale(2, 15)), kinds)
    s.texts("modifiers of other instructions", fam.foreign(s.cat, s.rng("foreign"), s.scale(22, 200)), kinds)
    rng = s.rng("words")
    texts = []
    for n in range(s.scale(10000, 150000)):
        f = s.cat.forms[n % len(s.cat.forms)]
        t = s.cat.guard(f, rng) + s.cat.statement(f, rng) + (gen.sched_text(rng) if rng.random() < .2 else "") + ";"
        for _ in range(rng.choice([1, 1, 1, 2])):
            t = fam.swap_words(s.cat, rng, t)
        texts.append(t)
    s.texts("words taken out, doubled, exchanged", texts, kinds)
    texts = []
    for n in range(s.scale(8000, 100000)):
        texts.append(fam.mutate(rng, s.cat.random_statement(rng, sched=.2) + ";", chars=fam.CH + "\x00" * 3))
    s.texts("characters changed", texts, kinds)
    texts = []
    for m in s.cat.mnemonics:
        texts += ["%s;" % x for x in (m, m.lower(), m + "X", m[:-1], m + "2", "_" + m, m + "_", m[0] + m, m + ".", m + ",",
                                      m + " R1", m + " R1,", m + " R1, R2", m + " R1, R2, R3", m + " R1, R2, R3, R4",
                                      m + " R1, R2, R3, R4, R5", m + " P0", m + " P0, P1", m + " P0, R1, R2", m + " 0", m + " 0x10",
                                      m + " c[0][0]", m + " R1, c[0][4]", m + " R1, 1.0", m + " R1, 5", m + " R1, R2, 5",
                                      m + " R1, R2, 1.0", m + " R1, R2, c[0][4]", m + " R1, [R2]", m + " [R1], R2",
                                      m + " R1, c[0][4], R2", m + " R1, R2, c[0][4], R3", m + " R1, R2, R3, c[0][4]")]
    s.texts("every mnemonic with common operands", texts, kinds)
    texts = []
    for _ in range(s.scale(1500, 10000)):
        good = fam.safe_program(s.cat, rng, rng.randrange(1, 7), 2)
        p = rng.randrange(len(good) + 1)
        texts.append(good[:p] + rng.choice([";", "NOP", "R1", "}", "//", "#", "/* */", ":", "\"", "\\", "@", "@P0", ".x\n", "a:", "0", "NOP NOP;",
                                            ";;", "-", ",", "nop;", "~;", "\x80", "$", "=", "x y;"]) + good[p:])
    s.texts("something else between statements", texts, kinds)
    s.texts("every character everywhere", fam.every_byte(), kinds)
    s.texts("options, and what is almost one", option_texts(), kinds)
    deep(s, kinds, bad=s.scale(250, 2000), count=s.scale(3000, 20000),
         wrong=[t.rstrip(";") for t in fam.misses(s.cat, s.rng("wrong"), 1)])


@prop("C12")
def alternatives(s):
    kinds = CODE
    rng = s.rng("forms")
    groups = {}
    for f in s.cat.forms:
        groups.setdefault(f.m, []).append(f)
    texts = []
    later = [f for fs in groups.values() for f in fs[1:]]
    for f in later * s.scale(60, 400):
        n = rng.choice([1, 1, 2, 3])
        out = []
        for k in range(n):
            g = f if k == 0 else rng.choice(later)
            out.append(s.cat.guard(g, rng) + s.cat.statement(g, rng, reuse=.5, mods=.6)
                       + (gen.sched_text(rng) if rng.random() < .5 else "") + ";\n")
        texts.append("".join(out))
    s.texts("forms that are not the first", texts, kinds)
    texts = []
    for m, fs in sorted(groups.items()):      # all forms of a mnemonic in one program, in every order
        for _ in range(s.scale(25, 200)):
            order = rng.sample(fs, len(fs))
            texts.append("".join(s.cat.statement(f, rng, reuse=.4) + (gen.sched_text(rng) if rng.random() < .4 else "")
                                 + ";\n" for f in order))
    s.texts("all forms of a mnemonic", texts, kinds)
    s.long("far down in long programs", (s.cat.guard(f, rng) + s.cat.statement(f, rng, reuse=.5, mods=.6) + gen.sched_text(rng)
                                         for f in later * s.scale(14, 100)), kinds, before=BEFORE)


@prop("C13")
def places(s):
    kinds = ("loc", "crash")
    rng = s.rng("places")

    def broken():
        f = s.cat.random_form(rng)
        r = rng.random()
        if r < .5:
            i = rng.randrange(len(f.ops)) if f.ops else None
            t = s.cat.statement(f, rng, replace={i: s.cat.bad(f.ops[i], rng, s.cat.context())} if f.ops else None)
        elif r < .75:
            t = fam.swap_words(s.cat, rng, s.cat.statement(f, rng))
        else:
            t = fam.mutate(rng, s.cat.statement(f, rng))
        return s.cat.guard(f, rng) + t + (gen.sched_text(rng) if rng.random() < .2 else "") + rng.choice([";", ";", ";\n", ""])
    texts = []
    for _ in range(s.scale(16000, 120000)):
        pre = "".join(rng.choice(["", "", " ", "\t", "  ", "\t\t", " \t "]) + fam.safe(s.cat, rng) + rng.choice([";\n", ";", ";\r\n", "; ", ";\n\n"])
                      for _ in range(rng.choice([0, 0, 1, 2, 3])))
        lab = rng.choice(["", "", "", "x:\n", "x: ", "\nx:\t"])
        b = broken()
        if rng.random() < .5:
            b = fam.relayout(rng, b)
        texts.append(pre + lab + rng.choice(["", "", " ", "\t", "    ", "\r", "\n \t"]) + b
                     + rng.choice(["", "", "\nNOP;\n", " NOP;", "\nBAD;"]))
    s.texts("one thing is wrong", texts, kinds)
    texts = []
    for _ in range(s.scale(1200, 8000)):
        n = rng.randrange(1, 60)
        lines = [fam.safe(s.cat, rng) + ";" for _ in range(n)]
        lines.insert(rng.randrange(n + 1), rng.choice(["\t", "", "  "]) + broken().strip())
        for _ in range(rng.randrange(0, 6)):
            lines.insert(rng.randrange(len(lines) + 1), rng.choice(["", "", " ", "\t", "lab%d:" % rng.randrange(10 ** 6)]))
        texts.append("\n".join(lines))
    s.texts("somewhere in a program", texts, kinds)
    texts = ["\n" * n + "\t" * t + " " * c + "BAD;" for n in (0, 1, 9, 10, 99, 127, 128, 255, 256, 1000, 4096)
             for t in (0, 1, 3) for c in (0, 1, 7, 80, 127, 128, 255, 256, 300)]
    texts += ["\n" * n + "NOP; NOP R1;" for n in s.scale((32767, 65536), (9998, 9999, 32766, 32767, 32768, 40000, 65534, 65535, 65536, 70000))]
    texts += [" " * n + "NOP R1;" for n in s.scale((1000, 32767, 65536), (1000, 4000, 32766, 32767, 32768, 65534, 65535, 65536, 70000))]
    texts += ["NOP; " * n + "NOP R1;" for n in s.scale((10, 50, 51, 52, 100, 200, 400), (10, 50, 51, 52, 100, 200, 400, 1000))]
    texts += ["\t" * n + "NOP R1;" for n in s.scale((1, 2, 63, 64, 65, 1000, 8192, 16384), (1, 2, 63, 64, 65, 1000, 8191, 8192, 16384))]
    s.texts("far down and far right", texts, kinds)
    texts = []
    pieces = ["a:", "a:\n", "NOP;\n", " ", "a", "\t", ";"]
    s.texts("labels defined twice", ["".join(d) for d in s.written(pieces, s.scale(4, 5))], kinds)
    opts = [".dksh compute\n", ".type x\n", ".num_gprs 5\n", ".num_gprs\n", ".workgroup_size 1 2\n", ".bogus\n", ".type compute",
            "\n", "  ", "NOP;\n"]
    s.texts("options", ["".join(d) for d in s.written(opts, 3)], kinds)
    texts = []
    for _ in range(s.scale(1500, 15000)):
        ls = [rng.choice(OPTION_LINES) for _ in range(rng.choice([1, 1, 2, 3]))]
        texts.append(rng.choice(["\n", "\n\n", " \n\t", "\r\n"]).join([rng.choice(["", "\t", " "])] + ls) + rng.choice(
            ["\nmain:\nNOP;\n", "\nNOP;\n", "", "\n", "\nNOP;\nmain:\nNOP;"]))
    s.texts("any options", texts + option_texts(), kinds)
    s.mixed("names of files", [(dict(filename=name), [
        "\n" * rng.randrange(5) + " " * rng.randrange(5) + broken() for _ in range(s.scale(60, 300))])
        for name in ["a", "dir/some file.sass", "%s%n%d", "x" * 300, "-", "in.sass:7", "\u00e9.sass", "../a/b", "", "a:1:2: error: x"]], kinds)
    s.texts("every character everywhere", rng.sample(fam.every_byte(), s.scale(4000, 10000)), kinds)
    texts = []
    for length in (1, 10, 100, 500, 1000, 1023, 1024, 1025, 2047, 4096, 5000):
        w = "w" * length
        texts += [w + ";", "NOP;\n " + w + ";", "MOV R1, " + w + ";", "\nBRA " + w + ";", "NOP." + w + ";", "MOV R1, " + "1" * length + "z;",
                  "NOP;\n" + w + ":\n" + w + ":\n", "FADD." + w + " R1, R2, R3;", "NOP @" + w + ";", "." + w + " 1\nNOP;",
                  "MOV R" + "1" * length + ", 0;", "MOV R1, 0x" + "f" * length + ";"]
    s.texts("long words", texts, kinds)
    texts = []                                  # what is passed over before the error counts as well
    for _ in range(s.scale(2500, 20000)):
        w = "".join(chr(rng.choice([rng.randrange(1, 256), rng.randrange(128, 256), 95])) for _ in range(rng.randrange(1, 9)))
        w = re.sub("[\\s\0:;]", "_", w)
        texts.append(rng.choice(["", "NOP;", "NOP;\n", "\t"]) + rng.choice(["%s: ", "%s:", "x%s:\t", "%s:y%s: ", "MOV R1, R2; %s: "]).replace("%s", w)
                     + broken())
    s.texts("words that are passed over", texts, kinds)
    deep(s, kinds, bad=s.scale(250, 2000), count=s.scale(1500, 5000),
         wrong=[t.rstrip(";") for t in fam.misses(s.cat, s.rng("wrong"), 1)])


# ---------------------------------------------------------------- totality
def machine(s, pieces, size):
    """the machine of the specification ends on everything that can be made of these pieces"""
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(pieces, f)
    try:
        s.model("MCAssembler", "SPECIFICATION Spec\nCONSTANT MaxPieces = %d\nINVARIANTS NoClash InText SemicolonsCount LabelsAreCode FaultIsThere "
                "OneStep\nPROPERTIES Ends Stays Further\n" % size, env={"PIECES": f.name})
    finally:
        os.unlink(f.name)


@prop("C14")
def totality(s):
    rng = s.rng("bytes")
    machine(s, ["NOP;", "a:", "\n", "BRA a;", " ", "R1", ";", ".num_gprs 5", ".dksh compute", "main:"], s.scale(3, 5))
    machine(s, list("NOP;a:\n. @0"), s.scale(4, 5))
    core.build("asan")
    s.log("built with sanitizers")
    per = s.scale(1, 12)
    texts = []
    for _ in range(6000 * per):
        n = rng.choice([0, 1, 2, 3, 5, 8, 20, 60])
        texts.append("".join(chr(rng.randrange(1, 256)) for _ in range(n)))
    for _ in range(6000 * per):
        n = rng.choice([1, 2, 3, 5, 8, 20, 40])
        texts.append("".join(rng.choice(fam.CH) for _ in range(n)))
    for _ in range(5000 * per):
        texts.append(" ".join(rng.choice(s.cat.words + s.cat.mnemonics + ["R1", "R2", "RZ", "P0", "!P1", "5", "-1", "1.5", ",", ",", ";", "[", "]",
                                                                          "c[0][4]", "[R1+4]", "|", "-", "~", "@", "@P0", ".reuse"])
                              for _ in range(rng.randrange(1, 12))))
    s.endings("any characters and words", texts, "asan")
    texts = []
    for _ in range(14000 * per):
        t = s.cat.random_statement(rng, sched=.3) + ";"
        if rng.random() < .3:
            t = fam.safe_program(s.cat, rng, 2, 2) + t
        texts.append(fam.mutate(rng, t, rng.choice([1, 2, 4]), fam.CH + "\x00"))
    for f in s.cat.forms:
        t = s.cat.guard(f, rng, .5) + s.cat.statement(f, rng, reuse=.3) + gen.sched_text(rng) + ";"
        texts += [t[:k] for k in range(len(t))]
    s.endings("changed and cut off", texts, "asan")
    texts = []
    for f in s.cat.forms:
        for _ in range(25 * per):
            texts.append(s.cat.guard(f, rng) + s.cat.statement(f, rng, reuse=.3) + gen.sched_text(rng) + ";")
    for t in fam.misses(s.cat, rng, 3 * per):
        texts.append(t)
    for t in itertools.islice(fam.integers(s.cat, rng), 0, None, 3):
        texts.append(t + ";")
    for t in itertools.islice(fam.floats(s.cat, rng, 0), 0, None, s.scale(3, 1)):
        texts.append(t + ";")
    s.endings("statements", texts, "asan")
    s.endings("statements, with tables apart", texts + list(fam.unknown_words(s.cat, rng)), "guarded")
    texts = []
    for _ in range(1500 * per):
        lines = [rng.choice(OPTION_LINES + [""]) for _ in range(rng.randrange(1, 6))]
        texts.append("\n".join(lines) + "\n" + rng.choice(["main:\n", "", "a:\n"]) + fam.safe_program(s.cat, rng, rng.randrange(0, 40), 1))
    for n in range(0, 130):
        texts.append(".dksh compute\nmain:\n" + "NOP;\n" * n)
    s.endings("options and containers", texts, "asan")
    big = s.scale(100000, 1000000)
    texts = []
    for unit in ["a", "1", "R", "R1", "P0", "[", "]", "|", "-", "~", "@", ",", ";", ".", ":", "a:", "a: ", "a:\n", "\n", "\t", " ", "x ", ".reuse",
                 "NOP;", "NOP ", "0x", "1.0", "0.", "!", "!P0", "c[0]", "@P0 ", "@Y ", ".x\n", "\x00", "\xff", "9", ".FTZ"]:
        texts.append(unit * (big // 4))
        texts.append("NOP " + unit * (big // 8) + ";")
        texts.append("FADD R1, R2, " + unit * (big // 8) + ";")
        texts.append("MOV R1, " + unit * 300)
        texts.append("FADD32I R1, R2, 1" + unit * 500 + ";")
    texts.append("".join("l%d:\n" % i for i in range(big // 20)))
    texts.append("".join("l%d:\nNOP;\n" % i for i in range(2000)))
    texts.append("MOV32I R1, " + "0" * big + "1;")
    texts.append("FADD32I R1, R2, " + "9" * 5000 + ".0;")
    texts.append("FADD32I R1, R2, 0." + "0" * 5000 + "1;")
    oddities = ["w" * k for k in (1, 20, 70, 300, 1100, 5000)] + ["1" * 400, "0x" + "f" * 300, "1." + "5" * 900, "R" * 600, "R" + "9" * 600, "|" * 50,
                                                                 "-" * 80, "@" * 90, "." * 99, "", "\xff" * 200]
    for _ in range(s.scale(150, 1500)):
        n = rng.choice([200, 1000, 1024, 2000, 5000, 20000])
        o = rng.choice(oddities)
        texts.append("NOP;\n" * n + rng.choice(["", "a:\n", fam.safe_program(s.cat, rng, 3, 2)]) + rng.choice([
            "%s;", "%s:\nBRA %s;", "MOV R1, %s;", "FADD32I R1, R2, %s;", "NOP @%s;", "FADD.%s R1, R2, R3;", "BRA %s;", ".%s 1\n", ".num_gprs %s\n",
            "@%s NOP;", "LDG R1, [R2+%s];", "FADD R1, R2, c[%s][4];", "S2R R1, %s;", "SULD.%s R1, [R2], R3;"]).replace("%s", o))
    s.endings("very long", texts, "asan", cpu=120)
    rng.shuffle(texts)
    s.endings("very long, as built by the project", texts, "plain", cpu=60)
    kinds = ("crash", "accept")
    texts = [fam.safe_program(s.cat, rng, rng.randrange(0, 9), rng.randrange(0, 4)) for _ in range(1500 * per)]
    s.texts("programs", texts, kinds, variant="asan")


    remains(s, rng)
    effort(s, rng)


def remains(s, rng):
    """programs assembled again and again in one process"""
    family = "again and again"
    if s.late(family):
        return
    sets = [[s.cat.guard(f, rng) + s.cat.statement(f, rng) + ";\n" for f in s.cat.forms for _ in range(3)],
            [fam.safe_program(s.cat, rng, rng.randrange(0, 30), rng.randrange(0, 8)) for _ in range(s.scale(500, 3000))],
            ["".join("l%d:\nBRA l%d;\n" % (i, i * 7 % 900) for i in range(900)), "x" * 3000 + ":\nBRA " + "x" * 3000 + ";\n"],
            [".dksh compute\n.num_gprs %d\nmain:\n" % i + "NOP;\n" * i for i in range(60)], ["NOP;\n" * 30000], [""]]
    sets = [[r["src"] for r in s.observe(ts) if r["st"] == "ok"] for ts in sets]

    def judge(cases):
        with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        try:
            res = core.tlc("Rest", "SPECIFICATION Spec\nINVARIANTS EndsOk MemoryOk FilesOk\n", {"CASES": f.name}, workers=1)
            m = re.findall(r"^/\\ run = (\d+)$", res.output, re.M)
            return res, None if res.ok else int(m[-1]) - 1
        finally:
            os.unlink(f.name)
    with ThreadPoolExecutor(core.JOBS) as pool:
        cases = list(pool.map(core.rest, sets))
    res, i = judge(cases)
    s.states += res.distinct
    s.transitions += res.states
    if i is not None:
        again = [core.rest(sets[i])]
        res2, j = judge(again)
        if j is None:
            raise core.Broken("did not happen again: %r" % cases[i])
        raise Violation(res2.violated, s.replay(dict(kind="rest", violated=res2.violated, texts=sets[i][:20], measured=again[0])))
    s.traces += len(cases)
    s.families[family] = __import__("collections").Counter(runs=sum(map(len, sets)) * 8)
    s.log("%s: %s" % (family, [c["m"][-1] for c in cases]))


def growing(s, rng):
    """texts of any length: name -> the text of that many units"""
    units = {"blank": " ", "line": "\n", "tab": "\t", "nop": "NOP;\n", "nops": "NOP;", "letter": "a", "digit": "1", "word": "a ", "label": "a:",
             "semicolon": ";", "option": ".num_gprs 5\n", "at": "@", "dot": ".", "bar": "|", "minus": "-", "bracket": "[", "guard": "@P0 NOP;\n",
             "comma": ",", "float": "FADD32I R1, R2, 0.125;\n", "half": "HADD2 R1, R2, 0.5, -0.25;\n", "schedule": "NOP @WAIT 3 @Y @DEP 1;\n",
             "number": "BRA 0x100;\n", "crlf": "EXIT;\r\n"}
    out = {k: (lambda n, u=u: u * n) for k, u in units.items()}
    for f in rng.sample(s.cat.simple, 3):
        st = s.cat.guard(f, rng) + s.cat.statement(f, rng) + ";\n"
        out["statement " + f.m] = lambda n, st=st: st * n
    out["labels"] = lambda n: "".join("l%d:\nNOP;\n" % i for i in range(n))
    out["labels only"] = lambda n: "".join("l%d:\n" % i for i in range(n))
    out["labels and uses"] = lambda n: "".join("l%d:\nBRA l%d;\n" % (i, i * 7 % n) for i in range(n))
    out["labels before"] = lambda n: "".join("BRA l%d;\n" % (i * 7 % n) for i in range(n)) + "".join("l%d:\n" % i for i in range(n))
    out["one label"] = lambda n: "l:\n" + "BRA l;\n" * n
    out["container"] = lambda n: ".dksh compute\nmain:\n" + "MOV R1, R2;\n" * n
    out["options between"] = lambda n: ".num_gprs 5\nNOP;\n" * n
    out["long line"] = lambda n: "MOV R1, R2; " * n
    out["lines between"] = lambda n: "MOV\nR1\n,\nR2\n;\n" * n
    out["long name"] = lambda n: "a" * n + ":\nBRA " + "a" * n + ";\n"
    out["wrong at the end"] = lambda n: "MOV R1, R2;\n" * n + "MOV R1;\n"
    out["wrong far right"] = lambda n: "MOV R1, R2;" * n + "MOV R1;\n"
    out["blanks inside"] = lambda n: "MOV R1," + " " * n + "R2;"
    out["blanks before a form"] = lambda n: ("FFMA R1, R2, c[0][4]," + " " * 40 + "R3;\n") * n
    out["long integer"] = lambda n: "MOV32I R1, " + "0" * n + "1;"
    out["long fraction"] = lambda n: "FADD32I R1, R2, 0." + "0" * n + "1;"
    out["long register"] = lambda n: "MOV R" + "0" * n + "1, R2;"
    return out


def effort(s, rng):
    if s.late("effort"):
        return
    core.build("plain")
    texts = growing(s, rng)
    heavy = s.scale(12000, 50000)
    steps = 4

    def sizes(name):
        # as many units as take about the same
        n = 8 * heavy if len(texts[name](1)) <= 2 or "long" in name or "inside" in name else heavy // 2
        return [n << k >> (steps - 2) for k in range(steps)]
    jobs = [(name, n) for name in texts for n in sizes(name)]

    def suspect(m):
        # not a verdict, only whether to have one before more is measured: what is slow takes its time
        def grows(k, slack):
            x = [e[k] for e in m]
            return len(x) >= 3 and x[-1] - x[-2] > 3 * max(0, x[-2] - x[-3]) + slack
        return not all(e["ended"] for e in m) or grows("work", 1500) or grows("space", 256)

    def measured(names):
        got = {name: [] for name in names}
        with ThreadPoolExecutor(core.JOBS) as pool:
            for at in range(0, len(names), 2 * core.JOBS):
                some = names[at:at + 2 * core.JOBS]
                for k in range(steps):
                    for name, e in zip(some, pool.map(lambda name: core.effort(texts[name](sizes(name)[k]), s.scale(60, 400)), some)):
                        got[name].append(e)
                    if any(suspect(got[name]) for name in some):
                        return [dict(name=name, m=m) for name, m in got.items() if m]
        return [dict(name=name, m=m) for name, m in got.items()]

    def judge(cases):
        with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        try:
            res = core.tlc("Effort", "SPECIFICATION Spec\nINVARIANTS EndsOk WorkOk SpaceOk\n", {"CASES": f.name}, workers=1)
            m = re.findall(r"^/\\ run = (\d+)$", res.output, re.M)
            return res, None if res.ok else int(m[-1]) - 1
        finally:
            os.unlink(f.name)
    cases = measured(list(texts))
    res, i = judge(cases)
    s.states += res.distinct
    s.transitions += res.states
    if i is not None:
        again = measured([cases[i]["name"]])
        res2, j = judge(again)
        if j is None:
            raise core.Broken("did not happen again: %r" % cases[i])
        raise Violation(res2.violated, s.replay(dict(kind="effort", violated=res2.violated, text=again[0]["name"],
                                                     units=sizes(again[0]["name"]), measured=again[0]["m"],
                                                     unit=texts[again[0]["name"]](3))))
    s.traces += len(cases)
    s.families["effort"] = __import__("collections").Counter(runs=len(jobs))
    s.samples += [dict(family="effort", **c) for c in cases[:3]]
    s.log("effort: %d texts" % len(jobs))


# --------------------------------------------------------------- container
OPTION_LINES = [".dksh compute", ".type compute", ".num_gprs 16", ".num_gprs 255", ".workgroup_size 8 4 2", ".shared_memory 1024",
                ".local_memory 48", ".dksh vertex", ".type fragment", ".num_gprs -1", ".num_gprs 16777216", ".workgroup_size 1 1",
                ".workgroup_size 0 0 0", ".shared_memory 1", ".local_memory 0x10", ".dksh", ".type", ".type pixel", ".dksh nothing",
                ".num_gprs R1", ".num_gprs 1 2", ".bogus 3", ".local_memory", ".shared_memory 16777215", ".local_memory 16777215",
                ".Dksh compute", ".dksh compute .num_gprs 4", ".num_gprs 0", ".shared_memory 0x100", ".workgroup_size 1 2 3 4",
                ".shared_memory -1", ".local_memory 1.5", ".workgroup_size 0x400 1 1", ".type hull", ".dksh domain"]


def sizes(rng):
    return rng.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 100, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 4095, 4096,
                       32767, 32768, 49152, 65535, 65536, 65537, 100000, 0xfffff, 0x100000, 0xfffff0, 0xfffff1, 0xffff00, 0xffff01, 0xffffff,
                       rng.randrange(1 << 24), rng.randrange(1 << 16), rng.randrange(1 << 10), rng.randrange(256)])


def header(rng, kinds=None):
    lines = [".dksh compute"]
    for _ in range(rng.randrange(0, 6)):
        o = rng.choice([".num_gprs %s", ".workgroup_size %s %s %s", ".shared_memory %s", ".local_memory %s"])
        lines.append(o % tuple(gen.number(rng, sizes(rng)) for _ in range(o.count("%s"))))
    rng.shuffle(lines)
    return lines


@prop("C15")
def container(s):
    kinds = CODE
    layout_proof(s)
    rng = s.rng("dksh")
    texts = []
    for n in list(range(0, s.scale(110, 400))) + s.scale([143, 144, 145, 191, 192, 193, 240, 383, 384, 400], list(range(400, 1000, 7))):
        texts.append(".dksh compute\nmain:\n" + fam.safe_program(s.cat, rng, n, 2))
        texts.append("\n".join(header(rng)) + "\nmain:\n" + fam.safe_program(s.cat, rng, n, 0))
    s.texts("every size of code", texts, kinds)
    texts = []
    for n in range(0, 20):
        for k in range(0, n + 1):
            texts.append(".dksh compute\n" + "MOV R1, R2;\n" * k + "main:\n" + "NOP;\n" * (n - k))
    texts += [".dksh compute\n" + "MOV R1, R2;\n" * k + "main:\nEXIT;\n" for k in (23, 24, 25, 30, 31, 33, 63, 66, 96, 99, 126, 129, 300, 301)]
    texts += [".dksh compute\nNOP;\n", ".dksh compute\nMain:\nNOP;\n", ".dksh compute\n main:\nNOP;\n", ".dksh compute\nmain :\nNOP;\n",
              ".dksh compute\nmain2:\nNOP;\n", "main:\n.dksh compute\nNOP;\n", "main: .dksh compute\nNOP;\n", ".dksh compute\nmain:NOP;\n",
              ".dksh compute main:\nNOP;\n", "NOP;\n.dksh compute\nNOP;\nNOP;\nmain:\nNOP;\n", ".dksh compute\nmain:", ".dksh compute\nmain:\n"]
    s.texts("every entry point", texts, kinds)
    texts = []
    for _ in range(s.scale(6000, 60000)):
        lines = header(rng)
        body = ["main:"] + fam.safe_program(s.cat, rng, rng.choice([0, 1, 2, 3, 4, 7, 24, 25]), 0).split("\n")
        if rng.random() < .3:                   # options between the statements
            k = rng.randrange(len(lines) + 1)
            rest, lines = lines[k:], lines[:k]
            for l in rest:
                body.insert(rng.choice([i for i, b in enumerate(body) if i == 0 or body[i - 1].endswith(";") or i == 1]), l)
        texts.append("\n".join(lines + body) + "\n")
    s.texts("every value", texts, kinds)
    texts = []
    for o in (".num_gprs %d", ".shared_memory %d", ".local_memory %d", ".workgroup_size %d 1 1", ".workgroup_size 1 %d 1", ".workgroup_size 1 1 %d"):
        vs = set(gen.edges(24, False)) | set(gen.outside(24, False)) | set(range(0, 40)) | {16 * k + d for k in range(60) for d in (-1, 0, 1)} \
            | {256 * k + d for k in range(40) for d in (-1, 0, 1)}
        for v in sorted(vs):
            texts.append(".dksh compute\n%s\nmain:\nNOP;\n" % fam.respell(rng, o % v))
    s.texts("values at and around the limits", texts, kinds)
    programs = []
    filler = ["NOP", "MOV R1, R2", "FADD R1, R2, R3", "EXIT", "@P0 IADD R4, R5, 0x7 @WAIT 3"]
    for n in s.scale([2045, 6141, 6142, 6143, 6144, 8190, 12282, 24570, 49148, 49149, 49150, 98302, 98304, 200000],
                     [2045, 6141, 6142, 6143, 6144, 8190, 12282, 24570, 49148, 49149, 49150, 98302, 98304, 200000, 500000, 786432]):
        v = lambda: rng.choice([0, 1, 16, 255, 256, 4097, 65535, 65536, 65537, (1 << 24) - 1, rng.randrange(1 << 24)])
        o = dict(gprs=v(), shared=v(), local=v() % (1 << 20), wg=[v(), v(), v()])
        a, b = rng.choice(filler), rng.choice(filler)
        programs += [[o, ("", a, n - n % 3), ("main", b, 1 + rng.randrange(5))],
                     [o, ("", b, 3 * rng.randrange(1, 5)), ("main", a, n)],
                     [o, ("", a, n // 2 + rng.choice([0, 1, 2])), ("main", "BRA main", 1), ("", b, 7), ("x", a, n - n // 2)]]
    programs += [[dict(gprs=1, shared=0, local=0, wg=[1, 1, 1]), ("maim", "NOP", 5000), ("mai", "EXIT", 2)]]
    far_options(s, kinds)
    s.blocks("large containers", programs, kinds)


def option_texts():
    texts = []
    names = ["vertex", "tess_control", "hull", "tess_eval", "domain", "geometry", "fragment", "pixel", "compute", "Compute", "COMPUTE", "comp",
             "kernel", "", "5", "R1", "P0", ".compute", "compute,", "compute;", "computes", "comput", "mesh", "task", "compute compute"]
    for n in names:
        for o in (".dksh", ".type", ".Type", ".DKSH"):
            texts.append("%s %s\nmain:\nNOP;\n" % (o, n))
            texts.append("%s\n%s\nmain:\nNOP;\n" % (o, n))
    words = ["vertex", "tess_control", "hull", "tess_eval", "domain", "geometry", "fragment", "pixel", "compute"]
    for n in words:                          # what resembles a word of an option
        texts += [".dksh %s\nmain:\nNOP;\n" % x for x in gen.near(n)] + [".type %s\nNOP;\n" % x for x in gen.near(n)]
    for n in (".dksh compute", ".type compute", ".num_gprs 5", ".shared_memory 5", ".local_memory 5", ".workgroup_size 1 2 3"):
        o, _, v = n.partition(" ")
        texts += ["%s %s\nmain:\nNOP;\n" % (x, v) for x in gen.near(o)]
    for o in (".num_gprs", ".shared_memory", ".local_memory", ".workgroup_size", ".num_gpr", ".gprs", ".shared", ".NUM_GPRS"):
        for v in ["", "0", "1", "-1", "0x10", "010", "1.0", "R1", "P0", "x", "[1]", "c[0][0]", "1 2", "1 2 3", "1 2 3 4", "1, 2, 3", "0x1 0x2 0x3",
                  "1 2 -3", "1 -2 3", "-1 2 3", "1 2 x", "16777215", "16777216", "4294967296", "18446744073709551615", "99999999999999999999",
                  "1 1 16777216", "1 16777216 1", "\n1", "1\n2\n3", "1 1\n1", "1 \n", "+5", "-0", "1;", "1 2 3;", "@1", ".5", "5."]:
            for pre in ("", ".dksh compute\n", "NOP;\n"):
                texts.append("%s%s %s\nmain:\nNOP;\n" % (pre, o, v))
    return texts


@prop("C16")
def options(s):
    kinds = CODE
    rng = s.rng("options")
    lines = [".dksh compute\n", ".type compute\n", ".num_gprs 16\n", ".workgroup_size 8 4 2\n", ".shared_memory 300\n", ".local_memory 48\n",
             ".num_gprs 7\n", ".type vertex\n", "NOP;\n", "\n", "main:\n", ".bogus\n"]
    s.texts("every order", ["".join(d) for d in s.written(lines, s.scale(3, 4))], kinds)
    s.texts("every order, in a container", [".dksh compute\n" + "".join(d) + "main:\nNOP;\n" for d in s.written(
        [".num_gprs 16\n", ".workgroup_size 8 4 2\n", ".shared_memory 300\n", ".local_memory 48\n", ".num_gprs 7\n", ".workgroup_size 3 2 1\n",
         ".shared_memory 1\n", ".type compute\n", ".dksh compute\n"], s.scale(3, 4))], kinds)
    pieces = [".num_gprs", " ", "5", "\n", ".dksh", "compute", "NOP;", "main:"]
    s.texts("every arrangement of words", ["".join(d) for d in s.written(pieces, s.scale(4, 5))], kinds)
    texts = []
    for _ in range(s.scale(9000, 60000)):
        ls = [rng.choice(OPTION_LINES) for _ in range(rng.randrange(1, 5))]
        if rng.random() < .5:
            ls.insert(0, ".dksh compute")
        body = rng.choice(["main:\nNOP;\n", "NOP;\n", "", "main:\n", "NOP;\nNOP;\nNOP;\nmain:\nNOP;\n", "NOP;\nmain:\nNOP;\n"])
        t = rng.choice(["\n", "\n", "\n\n", "\r\n", " \n\t", " ", "\n\r"]).join(ls) + "\n" + body
        if rng.random() < .3:
            t = fam.relayout(rng, t, spaces=(" ", "\t", "  ", "\n"), p=.1)
        if rng.random() < .2:
            t = t + rng.choice(OPTION_LINES) + rng.choice(["", "\n", "\nNOP;"])
        texts.append(t)
    s.texts("any lines", texts, kinds)
    texts = []
    for _ in range(s.scale(3500, 30000)):
        ls = header(rng)[rng.random() < .4:]
        body = rng.choice(["main:\n"] * 5 + ["", "a:\n"]).join(["", fam.safe_program(s.cat, rng, rng.choice([1, 2, 3, 5, 8]), rng.choice([0, 1, 2]))])
        lines = body.split("\n")
        for l in ls[1:] if rng.random() < .5 else []:       # between the statements
            ls.remove(l)
            k = rng.randrange(len(lines))
            if k == 0 or lines[k - 1].endswith((";", ":")):
                lines.insert(k, l)
        if rng.random() < .25:
            ls.insert(rng.randrange(len(ls) + 1), rng.choice(OPTION_LINES))
        gap = rng.choice(["\n", "\n", "\n\n", "\r\n", " \n\t"])
        texts.append(gap.join(ls + lines) + "\n")
    s.texts("options among statements", texts, kinds)
    s.texts("every option with any value", option_texts(), kinds)
    far_options(s, kinds)


def far_options(s, kinds):
    """options thousands of statements down"""
    rng = s.rng("far")
    programs = []
    right = [".num_gprs %d", ".shared_memory %d", ".local_memory %d", ".workgroup_size %d 2 3"]
    wrong = [".num_gprs -1", ".num_gprs", ".workgroup_size 1 2", ".num_gprs 5 6", ".bogus", ".type compute", ".dksh compute", ".type vertex", ".num_gprs 16777216",
             ".local_memory 1\n.type compute", ".shared_memory R1"]
    for k in range(s.scale(36, 200)):
        p = [("main", "NOP", rng.choice([1, 2, 3]))]
        n = rng.choice([50, 1400, 5000, 12400, 13000, 30000, 70000])
        lines = [rng.choice(right) % rng.choice([0, 1, 200, 65536, 70001, 0xffffff]) for _ in range(rng.randrange(0, 4))]
        if k % 3:
            lines.insert(rng.randrange(len(lines) + 1), ".dksh compute")
        if k % 4 == 3:
            lines.append(rng.choice(wrong))
        for l in lines:
            p += [("", "MOV R1, R2", rng.randrange(1, n)), ("", l + "\nNOP @WAIT 1", 1)]
        programs.append(p + [("", "EXIT", rng.randrange(1, 9))])
    s.blocks("options far down", programs, kinds)


# ----------------------------------------------------------- command line
def cli_texts(s, rng):
    out = []
    for size in s.scale([0, 1, 100, 4000, 4094, 4095, 4096, 4097, 4098, 8190, 8191, 8192, 8193, 12287, 12288, 12289, 16383, 16384, 16385, 20000],
                        [0, 1, 2, 3, 100, 1000, 2047, 2048, 2049, 4000] + [4096 * k + d for k in range(1, 8) for d in (-2, -1, 0, 1, 2)]):
        t = ""
        while len(t) < size:
            t += fam.safe(s.cat, rng) + gen.sched_text(rng) + ";\n"
        k = t.rfind(";\n", 0, size - 1)
        t = t[:k + 2] if k >= 0 and len(t) > size else t if len(t) <= size else ""
        out.append(t + rng.choice([" ", "\n"]) * (size - len(t)))
    out += [fam.safe_program(s.cat, rng, rng.randrange(0, 60), rng.randrange(0, 5)) for _ in range(s.scale(60, 400))]
    out += [fam.mutate(rng, fam.safe_program(s.cat, rng, rng.randrange(1, 6), 2), chars=fam.CH + "\x00\x1a") for _ in range(s.scale(150, 1500))]
    out += ["\n".join(header(rng)) + "\nmain:\n" + fam.safe_program(s.cat, rng, rng.randrange(0, 30), 1) for _ in range(s.scale(40, 300))]
    out += ["NOP;\x00NOP;", "NOP;\x1aNOP;", "\xef\xbb\xbfNOP;", "NOP;\r\nMOV R1, R2;\r\n", "NOP", "NOP;" * 5000]
    return out


def run_tool(tool, args, cwd, stdin=None, **kw):
    try:
        r = subprocess.run([tool] + args, cwd=cwd, stdin=stdin or subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=60, env={**os.environ, **core.SANITIZER}, **kw)
        return r.returncode, r.stderr, r.stdout
    except subprocess.TimeoutExpired:
        return 1000, b"", b""


def tool_record(tool, text, cwd, name, via="file"):
    """as run_texts, but through the tool and its files"""
    out = os.path.join(cwd, "image.out")
    # what is there before is longer than any image
    with open(out, "wb") as f:
        f.write(b"\xee" * 400000)
    path = os.path.join(cwd, name)
    if via == "fifo":
        os.mkfifo(path)

        def feed():
            with open(path, "wb", buffering=0) as f:
                data = text.encode("latin-1")
                for i in range(0, len(data), 777):
                    try:
                        f.write(data[i:i + 777])
                    except BrokenPipeError:
                        return
        th = threading.Thread(target=feed, daemon=True)
        th.start()
    else:
        with open(path, "wb") as f:
            f.write(text.encode("latin-1"))
    code, err, _ = run_tool(tool, [name, "-o", "image.out"], cwd)
    if via == "fifo":
        os.unlink(path)
    elif open(path, "rb").read() != text.encode("latin-1"):
        return dict(src=text, st="input changed", w=[], has=False, ln=0, cl=0, msg="")
    data = open(out, "rb").read()
    rec = dict(src=text, st="ok", w=[], has=False, ln=0, cl=0, msg="")
    if code == 0:
        if len(data) % 8:
            rec["st"] = "image of %d bytes" % len(data)
        else:
            rec["w"] = ["%016X" % x for x in struct.unpack("<%dQ" % (len(data) // 8), data)]
    elif code == 1:
        good, has, ln, cl, msg = core.diagnostic(err, name)
        rec.update(st="err" if good else "silent", has=has, ln=ln, cl=cl, msg=msg)
        if data != b"\xee" * 400000:
            rec["st"] = "output touched"
    else:
        rec.update(st="exit %d" % code, msg=err[-500:].decode("latin-1"))
    return rec


@prop("C17")
def command_line(s):
    tool = core.tool("plain")
    s.model("Cli", "SPECIFICATION Spec\nCONSTANT MaxArgs = %d\nINVARIANTS SuccessMeansImage FailureKeepsFiles StatusIsZeroOrOne\n"
            "PROPERTY Ends\n" % s.scale(3, 4))
    rng = s.rng("cli")
    work = tempfile.mkdtemp(prefix="nxv-cli-")
    try:
        # the images, through files of all sizes
        texts = cli_texts(s, rng)
        names = ["in.sass", "a b.sass", "x", "-in.sass", "in.%s.sass", "-", "--", "o", "-oo"]

        def one(i):
            d = os.path.join(work, "t%d" % i)
            os.mkdir(d)
            try:
                return tool_record(tool, texts[i], d, names[i % len(names)], "fifo" if i % 7 == 3 else "file")
            finally:
                shutil.rmtree(d)
        with ThreadPoolExecutor(core.JOBS) as pool:
            recs = list(pool.map(one, range(len(texts))))
        by = {id(r): i for i, r in enumerate(recs)}

        def judge(records, kinds):
            # judged again: run again
            if any(id(r) not in by for r in records):
                records = [one(texts.index(r["src"])) for r in records[:2]]
            return core.conform(records, kinds)
        s.judge("files of all sizes", recs, ALL, dict(variant="plain"), judge=judge)
        vectors(s, tool, work)
        large(s, tool, work, rng)
        outputs(s, tool, work, rng, texts)
        faults(s, tool, work, rng)
    finally:
        shutil.rmtree(work, ignore_errors=True)


CLI_FILES = ["prog", "prog2", "bad", "missing", "dir", "new", "old", "nodir", "full", "dash"]
CLI_PATHS = dict(prog="first.sass", prog2="second.sass", bad="bad.sass", missing="missing.sass", dir="folder", new="new.bin", old="old.bin",
                 nodir="nowhere/x.bin", full="/dev/full", dash="-program")


def cli_folder(d):
    """a fresh folder with the files of Cli"""
    for n in os.listdir(d):
        p = os.path.join(d, n)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for n, data in CLI_CONTENT.items():
        with open(os.path.join(d, CLI_PATHS[n]), "wb") as f:
            f.write(data)
    os.mkdir(os.path.join(d, "folder"))


CLI_CONTENT = dict(prog=b"MOV R1, R2;\nEXIT;\n", prog2=b".dksh compute\nmain:\nFADD R1, R2, 1.0;\nNOP @WAIT 5;\n" + b"NOP;\n" * 700,
                   dash=b"l:\nBRA l;\n", bad=b"MOV R1, R2;\nMOV R1;\n", old=b"\xee" * 9000)


def vectors(s, tool, work):
    images = {}
    progs = ["prog", "prog2", "dash"]
    recs = s.observe([CLI_CONTENT[p].decode("latin-1") for p in progs])
    s.judge("the programs of Cli", recs, ALL, dict(variant="plain", cpu=10, filename=core.FILENAME, env=None))
    for p, r in zip(progs, recs):
        images[b"".join(struct.pack("<Q", int(w, 16)) for w in r["w"])] = p
    out = os.path.join(work, "vectors.json")
    core.tlc("CliVectors", "INIT Init\nNEXT Next\n", {"OUT": out, "MAXARGS": "4"}, workers=1)
    vs = json.load(open(out))
    rng = s.rng("vectors")
    short = [v for v in vs if len(v) <= 3]
    longer = [v for v in vs if len(v) > 3]
    vs = short + rng.sample(longer, s.scale(2500, 14000))
    folders = []
    lock = threading.Lock()

    def one(v):
        with lock:
            d = folders.pop() if folders else tempfile.mkdtemp(dir=work)
        cli_folder(d)
        code, err, _ = run_tool(tool, [CLI_PATHS.get(a, a) for a in v], d)
        disk = {}
        for n in CLI_FILES + ["-o"]:
            p = os.path.join(d, CLI_PATHS.get(n, n)) if n != "full" else None
            if n in CLI_CONTENT:
                data = open(p, "rb").read() if os.path.isfile(p) else None
                disk[n] = "gone" if data is None else "same" if data == CLI_CONTENT[n] else "empty" if not data else images.get(data, "other")
            elif n in ("missing", "new", "nodir", "-o"):
                data = open(p, "rb").read() if os.path.isfile(p) else None
                disk[n] = "same" if data is None else "empty" if not data else images.get(data, "other")
            elif n == "dir":
                disk[n] = "same" if os.path.isdir(p) and not os.listdir(p) else "other"
            else:
                disk[n] = "same"
        extra = set(os.listdir(d)) - {os.path.basename(x) for x in CLI_PATHS.values()} - {"-o", "folder"}
        if extra:
            disk["new"] = "other"
        with lock:
            folders.append(d)
        return dict(args=v, code=code, said=bool(err.strip()), disk=disk)

    def judge(cases):
        with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        try:
            res = core.tlc("CliConform", "SPECIFICATION CSpec\nVIEW CView\nCONSTANT MaxArgs = 5\nINVARIANTS StatusOk SaidOk FilesOk\n",
                           {"CASES": f.name})
            m = re.findall(r"^/\\ run = (\d+)$", res.output, re.M)
            return res, None if res.ok else int(m[-1]) - 1
        finally:
            os.unlink(f.name)
    with ThreadPoolExecutor(core.JOBS) as pool:
        cases = list(pool.map(one, vs))
    res, i = judge(cases)
    s.states += res.distinct
    s.transitions += res.states
    if i is not None:
        again = [one(cases[i]["args"]) for _ in range(3)]
        res2, j = judge(again)
        if j is None:
            raise core.Broken("did not happen again: %r" % cases[i])
        raise Violation(res2.violated, s.replay(dict(kind="cli", violated=res2.violated, args=[CLI_PATHS.get(a, a) for a in again[j]["args"]],
                                                     observed=again[j])))
    s.traces += len(cases)
    s.families["argument vectors"] = __import__("collections").Counter(runs=len(cases), ok=sum(c["code"] == 0 for c in cases))
    s.samples += [dict(family="argument vectors", args=c["args"], code=c["code"]) for c in rng.sample(cases, 3)]
    s.log("argument vectors: %d" % len(cases))


def large(s, tool, work, rng):
    """images of several megabytes"""
    programs = []
    for n in s.scale([24576, 98304, 800000], [24575, 24576, 24577, 49152, 98304, 196608, 196609, 393216, 800000, 1600000]):
        a = rng.randrange(1, n)
        programs.append([("", "MOV R1, R2 @WAIT 2", a), ("l", "BRA l", 1), ("", "FADD R3, R4.reuse, R5 @WB 1", n - a)])

    def observe(text):
        d = tempfile.mkdtemp(dir=work)
        try:
            return tool_record(tool, text, d, "in.sass")
        finally:
            shutil.rmtree(d)
    s.blocks("large images", programs, CODE, through=observe)


def outputs(s, tool, work, rng, texts):
    """the output is a pipe or a link"""
    def one(job):
        kind, text = job
        d = tempfile.mkdtemp(dir=work)
        try:
            with open(os.path.join(d, "in.sass"), "wb") as f:
                f.write(text.encode("latin-1"))
            out = os.path.join(d, "out")
            got = []
            if kind == "link":
                with open(os.path.join(d, "target"), "wb") as f:
                    f.write(b"\xee" * 400000)
                os.symlink("target", out)
            elif kind == "pipe":
                os.mkfifo(out)
                fd = os.open(out, os.O_RDONLY | os.O_NONBLOCK)      # so that neither end waits to be opened
                os.set_blocking(fd, True)
                keep = os.open(out, os.O_WRONLY)

                def drain():
                    while True:
                        data = os.read(fd, 65536)
                        if not data:
                            return
                        got.append(data)
                th = threading.Thread(target=drain, daemon=True)
                th.start()
            code, err, _ = run_tool(tool, ["in.sass", "-o", "out"], d)
            if kind == "pipe":
                os.close(keep)
                th.join()
                os.close(fd)
            data = b"".join(got) if kind == "pipe" else open(out, "rb").read()
            rec = dict(src=text, st="ok", w=[], has=False, ln=0, cl=0, msg="")
            if code == 0:
                if len(data) % 8:
                    rec["st"] = "image of %d bytes" % len(data)
                else:
                    rec["w"] = ["%016X" % x for x in struct.unpack("<%dQ" % (len(data) // 8), data)]
            elif code == 1:
                good, has, ln, cl, msg = core.diagnostic(err, "in.sass")
                rec.update(st="err" if good else "silent", has=has, ln=ln, cl=cl, msg=msg)
                if data != (b"" if kind == "pipe" else b"\xee" * 400000):
                    rec["st"] = "output touched"
            else:
                rec.update(st="exit %d" % code, msg=err[-500:].decode("latin-1"))
            return rec
        finally:
            shutil.rmtree(d)
    jobs = [(kind, t) for kind in ("link", "pipe") for t in rng.sample(texts, s.scale(60, 300)) + ["NOP;" * 6300]]
    with ThreadPoolExecutor(core.JOBS) as pool:
        recs = list(pool.map(one, jobs))
    known = {id(r): j for r, j in zip(recs, jobs)}

    def judge(records, kinds):
        if any(id(r) not in known for r in records):        # judged again: run again
            records = [one(j) for j in [(k, r["src"]) for r in records[:2] for k in ("link", "pipe")]]
        return core.conform(records, kinds)
    s.judge("links and pipes", recs, ALL, dict(variant="plain"), judge=judge)


def faults(s, tool, work, rng):
    """writing fails at every point: the tool must not report success (Cli: Write)"""
    d = tempfile.mkdtemp(dir=work)
    text = b"NOP;\n" * 9000
    with open(os.path.join(d, "p.sass"), "wb") as f:
        f.write(text)
    want = 8 * 12000
    limits = sorted({0, 1, 7, 8, 4095, 4096, 8191, 8192, 16384, 65536, want - 4096, want - 8, want - 1, want, want + 1, want * 2}
                    | {rng.randrange(want) for _ in range(s.scale(10, 60))})
    for limit in limits:
        def pre(limit=limit):
            import resource
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        for tries in range(3):
            out = os.path.join(d, "o.bin")
            if os.path.exists(out):
                os.unlink(out)
            code, err, _ = run_tool(tool, ["p.sass", "-o", "o.bin"], d, preexec_fn=pre)
            size = os.path.getsize(out) if os.path.exists(out) else -1
            good = (code == 0 and size == want) if limit >= want else (code == 1)
            if good:
                break
        else:
            raise Violation("Write", s.replay(dict(kind="cli fault", file_size_limit=limit, code=code, size=size, text_lines=9000)))
    s.families["writes that fail"] = __import__("collections").Counter(runs=len(limits))
    s.traces += len(limits)
    s.log("writes that fail: %d" % len(limits))


# ------------------------------------------------------------------ purity
@prop("C18")
def purity(s):
    import collections
    rng = s.rng("purity")
    kinds = ALL
    texts = [fam.safe_program(s.cat, rng, rng.randrange(1, 12), rng.randrange(0, 4), sched=.5) for _ in range(s.scale(300, 1500))]
    texts += [fam.program(s.cat, rng, rng.randrange(1, 5), rng.randrange(0, 3), reuse=.4) for _ in range(s.scale(500, 2500))]
    texts += ["\n".join(header(rng)) + "\nmain:\n" + fam.safe_program(s.cat, rng, rng.randrange(0, 6), 0) for _ in range(s.scale(100, 500))]
    texts += [s.cat.random_statement(rng, reuse=.3, sched=.5) + ";" for _ in range(s.scale(2500, 10000))]
    texts = list(dict.fromkeys(texts))
    s.texts("alone", texts, kinds)
    s.texts("as released", texts, kinds, variant="release")
    for fill, perturb in (("fill0", "85"), ("fillx", "170")):
        s.texts("memory filled with something else", texts, kinds, variant=fill, env={"MALLOC_PERTURB_": perturb})
    s.mixed("under another name", [(dict(filename=name), rng.sample(texts, s.scale(200, 1000)))
                                   for name in ("another/name", "%d", "x" * 200, "", "P0", ".dksh compute")], kinds)
    s.mixed("in another environment", [(dict(env=env), rng.sample(texts, s.scale(200, 1000))) for env in (
        {"LC_ALL": "C.UTF-8"}, {"LANG": "de_DE.UTF-8", "LC_ALL": "de_DE.UTF-8"}, {"TERM": "dumb", "NO_COLOR": "1", "COLUMNS": "10"},
        {"HOME": "/nonexistent", "PWD": "/", "TZ": "Asia/Tokyo"}, {"NXV_ENVIRONMENT": "1"}, {"NXV_ENVIRONMENT": "/tmp"}, {"NXV_LATER": "1"})], kinds)
    s.mixed("in another locale", [(dict(env=env), rng.sample(texts, s.scale(300, 1500)) + ["NOP;\n\tFADD32I R1, R2, %s;" % x for x in (
        "0.5", "-1.25", "1.", "3.4e38", "1,5", "1.000,5", "340282346638528859811704183484516925440.0", "999999999999999999999999999999999999999999.0")])
        for env in core.locales()], kinds)
    recs = [r for r in s.observe(texts) if r["st"] == "ok"]
    good = [r["src"] for r in recs]
    wrong = [fam.mutate(rng, rng.choice(texts)) for _ in range(s.scale(1500, 8000))]
    wrong += [fam.swap_words(s.cat, rng, rng.choice(texts)) for _ in range(s.scale(1000, 6000))]
    fine = [t for t in good if len(t) < 2000]
    s.mixed("after other calls", [(dict(env={"NXV_BEFORE": str(n)}, before=rng.sample(fine, 60)),
                                   rng.sample(wrong, s.scale(700, 4000)) + rng.sample(texts, s.scale(150, 1000))) for n in (1, 2, 20)], kinds)
    alone = [tuple(r["w"]) for r in recs]
    for variant, threads, rounds, limit in (("plain", 1, s.scale(24, 60), None), ("plain", 8, s.scale(6, 40), None), ("asan", 4, 2, 800),
                                            ("tsan", 4, s.scale(2, 10), s.scale(500, 3000))):
        calls(s, variant, threads, rounds, good[:limit] if variant in ("plain",) else rng.sample(good, min(limit, len(good))),
              dict(zip(good, alone)))


def calls(s, variant, threads, rounds, texts, alone):
    import collections
    program = os.path.join(core.build(variant), "threads")
    work = tempfile.mkdtemp(prefix="nxv-calls-")
    name = "calls: %d threads (%s)" % (threads, variant)
    try:
        src, dst = os.path.join(work, "c"), os.path.join(work, "o")
        with open(src, "wb") as f:
            for t in texts:
                data = t.encode("latin-1")
                f.write(b"%d\n" % len(data) + data)
        given = list(range(1, len(texts) + 1))
        number = {}
        for i, t in enumerate(texts):
            number.setdefault(alone[t], len(number) + 1)
            given[i] = number[alone[t]]

        def one(seed):
            if os.path.exists(dst):
                os.unlink(dst)
            try:
                r = subprocess.run([program, src, dst, str(threads), str(rounds), str(seed)], stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, env={**os.environ, **core.SANITIZER}, timeout=300)
            except subprocess.TimeoutExpired:
                return None, "ran out of time"
            if r.returncode or not os.path.exists(dst):
                return None, "exit %d: %s" % (r.returncode, r.stderr[-1500:].decode(errors="replace"))
            data = open(dst, "rb").read()
            pos, by = 0, collections.defaultdict(list)
            while pos < len(data):
                who, text, n = struct.unpack_from("<3I", data, pos)
                words = tuple("%016X" % x for x in struct.unpack_from("<%dQ" % n, data, pos + 12))
                pos += 12 + 8 * n
                by[who].append([text + 1, number.setdefault(words, len(number) + 1)])
            return [dict(calls=c) for _, c in sorted(by.items())], ""

        def judge(cases):
            a, c = os.path.join(work, "alone.json"), os.path.join(work, "calls.ndjson")
            json.dump(given, open(a, "w"))
            with open(c, "w") as f:
                for x in cases:
                    f.write(json.dumps(x) + "\n")
            return core.tlc("Calls", "SPECIFICATION Spec\nINVARIANT Pure\n", {"ALONE": a, "CASES": c})
        cases, why = one(s.seed)
        res = judge(cases) if cases is not None else None
        if cases is None or not res.ok:
            for k in range(10):                 # again, until it happens again
                again, why2 = one(s.seed + k)
                bad = again is None
                r2 = judge(again) if again is not None else None
                if bad or not r2.ok:
                    m = re.findall(r"^/\\ (who|nth) = (\d+)$", r2.output, re.M) if r2 else []
                    at = dict((a, int(b)) for a, b in m)
                    text = texts[again[at["who"] - 1]["calls"][at["nth"] - 1][0] - 1] if at else None
                    raise Violation("Pure", s.replay(dict(kind="calls", variant=variant, threads=threads, rounds=rounds, why=why2 or why,
                                                          text=text, texts=texts if len(texts) < 4000 else None)))
            raise core.Broken("did not happen again: " + why[:2000])
        n = sum(len(c["calls"]) for c in cases)
        s.states += res.distinct
        s.transitions += res.states
        s.traces += len(cases)
        s.families[name] = collections.Counter(runs=n)
        s.log("%s: %d calls" % (name, n))
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ------------------------------------------------------------- diagnostics
@prop("C19")
def diagnostics(s):
    kinds = ("claim", "crash")
    rng = s.rng("claims")
    s.texts("an operand that does not fit", fam.misses(s.cat, s.rng("misses"), s.scale(3, 40)), kinds)
    s.texts("everything that is almost an operand", fam.almost(s.cat, s.rng("almost"), s.scale(1, 3)), kinds)
    s.texts("each word taken out", itertools.islice(fam.without(s.cat, s.rng("without"), s.scale(1, 10)), 0, None, s.scale(2, 1)), kinds)
    s.texts("numbers at and around the limits", [t + ";" for t in fam.integers(s.cat, s.rng("ints"))][::s.scale(4, 1)], kinds)
    texts = []
    for n in range(s.scale(6000, 60000)):
        f = s.cat.forms[n % len(s.cat.forms)]
        t = s.cat.guard(f, rng, .5) + s.cat.statement(f, rng) + (gen.sched_text(rng) if rng.random() < .3 else "") + ";"
        for _ in range(rng.choice([1, 1, 2])):
            t = fam.swap_words(s.cat, rng, t) if rng.random() < .6 else fam.mutate(rng, t)
        texts.append(t)
    s.texts("words and characters changed", texts, kinds)
    texts = []
    for _ in range(s.scale(2500, 20000)):
        a = "".join(" " + rng.choice(["@WAIT 3", "@WB 1", "@RB 2", "@DEP 1", "@DEP 4", "@Y", "@YIELD", "@WAIT 16", "@WB 6", "@DEP 9", "@RB -1", "@X", "@",
                                      "@WAIT", "@DEP 6", "@DEP 99999999999", "@WAIT 4294967297"]) for _ in range(rng.randrange(1, 6)))
        texts.append(fam.safe(s.cat, rng) + a + ";")
    s.texts("annotations", texts, kinds)
    names = ["a", "main", "loop_1", "x" * 40, "w" * 300, "P2", "R", "Rx", "\xe9t\xe9", "a%s%n", "%d", "a\\b", "0x", "c", "R256", "PT2", "_", "\x1b"]
    texts = []
    for a in names:
        for t in ("BRA %s;", "NOP;\n%s:\nNOP;\n%s:\n", "%s;", "%s R1, R2;", "MOV R1, %s;", "FADD.%s R1, R2, R3;", "S2R R1, %s;", "NOP @%s;", "@%s NOP;",
                  ".%s 1\n", ".type %s\n", ".dksh compute\n%s:\nNOP;\n", ".num_gprs %s\n", "MOV32I R1, %s;", "SSY %s;\n%sx:\n", "LDG R1, [%s];"):
            texts += [t.replace("%s", a), "NOP;\n\t" + t.replace("%s", a)]
    texts += [".dksh compute\n" + "NOP;\n" * k + "main:\nNOP;\n" for k in range(5)]
    texts += [t[:k] + "\0" + t[k:] for t in ("NOP;", "MOV R1, R2;\n", "") for k in range(len(t) + 1)]
    for _ in range(s.scale(2500, 20000)):
        v = rng.choice([gen.interesting(rng, b, True) for b in (8, 16, 19, 20, 24, 31, 32, 33, 48, 62, 63)])
        w = gen.number(rng, v)
        texts.append(rng.choice(["MOV R1, %s;", "MOV32I R1, %s;", "LDG R1, [R2+%s];", "LDG R1, [%s];", "FADD R1, R2, %s;", "FADD32I R1, R2, %s;", "BRA %s;",
                                 "MOV R1, c[%s][4];", "MOV R1, c[1][%s];", "SHL R1, R2, %s;", ".num_gprs %s\n", ".workgroup_size 1 %s 1\n", "DEPBAR.LE SB0, %s;",
                                 "TEX R1, R2, %s, 2D, 0xf;", "NOP @WAIT %s;", "R2P PR, R1, %s;", "ALD R1, a[%s];", "IADD3 R1, R2, %s, R3;"]) % w)
    s.texts("names and numbers", texts, kinds)
    texts = ["%s%s R0, R1, R2, R3, 5, %s, RGBA;" % (a, m, x)
             for a, ms in (("TEXS", itertools.product(["", ".F16"], ["", ".LZ", ".LL"], ["", ".DC"])),
                           ("TLDS", itertools.product([".LZ", ".LL"], ["", ".AOFFI"], ["", ".MS"])))
             for m in map("".join, ms)
             for x in ("1D", "2D", "3D", "CUBE", "ARRAY_1D", "ARRAY_2D", "ARRAY_3D", "ARRAY_CUBE", "1d", "2", "D", "R1", ".2D")]
    s.texts("kinds of texture", texts, kinds)
    s.texts("far targets", ["%s %s;\n%s:\n" % (m, x, "far") for m in ("BRA", "SSY", "PBK", "CAL", "JMP") for v in (1 << 23, 1 << 24, 1 << 31, 1 << 40, (1 << 63) - 8)
                            for x in (str(v), str(-v), str(v + 8), "far", "farther")], kinds)
    s.texts("options", option_texts() + ["\n".join(rng.choice(OPTION_LINES) for _ in range(rng.choice([1, 2, 3]))) + "\nmain:\nNOP;\n"
                                         for _ in range(s.scale(600, 5000))], kinds)
    s.texts("every character everywhere", rng.sample(fam.every_byte(), s.scale(3000, 10000)), kinds)
    s.texts("every character in a label", fam.named(rng, [chr(c) for c in range(1, 256)]), kinds)


# ------------------------------------------------------------------ replay
def replay(s, what):
    if what["kind"] != "text":
        print(json.dumps(what, indent=1)[:4000])
        return PROPERTIES[s.pid].run(s)
    s.texts("replay", [what["text"]], what["kinds"], **what["how"])
