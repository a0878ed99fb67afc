"""Building /repo, running texts through it, and asking TLC about what came of it."""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NXV_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("NXV_BUILD", os.path.join(VERIF, ".build"))
JOBS = 8
FILENAME = "in.sass"

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The check itself can't give an answer."""


# ---------------------------------------------------------------- building
VARIANTS = {
    # the project's own build: asserts on
    "plain": dict(cxx="g++", flags="-O1 -g"),
    "release": dict(cxx="g++", flags="-O2 -DNDEBUG"),
    "asan": dict(cxx="g++", flags="-O1 -g -fsanitize=address,undefined,float-cast-overflow "
                 "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"),
    # what is not initialised is filled with something else
    "fill0": dict(cxx="g++", flags="-O1 -ftrivial-auto-var-init=zero"),
    "fillx": dict(cxx="g++", flags="-O1 -ftrivial-auto-var-init=pattern"),
    # what lies behind a table is no address
    "guarded": dict(cxx="g++", flags="-O1 -fno-toplevel-reorder -fno-section-anchors",
                    cmake=["-DCMAKE_CXX_COMPILER_LAUNCHER=python3;" + os.path.join(VERIF, "driver", "guard.py")]),
    "tsan": dict(cxx="g++", flags="-O1 -g -fsanitize=thread"),
}


def repo_hash():
    h = hashlib.sha256()
    for top in ("CMakeLists.txt", "include", "src", "tests"):
        path = os.path.join(REPO, top)
        files = [path] if os.path.isfile(path) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(path) for f in fs)
        for name in files:
            h.update(name.encode() + b"\0")
            with open(name, "rb") as f:
                h.update(f.read() + b"\0")
    for name in sorted(os.listdir(os.path.join(VERIF, "driver"))):
        with open(os.path.join(VERIF, "driver", name), "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise Broken("%s failed:\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


def build(variant="plain"):
    """Builds the library, the tool and the driver; returns their folder."""
    v = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    stamp = os.path.join(out, "stamp")
    want = repo_hash() + json.dumps(v)
    if os.path.exists(stamp) and open(stamp).read() == want:
        return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    sh(["cmake", "-S", REPO, "-B", out, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=" + v["cxx"],
        "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=" + v["flags"]] + v.get("cmake", []))
    sh(["ninja", "-C", out, "nxas_lib", "nxas"])
    lib = [os.path.join(d, f) for d, _, fs in os.walk(out) for f in fs if f == "libnxas_lib.a"]
    for program in ("driver", "threads", "effort", "rest"):
        source = os.path.join(VERIF, "driver", program + ".cpp")
        if os.path.exists(source):
            sh([v["cxx"], "-std=c++20", "-pthread"] + v["flags"].split()
               + ["-I" + os.path.join(REPO, "include"), source] + lib
               + ["-o", os.path.join(out, program)])
    with open(stamp, "w") as f:
        f.write(want)
    return out


def tool(variant="plain"):
    out = build(variant)
    for d, _, fs in os.walk(out):
        if "nxas" in fs and os.access(os.path.join(d, "nxas"), os.X_OK):
            return os.path.join(d, "nxas")
    raise Broken("no nxas in " + out)


def locales():
    """the environments of programs that have chosen a locale: another decimal point, other letters"""
    where = os.path.join(BUILD, "locales")
    os.makedirs(where, exist_ok=True)
    out = []
    for name, charset in (("de_DE", "UTF-8"), ("de_DE", "ISO-8859-1"), ("tr_TR", "ISO-8859-9"), ("fa_IR", "UTF-8"), ("ja_JP", "EUC-JP")):
        path = os.path.join(where, "%s.%s" % (name, charset))
        if not os.path.isdir(path) and shutil.which("localedef"):
            subprocess.run(["localedef", "-i", name, "-f", charset, "--no-archive", path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.isdir(path):
            out.append({"LOCPATH": where, "NXV_LOCALE": os.path.basename(path)})
    return out


# ---------------------------------------------------------------- running
ANSI = re.compile(rb"\x1b\[[0-9;]*m")
SANITIZER = {"ASAN_OPTIONS": "exitcode=66:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
             "UBSAN_OPTIONS": "exitcode=66:halt_on_error=1:print_stacktrace=1",
             "TSAN_OPTIONS": "exitcode=66:halt_on_error=1"}


def diagnostic(err, filename=FILENAME):
    """(is one, has a place, line, column, message) of what an error exit wrote."""
    text = ANSI.sub(b"", err)
    m = re.match(re.escape(filename.encode()) + rb":(\d+):(\d+): error: (.+)", text)
    if m:
        return True, True, int(m[1]), int(m[2]), m[3].decode("latin-1")
    m = re.match(rb"(?:[^\n]*?: )?error: (.+)", text)
    if m:
        return True, False, 0, 0, m[1].decode("latin-1")
    return False, False, 0, 0, text[:300].decode("latin-1")


def clean(message):
    return ANSI.sub(b"", message.encode("latin-1", "replace")).decode("latin-1")


def run_texts(texts, variant="plain", cpu=20, mib=0, jobs=JOBS, filename=FILENAME, env=None, before=None):
    """Texts are str, one character a byte. Returns one record per text. before: programs of which
    some (NXV_BEFORE of the environment) are assembled before each of them in the same process"""
    if not texts:
        return []
    program = os.path.join(build(variant), "driver")
    work = tempfile.mkdtemp(prefix="nxv-run-")
    try:
        jobs = max(1, min(jobs, len(texts)))
        parts = [list(range(j, len(texts), jobs)) for j in range(jobs)]

        def save(path, some):
            with open(path, "wb") as f:
                for t in some:
                    data = t.encode("latin-1")
                    f.write(b"%d\n" % len(data) + data)
        if before:
            save(os.path.join(work, "before"), before)
            env = {**(env or {}), "NXV_BEFORE_FILE": os.path.join(work, "before")}

        def one(j):
            src, dst = os.path.join(work, "c%d" % j), os.path.join(work, "o%d" % j)
            save(src, [texts[i] for i in parts[j]])
            r = subprocess.run([program, src, dst, str(cpu), str(mib), filename],
                               env={**os.environ, **SANITIZER, **(env or {})}, stderr=subprocess.PIPE)
            if r.returncode:
                raise Broken("the driver failed: %r" % r.stderr[-500:])
            return parse(open(dst, "rb").read(), parts[j], filename)

        results = [None] * len(texts)
        with ThreadPoolExecutor(jobs) as pool:
            for part in pool.map(one, range(jobs)):
                for i, r in part:
                    results[i] = r
        return results
    finally:
        shutil.rmtree(work, ignore_errors=True)


def parse(data, indices, filename=FILENAME):
    pos, out = 0, []

    def u32():
        nonlocal pos
        v, = struct.unpack_from("<I", data, pos)
        pos += 4
        return v
    for i in indices:
        kind, detail, n = u32(), u32(), u32()
        words = struct.unpack_from("<%dQ" % n, data, pos)
        pos += 8 * n
        length = u32()
        err = data[pos:pos + length]
        pos += length
        rec = dict(st="ok", w=["%016X" % x for x in words], has=False, ln=0, cl=0)
        if kind == 0:
            rec["msg"] = ""
        elif kind == 1:
            good, has, ln, cl, msg = diagnostic(err, filename)
            rec.update(st="err" if good else "silent", has=has, ln=min(ln, 2**30),
                       cl=min(cl, 2**30), msg=msg)
        else:
            rec.update(st={2: "exit %d" % detail, 3: "signal %d" % detail, 4: "hang", 5: "skipped"}[kind],
                       msg=err[-1500:].decode("latin-1"))
        out.append((i, rec))
    return out


# ---------------------------------------------------------------- TLC
def java():
    for c in ("java", "/usr/bin/java"):
        if shutil.which(c):
            return c
    raise Broken("no java")


class TlcResult:
    def __init__(self, ok, violated, output, states, distinct, seconds):
        self.ok, self.violated, self.output = ok, violated, output
        self.states, self.distinct, self.seconds = states, distinct, seconds


def tlc(module, config, env=None, workers=JOBS, timeout=800, heap="8g", extra=(), spec_dir=SPEC):
    """config: the text of the .cfg. A violated invariant, property or assumption is an answer;
    anything else that is not a clean end is Broken."""
    work = tempfile.mkdtemp(prefix="nxv-tlc-")
    try:
        cfg = os.path.join(work, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(config)
        cmd = [java(), "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC",
               "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-checkpoint", "0",
               "-metadir", os.path.join(work, "meta"), "-config", cfg] + list(extra) + [module + ".tla"]
        start = time.time()
        try:
            r = subprocess.run(cmd, cwd=spec_dir, env={**os.environ, **(env or {})},
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC ran out of time on " + module)
        out = r.stdout.decode(errors="replace")
        m = re.findall(r"(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct states found", out)
        states, distinct = [int(x.replace(",", "")) for x in m[-1]] if m else (0, 0)
        v = re.search(r"Error: Invariant (\w+) is violated", out) or \
            re.search(r"Error: Action property (\w+).* is violated", out) or \
            re.search(r"Error: Temporal properties were (violated)", out)
        if r.returncode == 0 and "No error has been found" in out:
            return TlcResult(True, None, out, states, distinct, time.time() - start)
        if v:
            return TlcResult(False, v[1], out, states, distinct, time.time() - start)
        raise Broken("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, out[-3000:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


KINDS = {"insn": "InsnOk", "slot": "SlotOk", "pad": "PadOk", "size": "SizeOk", "head": "HeadOk",
         "accept": "AcceptOk", "reject": "RejectOk", "loc": "LocOk", "claim": "ClaimOk", "crash": "CrashOk"}


TOKENS = ("nothing", "identifier", "register", "predicate", "immediate", "floating-point immediate", "plus", "minus", "tilde", "vertical bar",
          "squared bracket left", "squared bracket right", "at", "semicolon", "comma")


def claims(msg):
    """What a diagnostic says about the text, for Claims. Words that are not understood say nothing."""
    def c(k, *a):
        return dict(k=k, a=list(a))

    def span(a, b):
        """what would be accepted is from a to b"""
        a, b = int(a), int(b)
        out = [c("outside", *(str(x) for x in (a - 1, b + 1) if -2 ** 63 <= x < 2 ** 63))]
        for v, d in ((a, 1), (b, -1)):
            out.append(c("some", *(str(v + d * k) for k in (0, 1, 3, 7, 15) if a <= v + d * k <= b)))
        return out
    m = re.match(r"literal (.*) doesn't fit in 64 bits$|failed to parse literal (.*)$|invalid register index (.*)$"
                 r"|register index (.*) is out of range|unexpected test (.*)$|invalid system register (.*)$", msg, re.S)
    if m:
        return [c("quote", next(x for x in m.groups() if x is not None))]
    m = re.match(r"integer (.*) is out of range, expected to be from (-?\d+) to (-?\d+) inclusively$", msg, re.S)
    if m:
        return [c("value", m[1])] + span(m[2], m[3])
    m = re.match(r"integer immediate (.*) cannot be represented as float$", msg, re.S)
    if m:
        return [c("value", m[1])]
    m = re.match(r"unknown mnemonic (.*)$", msg, re.S)
    if m:
        return [c("quote", m[1]), c("mnemonic")]
    m = re.match(r"unknown option (.*)$", msg, re.S)
    if m:
        return [c("quote", m[1]), c("option")]
    m = re.match(r"invalid program type (.*)$", msg, re.S)
    if m:
        return [c("quote", m[1]), c("type")]
    m = re.match(r"label (.*) not defined$", msg, re.S)
    if m:
        return [c("quote", m[1]), c("label", m[1])]
    if msg in ("label not defined", "label is not defined"):
        return [c("label", "")]
    m = re.match(r"label (.*) already defined$", msg, re.S)
    if m:
        return [c("twice", m[1])]
    m = re.match(r'entrypoint "(.*)" not found$', msg, re.S)
    if m:
        return [c("entry", m[1])]
    if msg == "entrypoint is not aligned":
        return [c("bundle")]
    if msg.endswith("null character in source"):
        return [c("nul")]
    m = re.match(r"(.*) does not support predicated execution$", msg, re.S)
    if m:
        return [c("quote", m[1]), c("guarded")]
    m = re.match(r"offset has to be aligned to (\d+) bytes$", msg)
    if m:
        n = int(m[1])
        return [c("aligned", str(n.bit_length() - 1)), c("outside", str(n // 2)), c("some", "0", str(n))]
    m = re.match(r"immediate constant buffer access has to be aligned to (\d+) bytes$", msg)
    if m:
        return [c("cbuf", str(int(m[1]).bit_length() - 1), str(int(m[1]) // 2), m[1])]
    m = re.match(r"(.*) must be between (-?\d+) and (-?\d+) inclusively$", msg)
    if m:                                   # a dependency may be there already
        return span(m[2], m[3])[:1 if m[1].startswith("dependency") else None]
    m = re.match(r"dependency barrier index (.*) already specified$", msg, re.S)
    if m:
        return [c("value", m[1]), c("before", "DEP")]
    m = re.match(r"(.*) already specified$", msg)
    if m:
        word = {"write barrier": ["WB"], "read barrier": ["RB"], "yield": ["Y", "YIELD"], "clocks to stall are": ["WAIT"]}.get(m[1])
        return [c("quote", w) for w in word or [] if len(word) == 1] + [c("before", *word)] if word else []
    m = re.match(r"label out of range$", msg)
    if m:
        return [c("far")]
    m = re.match(r"(\S+) can't be used with the other modifiers$", msg)
    if m:
        return [c("quote", m[1]), c("stands", m[1])]
    m = re.match(r"(.*) (?:has no|cannot be|and (?=.*can't)|can't be used (?:in|with)|is only valid with|can only have the default lod or|is illegal)(.*)$", msg)
    if m:                                   # settings that exclude one another
        names = r"\b(1D|2D|3D|ARRAY_2D|CUBE|LL|LZ|DC|MS|AOFFI)\b"
        only = "only" in msg
        there = re.findall(names, m[1]) + ([] if only else re.findall(names, m[2]))
        return ([c("stands", *there)] if there else []) + ([c("other", *re.findall(names, m[2]))] if only and "no-" not in msg else [])
    fixed = {"expected constant buffer": [c("words", "c")], "expected mnemonic": [c("words", "NOP")], "expected label": [c("words", "0")],
             "expected floating-point literal, QNAN, or INF": [c("words", "QNAN", "INF")],
             "expected @WAIT, @WB, @RB, @DEP, or @YIELD/@Y": [c("some", w) for w in ("DEP",)],
             "predicate can't be negated": [c("negated")], "operand is already negated": [c("found", "minus")], "register cannot be reused": [c("quote", ".reuse")],
             "unexpected new line in option": [c("line")]}
    if msg in fixed:
        return fixed[msg]
    m = re.match(r"expected (%s) and got (%s) (.*)$" % ("|".join(TOKENS), "|".join(TOKENS)), msg, re.S) or \
        re.match(r"expected (%s)()()$" % "|".join(TOKENS), msg)
    if m:
        out = [c("wanted", m[1])]
        if m[2]:
            out.append(c("found", m[2]))
        if m[2] == "identifier":
            out.append(c("quote", m[3]))
        return out
    if msg.startswith("expected "):
        words = [w.strip("'") for w in re.split(r",? or |, ", msg[9:])]
        if all(re.fullmatch(r"\.?[A-Z0-9_]+|a", w) for w in words):
            # which kind of texture would do depends on the modifiers before
            return [c("types" if words[0] == "1D" else "words", *words)]
    return []


def endings(records):
    """As conform, but the specification does not read the texts."""
    return conform([dict(r, src="", w=[]) for r in records], ["crash"], spec="Ending")


def conform(records, kinds, timeout=800, spec="Spec"):
    """records: dicts with src and the fields of run_texts. Returns (TlcResult, index or None)."""
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
        for r in records:
            f.write(json.dumps(dict({k: r[k] for k in ("src", "st", "w", "has", "ln", "cl")},
                                    claims=claims(r["msg"]) if "claim" in kinds and r["st"] == "err" else [])) + "\n")
    try:
        cfg = "SPECIFICATION %s\nVIEW View\nINVARIANTS NoClash %s\n" % (spec, " ".join(KINDS[k] for k in kinds))
        res = tlc("Conform", cfg, {"CASES": f.name}, timeout=timeout)
        if res.ok:
            return res, None
        if res.violated == "NoClash":
            raise Broken("the specification wrote a bit twice:\n" + res.output[-3000:])
        m = re.findall(r"^/\\ run = (\d+)$", res.output, re.M)
        return res, int(m[-1]) - 1
    finally:
        os.unlink(f.name)


def effort(text, limit=60):
    """what a text takes: (ended, thousands of instructions, KiB)"""
    program = os.path.join(build("plain"), "effort")
    work = tempfile.mkdtemp(prefix="nxv-effort-")
    try:
        src, dst = os.path.join(work, "t"), os.path.join(work, "o")
        with open(src, "wb") as f:
            f.write(text.encode("latin-1"))
        try:
            r = subprocess.run(["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", "--main-stacksize=8388608",
                                program, src, dst], cwd=work, timeout=limit, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            return dict(ended=False, work=0, space=0)
        m = re.search(rb"Collected : (\d+)", r.stderr)
        if not m or not os.path.exists(dst):
            if r.returncode in (0, 1) or b"Callgrind" not in r.stderr:
                raise Broken("valgrind failed: %r" % r.stderr[-1000:])
            return dict(ended=False, work=0, space=0)
        return dict(ended=r.returncode in (0, 1), work=min(int(m[1]) // 1000, 2 ** 29), space=min(int(open(dst).read()), 2 ** 29))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def rest(texts, rounds=8, limit=300):
    """what is in use after each of some rounds of assembling the texts"""
    program = os.path.join(build("plain"), "rest")
    work = tempfile.mkdtemp(prefix="nxv-rest-")
    try:
        src, dst = os.path.join(work, "t"), os.path.join(work, "o")
        with open(src, "wb") as f:
            for t in texts:
                b = t.encode("latin-1")
                f.write(b"%d\n" % len(b) + b)
        try:
            r = subprocess.run([program, src, dst, str(rounds)], cwd=work, timeout=limit, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return dict(ended=False, m=[])
        if r.returncode == 2:
            raise Broken("rest failed")
        if r.returncode:
            return dict(ended=False, m=[])
        return dict(ended=True, m=[dict(zip(("memory", "files"), map(int, l.split()))) for l in open(dst)])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def runs_of(words):
    out = []
    for w in words:
        if out and out[-1]["w"] == w:
            out[-1]["n"] += 1
        else:
            out.append(dict(w=w, n=1))
    return out


BLOCK_KINDS = ("insn", "slot", "pad", "size", "head", "accept", "reject", "loc")


def conform_blocks(records, kinds, timeout=800):
    """records: dicts with blocks and the fields of run_texts."""
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
        for r in records:
            o = r.get("o")
            dksh = bool(o) or any(".dksh" in b["stmt"] for b in r["blocks"])
            head, w = (r["w"][:32], r["w"][32:]) if dksh else ([], r["w"])
            if len(head) < 32:
                head = head + [""] * (32 - len(head))
            f.write(json.dumps(dict(blocks=[dict(b, extra=b["stmt"].count("\n")) for b in r["blocks"]], header=bool(o), st=r["st"], has=r["has"], ln=r["ln"], cl=r["cl"], total=len(w), cw=runs_of(w[::4]), dksh=dksh, head=head,
                                    o=o or {}, iw=runs_of([x for i, x in enumerate(w) if i % 4]))) + "\n")
    try:
        cfg = "SPECIFICATION Spec\nVIEW View\nINVARIANTS %s\n" % " ".join(
            KINDS[k] for k in kinds if k in BLOCK_KINDS)
        res = tlc("Blocks", cfg, {"CASES": f.name}, timeout=timeout)
        if res.ok:
            return res, None
        m = re.findall(r"^/\\ run = (\d+)$", res.output, re.M)
        return res, int(m[-1]) - 1
    finally:
        os.unlink(f.name)


def catalogue():
    """The instruction forms, exported by TLC from the specification."""
    h = hashlib.sha256()
    for m in ("Words", "Descriptors", "IsaTable", "Export"):
        h.update(open(os.path.join(SPEC, m + ".tla"), "rb").read())
    path = os.path.join(BUILD, "forms-%s.json" % h.hexdigest()[:16])
    if not os.path.exists(path):
        os.makedirs(BUILD, exist_ok=True)
        tmp = path + ".%d" % os.getpid()
        tlc("Export", "INIT Init\nNEXT Next\n", {"OUT": tmp}, workers=1)
        os.replace(tmp, path)
    return json.load(open(path))
