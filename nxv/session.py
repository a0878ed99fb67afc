"""One run of one check: explores, asks the specification, reports."""
import collections, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from . import core

CHUNK = 60000


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


class Session:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.thorough = tier == "thorough"
        self.start = time.time()
        self.families = collections.OrderedDict()
        self.models = []
        self.states = self.transitions = self.traces = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.seen = set()
        self.notes = []
        self.budget = 780 if not self.thorough else 3600
        self._catalogue = None

    # ------------------------------------------------------------ helpers
    def rng(self, name):
        return random.Random("%s/%s/%s" % (self.pid, name, self.seed))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    @property
    def cat(self):
        if self._catalogue is None:
            from . import gen
            self._catalogue = gen.Catalogue()
        return self._catalogue

    def late(self, name):
        if time.time() - self.start > self.budget * .6:
            self.notes.append("left out for lack of time: " + name)
            return True
        return False

    def log(self, text):
        print("[%5.1fs] %s" % (time.time() - self.start, text), flush=True)

    # ------------------------------------------------- the specification
    def model(self, module, config, **kw):
        """A property of the specification alone. It does not depend on /repo, so if it fails the
        check is broken."""
        res = core.tlc(module, config, **kw)
        if not res.ok:
            raise core.Broken("%s: %s is violated\n%s" % (module, res.violated, res.output[-3000:]))
        self.states += res.distinct
        self.transitions += res.states
        self.models.append(dict(module=module, distinct_states=res.distinct, transitions=res.states,
                                seconds=round(res.seconds, 1)))
        self.log("%s: %d states" % (module, res.distinct))

    def written(self, pieces, length):
        """All sequences of up to length pieces, enumerated by TLC from Writer."""
        work = core.tlc("Writer", "SPECIFICATION Spec\nCONSTANTS Kinds = %d\nMaxPieces = %d\nCONSTRAINT Show\n"
                        % (len(pieces), length), workers=1)
        self.states += work.distinct
        self.transitions += work.states
        out = []
        for line in re.findall(r'"DOC (\[[0-9,]*\])"', work.output):
            out.append([pieces[k - 1] for k in json.loads(line)])
        if len(out) != sum(len(pieces) ** k for k in range(length + 1)):
            raise core.Broken("Writer printed %d documents" % len(out))
        return out

    # ---------------------------------------------------------- the code
    def observe(self, texts, variant="plain", cpu=10, filename=core.FILENAME, env=None, before=None):
        mib = 0 if variant in ("asan", "tsan", "msan") else 6144
        obs = core.run_texts(texts, variant, cpu=cpu, mib=mib, filename=filename, env=env, before=before)
        return [dict(o, src=t) for o, t in zip(obs, texts) if o["st"] != "skipped"]

    def texts(self, family, texts, kinds, variant="plain", cpu=10, filename=core.FILENAME, env=None, keep=False):
        """Runs the texts and has the specification judge what came of it."""
        if self.late(family):
            return
        fresh = []
        mark = variant + filename + str(env)
        for t in texts:
            key = hashlib.md5((mark + t).encode("latin-1")).digest()
            if key not in self.seen:
                self.seen.add(key)
                fresh.append(t)
        how = dict(variant=variant, cpu=cpu, filename=filename, env=env)
        for at in range(0, len(fresh), CHUNK):
            self.judge(family, self.observe(fresh[at:at + CHUNK], **how), kinds, how)

    def mixed(self, family, groups, kinds):
        """groups of (how to run them, texts), judged together"""
        if self.late(family):
            return
        recs = []
        for h, texts in groups:
            how = dict(dict(variant="plain", cpu=10, filename=core.FILENAME, env=None), **h)
            recs += [dict(r, how=how) for r in self.observe(texts, **how)]
        self.judge(family, recs, kinds, None)

    def batched(self, family, statements, kinds, per=6, variant="plain", wrap=None):
        """Statements that should be fine, several to a program; those of a program that is
        rejected on their own."""
        if self.late(family):
            return
        wrap = wrap or (lambda ss: "".join(s + ";\n" for s in ss))
        statements = list(dict.fromkeys(statements))
        groups = [statements[i:i + per] for i in range(0, len(statements), per)]
        recs = self.observe([wrap(g) for g in groups], variant)
        index = {wrap(g): g for g in groups}
        whole = recs          # a program that is rejected has to be one that should be
        alone = [s for r in recs if r["st"] != "ok" for s in index[r["src"]]]
        single = self.observe([wrap([s]) for s in alone], variant)
        how = dict(variant=variant, cpu=10, filename=core.FILENAME, env=None)
        every = whole + single
        for at in range(0, len(every), CHUNK):
            self.judge(family, every[at:at + CHUNK], kinds, how, statements=len(statements) if at == 0 else 0)

    def endings(self, family, texts, variant, cpu=30):
        """Only how the runs end: for texts that would take the specification too long."""
        if self.late(family):
            return
        how = dict(variant=variant, cpu=cpu, filename=core.FILENAME, env=None)
        self.judge(family, self.observe(texts, **how), ["crash"], how, judge=lambda r, k: core.endings(r))

    def blocks(self, family, programs, kinds, cpu=60, through=None):
        """programs: lists of (label, statement, repetitions); in a container, the first is its
        header, a dict of options"""
        if self.late(family):
            return

        def head(p):
            return p[0] if isinstance(p[0], dict) else None

        def text(p):
            o = head(p)
            return ((".dksh compute\n.num_gprs %d\n.shared_memory %d\n.local_memory %d\n.workgroup_size %d %d %d\n" % (
                (o["gprs"], o["shared"], o["local"]) + tuple(o["wg"])) if o else "")
                + "".join((lab + ":\n" if lab else "") + (stmt + ";\n") * reps for lab, stmt, reps in p[bool(o):]))
        texts = [text(p) for p in programs]
        how = dict(variant="plain", cpu=cpu, filename=core.FILENAME, env=None)
        by = dict(zip(texts, programs))
        count = sum(c for p in programs for _, _, c in p[bool(head(p)):])

        def judge(records, k):
            return core.conform_blocks([dict(r, o=head(by[r["src"]]), blocks=[
                dict(lab=a, stmt=b, reps=c) for a, b, c in by[r["src"]][bool(head(by[r["src"]])):]])
                                        for r in records], k)
        if through:                             # by other means than the library
            first = [through(t) for t in texts]
            known = set(map(id, first))
            self.judge(family, first, kinds, how, statements=count, again=1, judge=lambda rs, k: judge(
                [r if id(r) in known else through(r["src"]) for r in rs], k))
            return
        self.judge(family, self.observe(texts, **how), kinds, how, statements=count, judge=judge, again=2)

    def long(self, family, statements, kinds, per=1000, before=(), bad=0):
        """Statements far down in long programs: those that are fine on their own, per of them to a
        program, and bad of those that are not, each after some of the others. before: lengths of what
        may stand in front of them."""
        if self.late(family):
            return
        statements = [t for t in dict.fromkeys(statements) if not set(t) & set(";:\n\r\0#")]
        recs = self.observe([t + ";\n" for t in statements])
        fine = [t for t, r in zip(statements, recs) if r["st"] == "ok"]
        wrong = [t for t, r in zip(statements, recs) if r["st"] != "ok"]
        rng = self.rng(family)
        programs = []
        for at in range(0, len(fine), per):
            n = before[len(programs) % len(before)] if before else 0
            programs.append(([("", "NOP", n)] if n else []) + [("", t, 1) for t in fine[at:at + per]])
        for t in rng.sample(wrong, min(bad, len(wrong))):
            n = rng.choice([100, 1000, 3000, 20000])
            programs.append([("", "NOP", n)] + [("", u, 1) for u in rng.sample(fine, min(20, len(fine)))] + [("", t, 1)])
        self.blocks(family, programs, kinds)

    def judge(self, family, records, kinds, how, statements=0, judge=core.conform, again=8):
        if os.environ.get("NXV_DUMP"):          # development only: what was run
            with open(os.path.join(os.environ["NXV_DUMP"], self.pid), "a") as out:
                for r in records:
                    h = r.get("how", how) or {}
                    if len(r["src"]) < 100000 and not h.get("env"):
                        out.write(json.dumps([family, list(kinds), h.get("variant"), r["src"]]) + "\n")
        f = self.families.setdefault(family, collections.Counter())
        f["runs"] += len(records)
        f["statements"] += statements
        for r in records:
            f[r["st"]] += 1
            self.outcomes[r["st"]] += 1
        flaky = 0
        while records:
            res, i = judge(records, kinds)
            self.states += res.distinct
            self.transitions += res.states
            if i is None:
                break
            bad = records[i]
            self.log("%s: %s of %r: %s %s" % (family, res.violated, bad["src"][:200], bad["st"], bad["msg"][:200]))
            how = bad.get("how", how)
            repeated = self.observe([bad["src"]] * again, **how)
            res2, j = judge(repeated, [k for k in kinds if core.KINDS[k] == res.violated])
            if j is not None:
                raise Violation(res.violated, self.replay(
                    dict(kind="text", family=family, violated=res.violated, kinds=list(kinds), text=bad["src"],
                         how=how, observed={k: repeated[j][k] for k in ("st", "w", "has", "ln", "cl", "msg")},
                         specification=[l for l in res2.output.splitlines() if l.startswith("/\\")][-13:])))
            flaky += 1
            self.notes.append("did not happen again: %r" % bad["src"][:300])
            if flaky > 5:
                raise core.Broken("differences that do not repeat")
            records = records[:i] + records[i + 1:]
        self.traces += len(records)
        if records:
            for r in self.rng("samples" + family).sample(records, min(2, len(records))):
                self.samples.append(dict(family=family, text=r["src"][:400], outcome=r["st"],
                                         words=len(r["w"]), message=core.clean(r["msg"])[:120]))
        self.log("%s: %d runs, %s" % (family, len(records), dict(f)))

    def replay(self, content):
        folder = os.path.join(core.VERIF, "out")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, "%s-%s.json" % (
            self.pid, hashlib.md5(json.dumps(content, sort_keys=True).encode()).hexdigest()[:10]))
        content.update(property=self.pid, seed=self.seed, again="python3 check.py %s --replay %s" % (self.pid, path))
        with open(path, "w") as f:
            json.dump(content, f, indent=1)
        return path

    # ------------------------------------------------------------- report
    def evidence(self, violations):
        folder = os.path.join(core.VERIF, "evidence")
        os.makedirs(folder, exist_ok=True)
        coverage = dict(
            states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
            evaluations=sum(f["runs"] for f in self.families.values()),
            distinct_nontrivial=sum(f["runs"] for f in self.families.values()) - self.outcomes["skipped"],
            rule="Every run is a different input (texts are deduplicated) given to the code built from /repo; the "
                 "specification reads the same input and TLC compares every word, address and diagnostic of the run "
                 "with it. Runs by family and outcome are under families.",
            families={k: dict(v) for k, v in self.families.items()},
            outcomes=dict(self.outcomes), specification_runs=self.models, notes=self.notes,
            samples=self.samples[:24])
        with open(os.path.join(folder, self.pid + ".json"), "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=coverage,
                           assumptions=["TLC and the JVM", "gcc, the C++ library and the kernel of this sandbox",
                                        "the specification in /verif/spec says what the instruction set is"],
                           wall_s=round(time.time() - self.start, 1), violations=violations), f, indent=1)
