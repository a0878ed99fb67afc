#!/usr/bin/env python3
"""Development only: tries planted bugs in a scratch copy of /repo.

  plant.py ID...            builds, tests and demonstrates each, with and without the patch
  plant.py --check ID...    also runs the check of its property against the patched copy
  plant.py --check=C01,C02  or these checks
"""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def build(repo):
    b = os.path.join(repo, "_build")
    if not os.path.exists(os.path.join(b, "build.ninja")):
        r = sh(["cmake", "-S", repo, "-B", b, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g"])
        if r.returncode:
            return r
    return sh(["ninja", "-C", b])


def demo(repo, folder):
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        for n in os.listdir(folder):
            if not n.endswith((".diff", ".patch")) and n != "meta.json":
                shutil.copy(os.path.join(folder, n), d)
        # the copy lies elsewhere: the demo has to work from its working directory
        return sh(["bash", os.path.join(d, "demo.sh")], cwd=repo, timeout=300)
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    checks = None
    if args and args[0].startswith("--check"):
        checks = args[0][8:].split(",") if "=" in args[0] else []
        args = args[1:]
    top = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(top, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("_build"))
        sh(["git", "checkout", "--", "."], cwd=repo)
        if build(repo).returncode:
            sys.exit("does not build")
        for i in args or sorted(os.listdir(SEEDED)):
            folder = os.path.join(SEEDED, i)
            meta = json.load(open(os.path.join(folder, "meta.json")))
            before = demo(repo, folder)
            r = sh(["git", "apply", os.path.join(folder, "patch.diff")], cwd=repo)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stdout.decode())
                continue
            b = build(repo)
            t = sh(["ctest", "--test-dir", os.path.join(repo, "_build"), "-j8"]) if b.returncode == 0 else b
            after = demo(repo, folder) if b.returncode == 0 else b
            good = before.returncode == 0 and b.returncode == 0 and t.returncode == 0 and after.returncode != 0
            out = ["%s %s" % (i, "ok" if good else "NOT GOOD: demo before %d build %d tests %d demo after %d\n%s" % (
                before.returncode, b.returncode, t.returncode, after.returncode, (before.stdout + b.stdout[-1500:] if b.returncode else before.stdout).decode(errors="replace")[-2500:]))]
            if good and checks is not None:
                for c in checks or [meta["property"]]:
                    env = dict(os.environ, NXV_REPO=repo, NXV_BUILD=os.path.join(top, "vb"))
                    k = sh([sys.executable, os.path.join(VERIF, "check.py"), c], env=env, cwd=VERIF)
                    text = k.stdout.decode(errors="replace")
                    out.append("  %s exit %d %s" % (c, k.returncode, [l for l in text.splitlines() if l][-3:-1] if k.returncode else "MISSED"))
            print("\n".join(out), flush=True)
            sh(["git", "checkout", "--", "."], cwd=repo)
            build(repo)
    finally:
        shutil.rmtree(top, ignore_errors=True)


main()
