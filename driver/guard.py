#!/usr/bin/env python3
"""Compiler launcher: puts eight bytes that are no address after every object with static storage, so
that reading past the end of a table is noticed (the sanitizers leave out objects of inline functions).
A program that stays inside its objects does not notice."""
import os, re, subprocess, sys

DATA = re.compile(r"\s*\.(quad|long|value|byte|zero|string|ascii|float|double|2byte|4byte|8byte|octa)\b")


def guarded(lines):
    section = ""
    out, inside = [], False
    label = re.compile(r"^([A-Za-z_$][\w$.]*):")
    objects = set(re.findall(r"^\s*\.type\s+([\w$.]+),\s*@(?:object|gnu_unique_object)", "\n".join(lines), re.M))
    sizes = dict(re.findall(r"^\s*\.size\s+([\w$.]+),\s*([^\n]*)$", "\n".join(lines), re.M))
    for l in lines:
        if inside and not DATA.match(l):
            out.append("\t.quad\t0x4141414141414141")
            inside = False
        m = re.match(r"\s*\.(section\s+(\S+)|data\b|text\b|bss\b)", l)
        if m:
            section = m[2] or m[1]
        m = label.match(l)
        if m and m[1] in objects and section.startswith((".data", ".rodata", "data")) and "cst" not in section \
                and sizes.get(m[1]) and not m[1].startswith(("_ZTV", "_ZTS", "_ZTI", "DW.ref")):
            out.append(l)
            inside = True
            continue
        out.append(l)
    if inside:
        out.append("\t.quad\t0x4141414141414141")
    return out


def main():
    cmd = sys.argv[1:]
    if "-c" not in cmd or "-o" not in cmd:
        sys.exit(subprocess.call(cmd))
    target = cmd[cmd.index("-o") + 1]
    asm = target + ".s"
    code = subprocess.call([("-S" if a == "-c" else asm if a == target else a) for a in cmd])
    if code:
        sys.exit(code)
    with open(asm) as f:
        lines = f.read().split("\n")
    with open(asm, "w") as f:
        f.write("\n".join(guarded(lines)) + "\n")
    if subprocess.call([cmd[0], "-c", asm, "-o", target]):
        sys.exit(subprocess.call(cmd))


main()
