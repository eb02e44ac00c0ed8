#!/usr/bin/env python3
"""Mechanical mutants of /repo, to find out what the checks do not see.

usage: mutants.py list FILE...            the mutants of these files of /repo
       mutants.py run N SEED OUT [FILE..] N random mutants, one after another, results appended to OUT
       mutants.py one OUT ID...           these ones

Works on copies of /repo and /verif under /tmp/mut, bound over the originals in a mount namespace, so that
nothing real is touched; several can run at once with different values of MUT_SLOT (MUT_WORKERS workers each)."""
import os, random, re, shutil, subprocess, sys, time

SLOT = os.environ.get("MUT_SLOT", "0")
BASE = f"/tmp/mut/{SLOT}"
WORKERS = os.environ.get("MUT_WORKERS", "8")
PROC = ["C23", "C09", "C04", "C01", "C07", "C06", "C02", "C03", "C05", "C17", "C08", "C10", "C25"]
MACH = ["C19", "C13", "C14", "C12", "C15", "C18", "C16", "C11"]
CHECKS = [
    (r"src/bin/tobjdump", ["C21", "C17", "C10"]),
    (r"src/aalv|src/bin/(tl|tar|tstrip)", PROC + ["C12", "C15", "C20"]),
    (r"src/bin/tc|src/source", ["C20", "C24"] + PROC),
    (r"src/bin/t\.rs", ["C10", "C18", "C09", "C17", "C16", "C11", "C15", "C20", "C21", "C22"]),
    (r"src/bin/tdbg|src/disassemble", ["C16", "C21", "C17", "C15"]),
    (r"src/mem|src/blf4|src/machine|src/u4|src/lib", MACH + ["C09", "C10", "C20", "C21", "C22"]),
]
IMPL = {d["property"] for d in __import__("json").load(open("/verif/MANIFEST.json"))["checks"]}

SUBS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "), (r" << ", " >> "), (r" >> ", " << "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r" \|= ", " &= "), (r" &= ", " |= "),
    (r"&& ", "|| "), (r"\|\| ", "&& "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"wrapping_add", "wrapping_sub"), (r"wrapping_sub", "wrapping_add"), (r"if !", "if "), (r"\bif (?!let|!)", "if !"), (r"while (?!let|!)", "while !"),
    (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"read_exact\(", "read("), (r"write_all\(", "write("),
    (r"\.rev\(\)", ""), (r"\.\.=", ".."), (r"(?<=[a-z0-9)])\.\.(?=[a-z0-9(])", "..="), (r"\bSome\((\w+)\) =>", r"Some(\1) if false =>"),
    (r"u16", "u8"), (r"i16", "u16"), (r"u16", "i16"), (r"i8\b", "u8"), (r"u8\b", "i8"), (r"from_le_bytes", "from_be_bytes"), (r"to_le_bytes", "to_be_bytes"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"is_empty\(\)", "len() == 1"),
    (r"first", "last"), (r"\blow\b", "high"), (r"_lo\b", "_hi"), (r"_hi\b", "_lo"),
]


def mutants(files):
    out = []
    for f in files:
        lines = open("/repo/" + f).read().split("\n")
        depth_test = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#[cfg(test)]"):
                depth_test = True
            if depth_test or not s or s.startswith(("//", "#", "use ", "mod ", "pub mod", "pub use", "///")):
                continue
            code = l.split("//")[0]
            for k, (pat, rep) in enumerate(SUBS):
                for n, m in enumerate(re.finditer(pat, code)):
                    new = code[: m.start()] + m.expand(rep) + code[m.end():]
                    out.append((f"{f}:{i + 1}:s{k}.{n}", f, i, i + 1, [new]))
            for n, m in enumerate(re.finditer(r"(?<![\w.\"'])(0x[0-9a-fA-F_]+|0b[01_]+|\d+)(?![\w.\"'])", code)):
                v = int(m.group(1).replace("_", ""), 0)
                for d in (v + 1, v - 1) if v > 0 else (v + 1,):
                    out.append((f"{f}:{i + 1}:n{n}.{'p' if d > v else 'm'}", f, i, i + 1, [code[: m.start()] + str(d) + code[m.end():]]))
            if s.endswith(";") and not s.startswith(("let ", "return", "type ", "const ", "static ", "pub ", "}", ")", ".", "fn ")) and s.count("(") == s.count(")"):
                out.append((f"{f}:{i + 1}:del", f, i, i + 1, [""]))
            if s.endswith("?;") and s.count("(") == s.count(")") and "=" not in s and not s.startswith((".", "}", ")")):
                out.append((f"{f}:{i + 1}:ign", f, i, i + 1, ["let _ = " + s[:-2] + ";"]))
            if s.endswith(";") and i + 1 < len(lines) and lines[i + 1].strip().endswith(";") and len(l) - len(l.lstrip()) == len(lines[i + 1]) - len(lines[i + 1].lstrip()) and s != lines[i + 1].strip():
                out.append((f"{f}:{i + 1}:swap", f, i, i + 2, [lines[i + 1], l]))
            if s.endswith(",") and "=>" in s and s.count("{") == s.count("}") and not s.startswith("_"):
                out.append((f"{f}:{i + 1}:arm", f, i, i + 1, [""]))
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def prepare():
    if not os.path.isdir(BASE):
        os.makedirs(BASE)
        sh(f"cp -a /repo {BASE}/repo; rm -rf {BASE}/repo/target; cp -a /verif {BASE}/verif")


def inside(cmd, timeout):
    try:
        return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {BASE}/repo /repo && mount --bind {BASE}/verif /verif && cd /verif && {cmd}"],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def try_one(m, out):
    mid, f, a, b, new = m
    path = f"{BASE}/repo/{f}"
    orig = open("/repo/" + f).read()
    lines = orig.split("\n")
    old = lines[a:b]
    lines[a:b] = new
    open(path, "w").write("\n".join(lines))
    t0 = time.time()
    res = "SURVIVED"
    try:
        r = inside("cd /repo && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_PROFILE_DEV_DEBUG=0 cargo check -q --offline --bins --target-dir /verif/.build/chk 2>&1", 300)
        if r is None or r.returncode != 0:
            res = "nobuild"
        else:
            for pat, cs in CHECKS:
                if re.search(pat, f):
                    break
            for c in cs:
                if c not in IMPL:
                    continue
                r = inside(f"VERIF_SEED=1 VERIF_TIER=quick bash ./check.sh {c} --workers {WORKERS}", 1200)
                if r is None:
                    res = f"timeout {c}"
                    break
                if r.returncode != 0:
                    v = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "class" in l or l.startswith("  ")]
                    res = f"{c} exit {r.returncode} " + (v[1].strip() if len(v) > 1 else r.stdout[-200:].replace("\n", " | "))[:160]
                    break
    finally:
        open(path, "w").write(orig)
    with open(out, "a") as o:
        o.write(f"{mid}\t{time.time() - t0:.0f}s\t{res}\t{' / '.join(x.strip() for x in old)}  ->  {' / '.join(x.strip() for x in new)}\n")


def main():
    a = sys.argv[1:]
    allf = subprocess.run("git ls-files src | grep rs$", shell=True, cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split()
    if a[0] == "list":
        for m in mutants(a[1:] or allf):
            print(m[0], "|", " / ".join(x.strip() for x in m[4]))
        return
    prepare()
    if a[0] == "run":
        n, seed, out, files = int(a[1]), int(a[2]), a[3], a[4:] or allf
        ms = mutants(files)
        random.Random(seed).shuffle(ms)
        done = {l.split("\t")[0] for l in open(out)} if os.path.exists(out) else set()
        for m in ms[:n]:
            if m[0] not in done:
                try_one(m, out)
    else:
        want = set(a[2:])
        for m in mutants(allf):
            if m[0] in want:
                try_one(m, a[1])


main()
