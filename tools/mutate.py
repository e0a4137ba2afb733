#!/usr/bin/env python3
"""Mutation campaign: tools/mutate.py OUTFILE WORKERS [file-substring ...]

Makes small source mutants in scratch copies of /repo, keeps those that build
and pass the repository's tests, and runs the checks of that area in a scratch
copy of /verif.  Appends one JSON line per mutant to OUTFILE.  Not a check."""
import json, os, re, shutil, subprocess, sys, hashlib, random
from concurrent.futures import ThreadPoolExecutor
import threading, queue

CHECKS = {
    "arithmetic/linear_algebra.rs": "C01 C02 C03 C04 C51 C54 C55",
    "arithmetic/matrices.rs": "C05 C48 C01 C02 C03",
    "arithmetic/geometry.rs": "C08 C09 C10 C11 C48 C53 C55",
    "arithmetic/modular_solver.rs": "C06 C07 C18 C55",
    "partitions.rs": "C16 C52",
    "pgraphs.rs": "C17 C18 C19 C20 C21 C22 C23 C24 C47 C49 C25 C26 C27 C52",
    "symmetries.rs": "C26 C25 C27 C28 C29",
    "spacegroups/basics.rs": "C30 C31 C32 C33",
    "spacegroups/finder.rs": "C40 C41",
    "spacegroups/lattices.rs": "C12 C13 C14 C15 C50",
    "spacegroups/parse_operator.rs": "C34 C35",
    "spacegroups/parse_table.rs": "C36 C37 C38 C39",
    "spacegroups/types.rs": "C36 C38 C12 C40",
    "io/parse_cgd_line.rs": "C42 C43",
    "io/parse_cgd_blocks.rs": "C44 C45 C46",
}

RULES = [
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " += "), (r" /= ", " *= "),
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" < ", " > "), (r" > ", " < "),
    (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"&&$", "||"), (r"\|\|$", "&&"),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b3\b", "2"), (r"\b4\b", "3"),
    (r"\b9\b", "10"), (r"\b6\b", "4"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.\.=", ".."), (r"(?<=[\w\)])\.\.(?=[\w\(])", "..="),
    (r"if !", "if "), (r"\bif (?=[a-z(&])", "if !"),
    (r"\.abs\(\)", ""), (r"\.transpose\(\)", ""), (r"\.mod_z\(\)", ".clone()"),
    (r"\.canonical\(\)", ".clone()"), (r"\.to_lowercase\(\)", ".to_string()"),
    (r"\.round\(\)", ".floor()"), (r"\.floor\(\)", ".round()"),
    (r"\.skip\(1\)", ""), (r"\.sqrt\(\)", ""), (r"\.ln\(\)", ""), (r"\.trim\(\)", ""),
    (r"\bany\(", "all("), (r"\ball\(", "any("),
    (r"is_positive", "is_negative"), (r"is_negative", "is_positive"),
    (r"is_zero\(\)", "is_one()"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"max_by", "min_by"),
    (r"space0", "space1"), (r"space1", "space0"), (r"many0", "many1"), (r"separated_list0", "separated_list1"),
    (r"(?<![\w.])-(?=[&\w(])", ""), (r"neg\(&?(\w+)\)", r"\1.to_vec()"),
    (r"push_back", "push_front"), (r"\bhead\b", "tail"), (r"\btail\b", "head"),
    (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\brow\b", "col"), (r"nrows", "ncols"), (r"ncols", "nrows"),
    (r"\blft\b", "rgt"), (r"\brgt\b", "lft"), (r"\brhs\b", "self"), (r"\bself\b", "rhs"),
    (r"\bx\b", "y"), (r"\by\b", "z"), (r"\bz\b", "x"), (r"\bu\b", "v"), (r"\bv\b", "u"), (r"\bw\b", "v"),
    (r"\bia\b", "ib"), (r"\bja\b", "jb"), (r"forward", "backward"), (r"backward", "forward"),
    (r"this_shell", "last_shell"), (r"last_shell", "this_shell"),
]

def region(text):
    """Lines that are neither tests, hooks, nor use declarations."""
    out, skip = [], False
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("#[cfg(test)]") or l.startswith("#[test]") or l.startswith("mod test"):
            break
        if l.startswith("#[cfg(systre_verif)]"):
            while lines[i] != "}":
                i += 1
            i += 1
            continue
        s = l.strip()
        if s and not s.startswith(("use ", "//", "#", "for <'a>", "where", "impl", "pub trait", "T:", "type ")) \
                and "->" not in s.split("|")[0]:
            out.append(i)
        i += 1
    return lines, out

def mutants(path):
    lines, idx = region(open("/repo/src/" + path).read())
    seen = set()
    for i in idx:
        l = lines[i]
        # unfinished and unreachable code
        if path.endswith("finder.rs") and (156 <= i <= 181 or 242 <= i <= 362 or 92 <= i <= 97):
            continue
        for pat, rep in RULES:
            for m in re.finditer(pat, l):
                new = l[:m.start()] + m.expand(rep) + l[m.end():]
                if (i, new) not in seen and new != l:
                    seen.add((i, new)); yield i, new
        # statement deletion
        s = l.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "break", "continue", "}", "assert")) and "todo!" not in s:
            if s.count("(") == s.count(")"):
                yield i, "// deleted"
        if s in ("continue;", "break;"):
            yield i, "// deleted"
        if s.startswith("assert") and s.endswith(";"):
            yield i, "// deleted"
        if s == "} else {" :
            yield i, "} if true {"

def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.Popen(["prlimit", "--as=12000000000", "bash", "-c", cmd], cwd=cwd, env=e,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace")
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        try:
            p.communicate(timeout=20)
        except Exception:
            pass
        return 124, ""

def setup(n):
    w = f"/tmp/mut/w{n}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/verif")
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    for f in ("harness", "check", "known_findings.txt"):
        subprocess.run(["cp", "-a", "/verif/" + f, w + "/verif/"], check=True)
    os.makedirs(w + "/verif/evidence"); os.makedirs(w + "/verif/replays")
    subprocess.run(f"grep -rlE '/repo|/verif' {w}/verif/harness {w}/verif/check | "
                   f"xargs sed -i -E 's#(^|[^a-z0-9/])/(repo|verif)\\b#\\1{w}/\\2#g'", shell=True, check=True)
    sh("./check --build", w + "/verif", 900)
    return w

def run(w, path, i, new):
    src = f"{w}/repo/src/{path}"
    orig = open("/repo/src/" + path).read()
    lines = orig.split("\n")
    rec = {"file": path, "line": i + 1, "old": lines[i].strip(), "new": new.strip()}
    lines[i] = new
    open(src, "w").write("\n".join(lines))
    try:
        rc, out = sh("cargo test --offline --no-run 2>&1", w + "/repo", 300)
        if rc:
            rec["result"] = "no build"; return rec
        rc, out = sh("cargo test --offline --lib --bins -- --test-threads 4 2>&1", w + "/repo", 90)
        if rc:
            rec["result"] = "tests" if rc != 124 else "tests hang"; return rec
        for c in CHECKS[path].split():
            rc, out = sh("./check " + c, w + "/verif", 240)
            if rc == 1 and "VIOLATION" in out:
                rec["result"] = "caught"; rec["by"] = c; return rec
            if rc:
                rec.setdefault("odd", []).append([c, rc, out[-300:]])
        rec["result"] = "SURVIVED"
        return rec
    finally:
        open(src, "w").write(orig)

def main():
    outf, workers, subs = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            r = json.loads(l); done.add((r["file"], r["line"], r["old"], r["new"]))
    jobs = []
    for path in CHECKS:
        if subs and not any(s in path for s in subs):
            continue
        src = open("/repo/src/" + path).read().split("\n")
        for i, new in mutants(path):
            if (path, i + 1, src[i].strip(), new.strip()) not in done:
                jobs.append((path, i, new))
    random.Random(7).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    q = queue.Queue()
    for j in jobs: q.put(j)
    lock = threading.Lock()
    def work(n):
        w = setup(n)
        while True:
            try: j = q.get_nowait()
            except queue.Empty: return
            r = run(w, *j)
            with lock:
                open(outf, "a").write(json.dumps(r) + "\n")
    ts = [threading.Thread(target=work, args=(n,)) for n in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()

if __name__ == "__main__":
    main()
