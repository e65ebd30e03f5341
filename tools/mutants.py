#!/usr/bin/env python3
"""Looks for gaps: mutates /repo's code in scratch copies and lists what neither the tests nor the checks notice.

    mutants.py OUT.jsonl WORKERS SEED COUNT [FILE-REGEX]

Each worker has its own copy of /repo and of the harness under /tmp/mut.  A mutant is built into the harness and
checked by the properties that concern its file, a part of the quick tier first; those that survive are built
and run against the crate's own tests, and those that survive these too are reported as gaps.
"""
import glob, json, os, random, re, subprocess, sys, threading, time

OUT, NW, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
PAT = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
BASE = "/tmp/mut"
CORE = ["C01", "C02", "C03", "C04", "C05", "C07", "C09", "C10", "C11", "C12", "C08", "C06"]
MAP = [
    (r"core/src/(parser|lexer|reader|ast)\.rs", ["C06", "C10", "C07", "C01", "C02", "C03", "C04", "S04", "C05", "C12"]),
    (r"core/src/(compiler|vm)/", CORE),
    (r"core/src/(callable|bytecode|mem|num|image|lib)\.rs", CORE),
    (r"std/src/(arrays|numerics|strings)\.rs", ["S02", "S01"]),
    (r"std/src/datetime\.rs", ["S09"]),
    (r"std/src/sound/", ["S09"]),
    (r"std/src/data\.rs", ["S04"]),
    (r"std/src/(exec|lib)\.rs", ["S05", "S04", "S03", "C05"]),
    (r"std/src/program\.rs", ["S07", "S05", "U06"]),
    (r"std/src/help\.rs", ["U06"]),
    (r"std/src/storage/", ["S06", "S07", "V02"]),
    (r"std/src/gpio/", ["S08"]),
    (r"std/src/console/(drawing|graphics|colors)\.rs", ["U03", "U02", "U08", "S03", "U01"]),
    (r"std/src/gfx/", ["U02", "U03", "U07", "S03"]),
    (r"std/src/console/(readline|linebuffer)\.rs", ["U01", "U04", "U05", "S03"]),
    (r"std/src/console/pager\.rs", ["U06"]),
    (r"std/src/console/spec\.rs", ["V03"]),
    (r"std/src/console/", ["S03", "U02", "U06", "V03", "U05", "U01"]),
    (r"repl/src/editor\.rs", ["U04"]),
    (r"repl/src/", ["S05", "S07", "V03", "U05"]),
    (r"client/src/", ["V01", "V02"]),
    (r"terminal/src/", ["U05"]),
    (r"cli/src/", ["V03", "U05"]),
    (r"st7735s/src/", ["U07"]),
    (r"sdl/src/", ["U08"]),
    (r"web/src/", ["W01", "W02"]),
]
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.96", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           LANG="C.UTF-8", VERIF_CASE_TIMEOUT="25", VERIF_WORKERS=str(8 // NW if NW else 8), VERIF_TIER="quick")
ENV.pop("CARGO_TARGET_DIR", None)
ENV["PATH"] = "/root/.cargo/bin:" + ENV["PATH"]
QUICK = {}
for name in glob.glob("/verif/harness/src/*.rs") + glob.glob("/verif/web/src/*.rs"):
    text = open(name, encoding="utf-8").read()
    for r in (r'id: "([A-Z]\d\d)",.*?quick: ([\d_]+)', r'\w!\(\s*"([A-Z]\d\d)",\s*([\d_]+),'):
        QUICK.update((k, int(v.replace("_", ""))) for k, v in re.findall(r, text, re.S))

SWAPS = [
    (r" <= ", [" < ", " >= "]), (r" < (?![A-Z][a-z])", [" <= "]), (r" >= ", [" > "]), (r" > ", [" >= "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+ ", [" - "]), (r" - ", [" + "]),
    (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["3"]), (r"\b10\b", ["11"]),
    (r"\bif !", ["if "]), (r"\bif (?!let|!)", ["if !"]), (r"\bSome\(([a-z]\w*)\)(?=[,;]?$)", ["None"]),
    (r"\.is_empty\(\)", [".len() == 1"]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"\.\.=", [".."]), (r"(?<=[a-z0-9])\.\.(?=[a-z0-9])", ["..="]), (r"\.checked_(add|sub|mul)\(", [".checked_add(", ".checked_sub("]),
    (r"\.starts_with\(", [".ends_with("]), (r"\.push\(", [".insert(0, "]), (r"\.pop\(\)", [".last().cloned()"]),
    (r"\.trim\(\)", [""]), (r"\.rev\(\)", [""]), (r"\.skip\(1\)", [""]), (r"\.floor\(\)", [".ceil()"]),
    (r"\.round\(\)", [".trunc()"]), (r"\.is_ok\(\)", [".is_err()"]), (r"break;", ["continue;", ""]), (r"continue;", ["break;"]),
    (r"\.to_uppercase\(\)|\.to_ascii_uppercase\(\)", [".to_string()"]), (r"\.contains\(", [".starts_with("]),
    (r"\.chars\(\)\.count\(\)", [".len()"]), (r"\.width\b", [".height"]), (r"\.height\b", [".width"]),
    (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\.all\(", [".any("]), (r"\.any\(", [".all("]),
]


def code_lines(path):
    """Line numbers of the code that is not a test, a comment or a declaration."""
    out = []
    for i, l in enumerate(open(path, encoding="utf-8")):
        t = l.strip()
        if re.match(r"#\[cfg\(test\)\]|mod testutils", t):
            break
        if not t or t.startswith("//") or t.startswith("#[") or t.startswith("use ") or t.startswith("pub use"):
            continue
        if re.match(r"(pub(\(\w+\))? )?(fn|struct|enum|impl|mod|trait|type|const|static|async fn)\b", t):
            continue
        if "assert" in t or "panic!" in t or "unreachable!" in t or "expect(" in t or "write!(f" in t:
            continue
        out.append((i, l))
    return out


def mutants():
    rnd = random.Random(SEED)
    files = subprocess.check_output(["git", "-C", "/repo", "ls-files", "*.rs"], text=True).split()
    todo = []
    for f in files:
        if "/tests/" in f or "testutils" in f or f.endswith("tests.rs") or "example" in f or not PAT.search(f):
            continue
        props = next((p for r, p in MAP if re.match(r, f)), None)
        if props is None:
            continue
        mine = []
        for i, l in code_lines("/repo/" + f):
            code = l.split(" //")[0]
            quoted = [(m.start(), m.end()) for m in re.finditer(r'"(?:[^"\\]|\\.)*"', code)]
            for pat, reps in SWAPS:
                for m in re.finditer(pat, code):
                    if any(a < m.start() < b for a, b in quoted):
                        continue
                    for r in reps:
                        new = l[:m.start()] + r + l[m.end():]
                        if new != l:
                            mine.append((f, i, l, new, props))
            t = l.strip()
            if re.match(r"[a-z_][\w.:]*(\(|!\(|\.| = | [-+|&]= ).*;$", t) and not re.match(r"(let|return|break|continue)\b", t):
                mine.append((f, i, l, l[: len(l) - len(l.lstrip())] + "();\n", props))
        todo.extend(mine)
    rnd.shuffle(todo)
    return todo[:COUNT]


def sh(cmd, cwd, limit):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=limit)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def setup(w):
    d = f"{BASE}/w{w}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "/repo/", d + "/repo/"], check=False)
    if not os.path.isdir(d + "/repo"):
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    os.makedirs(d + "/verif", exist_ok=True)
    subprocess.run(f"rm -rf {d}/verif/harness/src; mkdir -p {d}/verif/harness; rsync -a --exclude target /verif/web {d}/verif/; cp -a /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock {d}/verif/harness/; "
                   f"cp /verif/known-findings.txt {d}/verif/; grep -rl '/repo' {d}/verif/harness/src {d}/verif/harness/Cargo.toml {d}/verif/web/Cargo.toml | xargs sed -i 's#\"/repo#\"{d}/repo#'",
                   shell=True, check=True)
    rc, o = sh(["cargo", "build", "--offline"], d + "/verif/harness", 1800)
    print("worker", w, "harness", rc, o[-300:] if rc else "", flush=True)
    rc, o = sh(["cargo", "build", "--offline"], d + "/verif/web", 1800)
    rc, o = sh(["cargo", "test", "--workspace", "--no-run", "--offline", "--features", "endbasic/sdl,endbasic/rpi"], d + "/repo", 1800)
    print("worker", w, "tests", rc, o[-300:] if rc else "", flush=True)
    return d


def check(d, prop, cases):
    env = dict(ENV, VERIF_DIR=d + "/verif", VERIF_SEED="1")
    if cases:
        env["VERIF_CASES"] = str(cases)
    p = subprocess.Popen([d + ("/verif/web/target/debug/vpweb" if prop.startswith("W") else "/verif/harness/target/debug/vp"), "check", prop], env=env, cwd=d, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace")
    timer = threading.Timer(400, p.kill)
    timer.start()
    bad = None
    tail = []
    for l in p.stdout:
        tail = (tail + [l])[-5:]
        if l.startswith("--- case") or "VIOLATION" in l:
            bad = l.strip()[:200]
            p.kill()
            break
    p.wait()
    timer.cancel()
    if bad is None and p.returncode != 0:
        bad = f"exit {p.returncode}: {''.join(tail)[-200:]}"
    return bad


def judge(d, m):
    f, i, old, new, props = m
    path = f"{d}/repo/{f}"
    src = open(path, encoding="utf-8").read().splitlines(True)
    assert src[i] == old, (f, i)
    src[i] = new
    open(path, "w", encoding="utf-8").write("".join(src))
    try:
        rc, o = sh(["cargo", "build", "--offline"], d + ("/verif/web" if f.startswith("web/") else "/verif/harness"), 600)
        if rc:
            return "nobuild", ""
        for p in props:
            b = check(d, p, max(60, QUICK.get(p, 6000) // 8))
            if b:
                return "caught", p + ": " + b
        rc, o = sh(["cargo", "test", "--workspace", "--features", "endbasic/sdl,endbasic/rpi", "--offline", "--no-fail-fast", "--", "--test-threads", "4"], d + "/repo", 600)
        failed = re.findall(r"^test (\S+).* \.\.\. FAILED", o, re.M)
        if rc and not failed:
            return "tests", o[-200:]
        failed = [x for x in failed if x not in BASEFAIL]
        if failed:
            return "tests", " ".join(failed[:3])
        for p in props:
            b = check(d, p, None)
            if b:
                return "caught", "quick " + p + ": " + b
        return "GAP", ""
    finally:
        src[i] = old
        open(path, "w", encoding="utf-8").write("".join(src))


def worker(w):
    d = setup(w)
    if w == 0 or not BASEFAIL_DONE.is_set():
        rc, o = sh(["cargo", "test", "--workspace", "--features", "endbasic/sdl,endbasic/rpi", "--offline", "--no-fail-fast", "--", "--test-threads", "4"], d + "/repo", 600)
        BASEFAIL.update(re.findall(r"^test (\S+).* \.\.\. FAILED", o, re.M))
        BASEFAIL_DONE.set()
    while True:
        with LOCK:
            if not TODO or os.path.exists(BASE + "/stop"):
                return
            m = TODO.pop()
        t = time.time()
        try:
            verdict, why = judge(d, m)
        except Exception as e:
            verdict, why = "error", str(e)
        with LOCK:
            with open(OUT, "a") as o:
                o.write(json.dumps({"verdict": verdict, "file": m[0], "line": m[1] + 1, "old": m[2].strip(), "new": m[3].strip(),
                                    "why": why, "s": round(time.time() - t)}) + "\n")


LOCK, BASEFAIL, BASEFAIL_DONE = threading.Lock(), set(), threading.Event()
TODO = mutants()
print(len(TODO), "mutants", flush=True)
if NW:
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(NW)]
    [t.start() for t in ts]
    [t.join() for t in ts]
