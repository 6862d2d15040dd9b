#!/usr/bin/env python3
"""Systematic small changes of /repo, to find out what the checks miss.
   mutate.py list [file-prefix]            all changes, one per line
   mutate.py work DIR PART PARTS [prefix]  tries every PARTS-th change in copies at DIR (run it in: unshare -Urm)
   A change which no check sees is then given to the repository's tests; what survives both is for a human to judge."""
import os, re, subprocess, sys, json, time, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ORDER = [
    ("src/routing/dijkstra.rs", "C01 C02 C03"), ("src/routing/paths.rs", "C01 C02 C05 C14 C18"),
    ("src/routing/explorating.rs", "C14"), ("src/network/graph/building.rs", "C04 C05 C08 C09 C17 C06 C02"),
    ("src/network/graph/indexing.rs", "C04 C05 C01"), ("src/network/graph/mod.rs", "C04 C09 C06 C17 C01 C13"),
    ("src/network/routes.rs", "C11"), ("src/network/mod.rs", "C10"),
    ("src/configs/balancing.rs", "C15 C13 C21"), ("src/configs/evaluating_balance.rs", "C15 C20"),
    ("src/configs/parsing/generating/edges/metrics", "C08"), ("src/configs/parsing/generating", "C08 C17 C15"), ("src/configs/parsing", "C15 C16 C10 C08"),
    ("src/configs/routing.rs", "C15 C01"), ("src/configs/writing", "C15 C06 C17 C11"), ("src/configs", "C15"),
    ("src/io/parsing/routing", "C11 C20"), ("src/io/parsing/network/graph/pbf.rs", "C10"),
    ("src/io/parsing/network/graph", "C16 C06"), ("src/io/parsing/network/edges.rs", "C17"),
    ("src/io/writing/routing", "C11 C07"), ("src/io/writing/network/edges.rs", "C17 C07"),
    ("src/io/writing/network", "C06 C07 C17"), ("src/io/writing/evaluating_balance.rs", "C20 C21"),
    ("src/io/writing/smarts.rs", "C18 C07 C20"), ("src/io", "C15 C07 C20"),
    ("src/approximating.rs", "C19"), ("src/helpers", "C19 C20"), ("src/defaults.rs", "C10 C13 C15 C16"),
    ("src/multi_ch_constructor", "C15 C21"),
    ("src/bin/osmgraphing/balancing/multithreading.rs", "C12 C21"), ("src/bin/osmgraphing/balancing", "C21 C13"),
    ("src/bin/osmgraphing/mod.rs", "C20 C23"), ("src/bin/multi-ch", "C21"),
]
REST = "C01 C02 C04 C05 C06 C08 C09 C10 C11 C16 C17 C18 C14 C15 C03 C07 C13 C19 C12 C20 C21 C23".split()
SWAPS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
    (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["2", "0"]), (r"(?<![\w.])2(?![\w.])", ["1"]),
    (r"\b0\.0\b", ["1.0"]), (r"\b1\.0\b", ["2.0"]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bfirst\(\)", ["last()"]), (r"\blast\(\)", ["first()"]),
    (r"\bsrc_", ["dst_"]), (r"\bdst_", ["src_"]), (r"\bfwd_", ["bwd_"]), (r"\bbwd_", ["fwd_"]), (r"Src(?=I|L)", ["Dst"]), (r"Dst(?=I|L)", ["Src"]),
    (r"\.src\b", [".dst"]), (r"\.dst\b", [".src"]), (r"\blat\b", ["lon"]), (r"\blon\b", ["lat"]), (r"\b_0\b", ["_1"]),
    (r"Less\b", ["Greater"]), (r"Greater\b", ["Less"]), (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]),
    (r"\bif !", ["if "]), (r"(?<=[( |])!(?=[a-z(])", [""]), (r"\.rev\(\)", [""]), (r"\.abs\(\)", [""]), (r"\bany\(", ["all("]), (r"\ball\(", ["any("]),
    (r"\.\.=", [".."]), (r"\.skip\(1\)", [""]), (r"\.create_new\(true\)", [".create(true)"]), (r"\bSome\(", ["None.or(Some("] if False else []),
    (r"\.unwrap_or\(", [".xor(None).unwrap_or("] if False else []), (r"\bwrite!", ["writeln!"]), (r"\bwriteln!", ["write!"]),
]

def code_mask(text):
    """for each character: is it code (no comment, no string, no logging, no message)?"""
    m = [True] * len(text)
    i = 0
    while i < len(text):
        c = text[i]
        if text.startswith("//", i):
            j = text.find("\n", i); j = len(text) if j < 0 else j
        elif text.startswith("/*", i):
            j = text.find("*/", i) + 2
        elif c == '"':
            j = i + 1
            while text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            j += 1
        elif c == "'" and re.match(r"'(\\.|[^\\'])'", text[i:i + 4]):
            j = i + re.match(r"'(\\.|[^\\'])'", text[i:i + 4]).end()
        else:
            i += 1
            continue
        for k in range(i, j): m[k] = False
        i = j
    for x in re.finditer(r"\b(info|debug|trace|warn|error|panic|unreachable|debug_assert\w*|assert\w*|format|println|expect)!?\(|#\[|^use |^pub use ", text, re.M):
        if not m[x.start()]: continue
        if x.group(0).startswith(("use", "pub")):
            j = text.find(";", x.start())
        else:
            close = "]" if x.group(0) == "#[" else ")"
            openc = "[" if close == "]" else "("
            d, j = 0, x.end() - 1
            while True:
                if m[j] or True:
                    if m[j] and text[j] == openc: d += 1
                    if m[j] and text[j] == close: d -= 1
                    if d == 0: break
                j += 1
        for k in range(x.start(), j + 1): m[k] = False
    return m

def mutants(prefix=""):
    out = []
    files = sorted(subprocess.run(["git", "-C", ROOT_REPO, "ls-files", "src"], stdout=subprocess.PIPE, text=True).stdout.split())
    for f in files:
        if not f.endswith(".rs") or not f.startswith(prefix): continue
        text = open(os.path.join(ROOT_REPO, f)).read()
        m = code_mask(text)
        for pat, news in SWAPS:
            for x in re.finditer(pat, text):
                if not all(m[x.start():x.end()]): continue
                for n in news:
                    if n == " - " and False: continue
                    out.append((f, x.start(), x.group(0), n))
        pos = 0
        for line in text.split("\n"):
            s = line.strip()
            a = pos + len(line) - len(line.lstrip())
            if s.endswith(";") and m[a] and m[pos + len(line.rstrip()) - 1] and re.match(r"[a-z_*]", s) and not re.match(r"(let|return|use|pub|mod|const|type|static|break|continue|extern|fn|impl)\b", s) and s.count("(") == s.count(")") and not s.startswith((".", "}")):
                out.append((f, a, s, "();" if not s.endswith("?;") else "let _ = %s;" % s[:-2]))
                if s.endswith("?;"): out.append((f, a, s, "();"))
            pos += len(line) + 1
    out.sort()
    return out

ROOT_REPO = REPO
def sh(cmd, timeout=900, **kw):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors="replace", **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 124, ""

def checks_of(f):
    for pre, c in ORDER:
        if f.startswith(pre):
            first = c.split()
            break
    else: first = []
    return first, [c for c in REST if c not in first]

def work(d, part, parts, prefix, only):
    env = dict(os.environ, MC_TARGET=d + "/target", MC_OUT=d + "/out", MC_EVIDENCE=d + "/evidence", RUST_BACKTRACE="0", VERIF_TIER="quick", MC_CLI=d + "/target/cli")
    for x in ("out/replay", "evidence"): os.makedirs(d + "/" + x, exist_ok=True)
    log = open(d + "/results.jsonl", "a")
    done = set()
    for l in open(d + "/results.jsonl"):
        j = json.loads(l); done.add((j["file"], j["at"], j["old"], j["new"]))
    all = mutants(prefix)
    # files are mixed, so that an early end has seen something of all
    for n, (f, at, old, new) in sorted(enumerate(all), key=lambda x: (x[0] * 7919) % 10007):
        if n % parts != part or (f, at, old, new) in done: continue
        if only and n not in only: continue
        p = os.path.join(REPO, f)
        text = open(p).read()
        line = text.count("\n", 0, at) + 1
        r = dict(file=f, at=at, line=line, old=old, new=new, n=n, src=text.split("\n")[line - 1].strip())
        t0 = time.time()
        try:
            open(p, "w").write(text[:at] + new + text[at + len(old):])
            r.update(attempt(f, env, d))
        finally:
            open(p, "w").write(text)
        r["s"] = round(time.time() - t0)
        log.write(json.dumps(r) + "\n"); log.flush()

def attempt(f, env, d):
    first, rest = checks_of(f)
    isbin = f.startswith("src/bin")
    if not isbin:
        rc, o = sh("bash /verif/build.sh", env=env)
        if rc: return {"result": "build"}
    built_cli = False
    scratch = "/dev/shm/mut-" + os.path.basename(d)
    strange = []
    cli = ("C20", "C21", "C23")
    if isbin:
        stages = [[c for c in first + rest if c in cli + ("C12",)], "tests"]
    else:
        stages = [[c for c in first if c not in cli], "tests", [c for c in first if c in cli]]
        if os.environ.get("ALL_CHECKS"):
            stages += [[c for c in rest if c not in cli + ("C12",)], ["C20"]]
    for stage in stages:
        if stage == "tests":
            rc, o = sh("bash /opt/vp/build.sh", env=os.environ)
            if rc: return {"result": "build", "strange": strange}
            sh("rm -f %s/tests.json; bash /opt/vp/test.sh %s/tests.json" % (d, d), timeout=300)
            try:
                got = set(json.load(open(d + "/tests.json"))["passed"])
                missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got
            except Exception as e:
                missing = {"no tests: %s" % e}
            if missing: return {"result": "tests", "strange": strange}
            continue
        for c in stage:
            if c in cli and not built_cli:
                rc, o = sh("bash /verif/build.sh; bash /verif/cli.sh", env=env)
                if rc: return {"result": "build"}
                built_cli = True
            sh("rm -rf %s; mkdir %s" % (scratch, scratch))
            e = dict(env, MC_SCRATCH=scratch)
            if c == "C12":
                rc, o = sh("bash /verif/check.sh C12 quick", env=e)
            else:
                rc, o = sh("cd /verif && %s/target/release/mc %s quick" % (d, c), env=e)
            if rc == 1 and "VIOLATION" in o or rc in (-6, -8, -11, 134, 136, 139):
                return {"result": "caught", "by": c, "in_first": c in first}
            if rc != 0: strange.append((c, rc))
    return {"result": "SURVIVED", "strange": strange}

if __name__ == "__main__":
    if sys.argv[1] == "list":
        l = mutants(sys.argv[2] if len(sys.argv) > 2 else "")
        for n, (f, at, old, new) in enumerate(l):
            t = open(os.path.join(REPO, f)).read()
            line = t.count("\n", 0, at) + 1
            print(n, f, line, repr(old), "->", repr(new))
    else:
        d, part, parts = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
        work(d, part, parts, sys.argv[5] if len(sys.argv) > 5 else "", [int(x) for x in sys.argv[6].split(",")] if len(sys.argv) > 6 else None)
