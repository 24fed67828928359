#!/usr/bin/env python3
"""Mutation testing of /repo/src in scratch copies: which small changes do the checks not notice?
usage: mutate.py OUT.jsonl LANES THREADS [file-regex [sample-percent [seed]]]
Each lane has its own copy of /repo and of /verif (committed state, path dependency redirected). A mutant is run
against the checks relevant to the place of the change; survivors are then run against the test suite, so that
mutants which the tests kill (and which therefore do not count) are told apart."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
out, lanes, threads = sys.argv[1], int(sys.argv[2]), sys.argv[3]
pat = re.compile(sys.argv[4] if len(sys.argv) > 4 else r"readers|lib|macros")
pct = float(sys.argv[5]) if len(sys.argv) > 5 else 100
rnd = random.Random(int(sys.argv[6]) if len(sys.argv) > 6 else 1)
ROOT = "/tmp/mut"
def sh(c, cwd="/", **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)

FN = {"from_asf_reader": "C18", "from_cfb_reader": "C15", "from_ebml_reader": "C16", "from_exe_reader": "C20", "from_id3v2_reader": "C21",
      "from_mp4_reader": "C17", "from_pdf_reader": "C22", "from_rm_reader": "C19", "from_sqlite3_reader": "C23", "from_txt_reader": "C25",
      "from_xml_reader": "C24", "from_zip_reader": "C12 C13 C14", "read_guid": "C15 C18", "read_string": "C12 C13", "read_u": "C17 C19 C18 C16 C15 C20",
      "read_up_to": "C03 C04", "find": "C22 C23 C24", "rfind": "C14", "from_fmt_reader": "C11 C27", "from_generic_reader": "C25 C11",
      "from_file": "C02 C04", "from_reader": "C10 C02 C03 C04 C27", "fmt": "C26", "default": "C26", "from_signature": "C07 C08 C09"}
GENERAL = ["C27", "C01", "C05", "C06", "C04", "C03", "C02", "C07", "C09", "C10", "C08", "C11"]
# Fewer cases than the quick tier where a check is slow.
LIGHT = {"C05": 8000, "C06": 8000, "C01": 120000, "C03": 100000, "C11": 30000, "C04": 60000, "C02": 60000, "C27": 150000, "C07": 500000, "C08": 500000, "C09": 700000, "C10": 200000}
OPS = [
 (r"(?<![<>=!])<(?![<=])(?= \w)", ["<="]), (r"(?<![->=])>(?![>=])(?= )", [">="]), (r">=", [">"]), (r"<=", ["<"]), (r"==", ["!="]), (r"!=", ["=="]),
 (r"&&", ["||"]), (r"\|\|(?! )", []), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \| ", [" & "]), (r" & ", [" | "]),
 (r"<< (\d+)", None), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bsaturating_", ["wrapping_"]), (r"cmp::min", ["cmp::max"]), (r"\.min\(", [".max("]),
 (r"as u64", ["as u32 as u64", "as u16 as u64"]), (r"as i64", ["as i32 as i64", "as i8 as i64"]), (r"as usize", ["as u16 as usize", "as u8 as usize"]),
 (r"starts_with", ["ends_with"]), (r"ends_with", ["starts_with"]), (r"!(?=\w+\.)", [""]), (r"SeekFrom::Current", ["SeekFrom::Start"]), (r"_le\(", ["_be("]), (r"_be\(", ["_le("]),
 (r"\breturn Ok\(", ["let _ = ("]), (r"\?;", [".ok();"]), (r"u16::MAX", ["u8::MAX"]), (r"else if", ["else; if"]), (r"break", ["continue"]), (r"continue", ["break"]),
]
def mutants(path, text):
    lines = text.split("\n"); fn = ""; res = []
    for i, l in enumerate(lines):
        m = re.search(r"fn (\w+)", l)
        if m: fn = m[1]
        s = l.strip()
        if (path.endswith("lib.rs") and not 220 < i < 320) or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or not s: continue
        code = l.split("//")[0] if '"' not in l else l
        def add(new, what):
            if new != l: res.append((path, i, fn, what, l, new))
        quoted = [(m.start(), m.end()) for m in re.finditer(r'b?"(?:[^"\\]|\\.)*"', code)]
        inq = lambda p: any(a <= p < b for a, b in quoted)
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                if inq(m.start()) or reps is None: continue
                for r in reps: add(code[:m.start()] + r + code[m.end():], f"{m[0]!r}->{r!r}")
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(?![\w.]|\d)", code):
            if inq(m.start()): continue
            v = int(m[1].replace("_", ""))
            for w in {v + 1, max(v - 1, 0), v * 2} - {v}: add(code[:m.start(1)] + str(w) + code[m.end(1):], f"{v}->{w}")
        for m in re.finditer(r"0x([0-9A-Fa-f]+)", code):
            if inq(m.start()): continue
            v = int(m[1], 16)
            for w in {v + 1, v ^ 0x10}: add(code[:m.start()] + f"0x{w:X}" + code[m.end():], f"0x{v:X}->0x{w:X}")
        for a, b in quoted:
            body = code[a:b]
            q = body.index('"') + 1
            toks = re.findall(r"\\x[0-9A-Fa-f]{2}|\\.|[^\\]", body[q:-1])
            if toks and not any(x in l for x in ("Error::new", "write!", "doc=", "media_type", "extension", "name =")):
                k = rnd.randrange(len(toks)); t2 = list(toks)
                t2[k] = "q" if toks[k] != "q" else "p"
                add(code[:a] + body[:q] + "".join(t2) + '"' + code[b:], f"literal char {k}")
                if not ("value =" in l): add(code[:a] + body[:q] + "".join(toks[:-1]) + '"' + code[b:], "literal shortened")
        if re.match(r"\s*(reader\.(seek|rewind)|\w+ (\+=|-=|=) |\w+_track = |break;|element_count|box_count|offset =|next_offset)", l) and s.endswith(";") and "let" not in s:
            add(re.match(r"\s*", l)[0] + "", "statement deleted")
        if re.match(r"\s*value = ", l): add("", "alternative deleted")
        if "=> return" in l or re.match(r'\s*"[^"]*" => ', l): add("", "arm deleted")
        if re.match(r'\s*\| "', l): add("" if not l.rstrip().endswith("=> {") else l, "alternative deleted")
        m = re.search(r"Self::(\w+)", code)
        if m and ("=>" in code or "return" in code or "Ok(" in code or s.startswith("Self::")) and not s.startswith("#"):
            add(code[:m.start()] + "Self::Empty" + code[m.end():], "answer replaced")
    return res
allm = []
for f in ("readers", "lib", "macros", "signatures", "formats"):
    if pat.search(f): allm += mutants(f"src/{f}.rs", open(f"/repo/src/{f}.rs").read())
seen = set(); ms = []
for m in allm:
    if (m[0], m[1], m[5]) not in seen: seen.add((m[0], m[1], m[5])); ms.append(m)
rnd.shuffle(ms); ms = ms[: int(len(ms) * pct / 100)]
done = set()
if os.path.exists(out):
    for l in open(out): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
ms = [m for m in ms if (m[0], m[1] + 1, m[5]) not in done]
print(len(ms), "mutants", flush=True)
if os.environ.get("DRY"): sys.exit()
Q = queue.Queue(); [Q.put(m) for m in ms]; lock = threading.Lock()
def checks_for(fn, path):
    if path.endswith("signatures.rs"): return ["C07", "C09", "C08", "C10"]
    if path.endswith("formats.rs"): return ["C26"]
    r = []
    for k, v in FN.items():
        if fn == k or (k == "read_u" and fn.startswith("read_u") and fn != "read_up_to"): r += v.split()
    if path.endswith("macros.rs"): r = ["C26", "C07", "C09", "C08"]
    if fn == "read_bytes": r = ["C15", "C14", "C21", "C16", "C17", "C18"]
    general = GENERAL[:6] if re.match("from_.*_reader", fn) else GENERAL
    return r + [g for g in general if g not in r]
def lane(n):
    d = f"{ROOT}/lane{n}"; repo = f"{d}/repo"; ver = f"{d}/verif"
    os.makedirs(d, exist_ok=True)
    sh(f"rm -rf {repo} {ver}; git clone -q /repo {repo}; git clone -q /verif {ver}; rm -rf {ver}/seeded; ln -sfn {d}/build {ver}/build; mkdir -p {d}/build")
    sh(f"sed -i 's#\"/repo\"#\"{repo}\"#' {ver}/harness/Cargo.toml {ver}/driver/Cargo.toml; sed -i 's#\"/repo/src\"#\"{repo}/src\"#' {ver}/harness/src/dict.rs")
    sh(f"cp -a /repo/Cargo.lock {repo}/ 2>/dev/null; cp -a /repo/target {repo}/ 2>/dev/null")
    # Without the dictionary of new literals, unless DICT is set: the harder test.
    env = dict(os.environ, **({} if os.environ.get("DICT") else {"FFCHECK_LITERALS": "/dev/null"}), FFCHECK_THREADS=threads, VERIF_SEED="1")
    while True:
        try: path, i, fn, what, old, new = Q.get_nowait()
        except queue.Empty: return
        p = f"{repo}/{path}"; text = open(p).read(); ls = text.split("\n"); ls[i] = new
        open(p, "w").write("\n".join(ls))
        rec = dict(file=path, line=i + 1, fn=fn, what=what, old=old.strip(), new=new, by=None)
        b = sh("cargo build --all-features --offline 2>&1", repo)
        if b.returncode: rec["by"] = "compiler"
        else:
            for c in checks_for(fn, path):
                e = dict(env, FFCHECK_CASES=str(LIGHT[c])) if c in GENERAL and c in LIGHT else env
                try: r = sh(f"./check.sh {c} quick", ver, env=e, timeout=1200)
                except subprocess.TimeoutExpired: rec.setdefault("odd", []).append(f"{c}: timeout"); continue
                if r.returncode == 1: rec["by"] = c; rec["msg"] = r.stdout.split("\n")[0][:160]; break
                if r.returncode not in (0, 1): rec.setdefault("odd", []).append(f"{c}: rc {r.returncode} {(r.stdout + r.stderr)[-200:]}")
            if rec["by"] is None:
                t = sh("cargo test --workspace --offline 2>&1 && cargo test --workspace --all-features --offline 2>&1", repo, timeout=900)
                rec["tests"] = "pass" if t.returncode == 0 else "fail"
        open(p, "w").write(text)
        with lock:
            open(out, "a").write(json.dumps(rec) + "\n")
ts = [threading.Thread(target=lane, args=(n,)) for n in range(lanes)]
[t.start() for t in ts]; [t.join() for t in ts]
