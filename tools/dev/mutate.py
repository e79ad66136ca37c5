#!/usr/bin/env python3
"""Mutation campaign against the checks: a development tool, run by no check. See DESIGN.md.

  mutate.py gen OUT.json [--per-file N] [--seed S]   list mutants of /repo's original lines
  mutate.py run LIST.json RESULTS.jsonl --workers N  judge them, in copies under /tmp/mw (private mount namespaces)
  mutate.py show RESULTS.jsonl                        survivors
"""
import argparse, fcntl, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
ALL = [f"P{i:02}" for i in range(1, 99)]

OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"),
    (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
    (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r"\.starts_with\(", ".ends_with("), (r"\.ends_with\(", ".starts_with("), (r"\.trim_start", ".trim_end"), (r"\.trim_end", ".trim_start"),
    (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
    (r"\.position\(", ".rposition("), (r"\.find\(", ".rfind("), (r"\.filter\((\|[^|]*\|) ", r".filter(\1 !"),
    (r"\.and\(", ".or("), (r"\.or\(", ".and("), (r"\.is_empty\(\)", ".is_empty() == false"),
    (r"if ([^{]*[^{ ]) \{", r"if !(\1) {"), (r"if !([^{]*) \{", r"if \1 {"),
    (r"\.push_str\(([^)]*)\)", r".insert_str(0, \1)"), (r"\.push\(", ".insert(0, "),
    (r"\.pop\(\)", ".first().cloned()"), (r"\.remove\(0\)", ".pop().unwrap()"),
    (r"_mut\(\)", "()"), (r"\bSome\(([a-z_.&]+)\)$", "None"), (r"\bNone\b(?=,?$)", "Default::default()"),
    (r"\bself\.x\b", "self.y"), (r"\bself\.y\b", "self.x"), (r"_axis", "_axis"), (r"\.len\(\)", ".len() + 1"), (r"\.len\(\)", ".len().saturating_sub(1)"),
    (r"\bas u32\b", "as u16 as u32"), (r"\bas i64\b", "as i32 as i64"), (r"\bas i64\b", "as u8 as i64"), (r"\bas f64\b", "as f32 as f64"),
    (r"\.to_lowercase\(\)", ".to_uppercase()"), (r"\.contains\(", ".starts_with("), (r"\.unwrap_or\(true\)", ".unwrap_or(false)"),
    (r"\bOk\(\(\)\)", "Ok(())"), (r"\.copied\(\)", ".copied()"), (r"\.\.=", ".."), (r"(?<!\.)\.\.(?=[a-z0-9])", "..="),
    (r"\.retain\((\|[^|]*\|) ", r".retain(\1 !"), (r"\.to_owned\(\)", ".to_owned()"), (r"\.insert\(([^,()]*), ", r".entry(\1).or_insert("),
    (r"\.take\(\)", ".clone()"), (r"\.extend\(([a-z_]+)\)", r".extend(\1.into_iter().rev())"), (r"\.chars\(\)", ".chars().rev()"),
    (r"\.iter\(\)", ".iter().rev()"), (r"\.into_iter\(\)", ".into_iter().skip(1)"), (r"\.next\(\)", ".last()"), (r"\.split\('/'\)", ".splitn(2, '/')"),
]


def original_lines():
    root = subprocess.check_output(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
    out = {}
    for f in subprocess.check_output(["git", "-C", REPO, "ls-files", "*/src/*.rs"], text=True).split():
        blame = subprocess.check_output(["git", "-C", REPO, "blame", "-l", "--root", "HEAD", "--", f], text=True)
        keep = {i for i, l in enumerate(blame.splitlines()) if l.lstrip("^").startswith(root[:38])}
        out[f] = keep
    return out


def statement(l):
    s = l.strip()
    if not s.endswith(";") or s.startswith(("let ", "use ", "pub ", "}", ".", ")", "type ", "const ", "static ", "mod ", "macro", "#", "]", "extern")):
        return False
    return s.count("(") == s.count(")") and s.count("{") == s.count("}") and s.count("[") == s.count("]")


def mutants_of(f, keep):
    lines = open(os.path.join(REPO, f)).read().split("\n")
    out, block = [], False
    for i, l in enumerate(lines):
        s = l.strip()
        if "/*" in s:
            block = True
        if block:
            if "*/" in s:
                block = False
            continue
        if i not in keep or not s or s.startswith(("//", "#[", "#!", "use ", "mod ", "pub mod", "pub use")):
            continue
        code = re.sub(r"//.*$", "", l) if '"' not in l else l
        def add(new, what, span=1):
            old = lines[i:i + span]
            if new != old and "\n".join(new).strip() != "\n".join(old).strip():
                out.append(dict(file=f, line=i, old=old, new=new, what=what))
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():] if "\\" in rep else code[:m.start()] + rep + code[m.end():]
                add([new], f"{pat} -> {rep}")
        for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", code):
            n = int(m.group(1))
            add([code[:m.start()] + str(n + 1) + code[m.end():]], "literal + 1")
            if n == 1:
                add([code[:m.start()] + "0" + code[m.end():]], "literal 0")
        if statement(code):
            if s.startswith("return"):
                add([""], "delete return")
            else:
                add([""], "delete statement")
            if i + 1 < len(lines) and statement(lines[i + 1]) and i + 1 in keep and not s.startswith("return") and not lines[i + 1].strip().startswith("return"):
                add([lines[i + 1], lines[i]], "swap statements", 2)
        arm = re.match(r"^(\s*)([^=]*) => ([^{]*),\s*$", code)
        if arm and i + 1 < len(lines):
            arm2 = re.match(r"^(\s*)([^=]*) => ([^{]*),\s*$", lines[i + 1])
            if arm2 and i + 1 in keep and arm.group(3) != arm2.group(3):
                add([f"{arm.group(1)}{arm.group(2)} => {arm2.group(3)},", f"{arm2.group(1)}{arm2.group(2)} => {arm.group(3)},"], "swap arms", 2)
        if re.search(r"^\s*(if|while) [^{]*\{\s*$", code) and " let " not in code:
            add([re.sub(r"(if|while) [^{]*\{", r"\1 false {", code)], "condition false")
            if "if " in code:
                add([re.sub(r"if [^{]*\{", "if true {", code)], "condition true")
        m = re.match(r"^(\s*)(self\.[a-z_]+|[a-z_]+)\s*=\s*([^=].*);$", code)
        if m:
            add([f"{m.group(1)}{m.group(2)} = Default::default();"], "assign default")
        m = re.search(r"\(([a-z_.&]+), ([a-z_.&]+)\)", code)
        if m and m.group(1) != m.group(2) and "fn " not in code and "|" not in code:
            add([code[:m.start()] + f"({m.group(2)}, {m.group(1)})" + code[m.end():]], "swap arguments")
    return out


def gen(args):
    rnd = random.Random(args.seed)
    out = []
    for f, keep in original_lines().items():
        if not keep:
            continue
        ms = mutants_of(f, keep)
        seen, uniq = set(), []
        for m in ms:
            k = (m["line"], tuple(m["new"]))
            if k not in seen:
                seen.add(k)
                uniq.append(m)
        rnd.shuffle(uniq)
        print(f, len(uniq), file=sys.stderr)
        out += uniq[:args.per_file] if args.per_file else uniq
    rnd.shuffle(out)
    for i, m in enumerate(out):
        m["id"] = i
    json.dump(out, open(args.list, "w"), indent=0)
    print(len(out), "mutants", file=sys.stderr)


ORDER = {
    "logger.rs": ["P14"], "node_field.rs": ["P16"], "tree_option.rs": ["P15"], "tree_result.rs": ["P15"], "exportable.rs": ["P11", "P10"],
    "glam_exportables.rs": ["P11"], "node_registry.rs": ["P22", "P10"], "signals.rs": ["P13"], "rid.rs": ["P17"], "node_path.rs": ["P04"],
    "node_scene.rs": ["P10", "P12", "P18", "P06"], "tree_pointer.rs": ["P03", "P22", "P15"], "functions.rs": ["P02"], "generator.rs": ["P20"],
    "parser.rs": ["P20"], "node_base.rs": ["P01", "P02", "P07", "P09", "P23", "P06", "P08", "P04"],
    "node_tree_base.rs": ["P07", "P08", "P01", "P05", "P09", "P06", "P14"], "lib.rs": ["P19", "P20"],
}
HEAVY = {"P19": 240, "P20": 400, "P24": 240, "P25": 300}


def judge(m, pids, full=False):
    """Runs in a namespace where /repo and /verif are the worker's own copies."""
    path = os.path.join(REPO, m["file"])
    src = open(path).read()
    lines = src.split("\n")
    n = len(m["old"])
    if [l.rstrip() for l in lines[m["line"]:m["line"] + n]] != [l.rstrip() for l in m["old"]]:
        return dict(status="stale")
    lines[m["line"]:m["line"] + n] = m["new"]
    open(path, "w").write("\n".join(lines))
    began = time.time()
    try:
        env = dict(os.environ, CARGO_BUILD_JOBS="3", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0")
        try:
            p = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=600)
            if p.returncode:
                return dict(status="nobuild")
            p = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/mut_o.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=600)
        except subprocess.TimeoutExpired:
            return dict(status="tests")
        if "18 passed, 0 failed" not in p.stdout.splitlines()[-1]:
            return dict(status="tests")
        t1 = time.time() - began
        base = os.path.basename(m["file"])
        first = [p for p in ORDER.get(base, []) if p in pids]
        if "derive" in m["file"]:
            first = ["P19", "P20"]
        order = first + [p for p in pids if p not in first]
        macros = ["P19", "P20", "P24", "P25"]
        if "derive" in m["file"]:
            order = [p for p in order if p in macros]
        elif base in ("logger.rs", "node_path.rs"):
            order = [p for p in order if p not in macros[:3]]
        else:
            order = [p for p in order if p not in macros]
        errors = []
        for pid in order:
            cases = HEAVY.get(pid, m.get("cases", 0) or CASES[pid])
            cmd = ["python3", "tools/check.py", pid, "--tier", "quick"] + ([] if full else ["--cases", str(cases)])
            p = subprocess.run(cmd, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
            if p.returncode == 1:
                msg = [l for l in p.stderr.splitlines() if l.startswith(pid + ": ")][-1:]
                return dict(status="caught", by=pid, message=msg, t_tests=t1, t=time.time() - began)
            if p.returncode != 0:
                errors.append((pid, p.stderr[-600:]))
        return dict(status="error" if errors else "SURVIVED", errors=errors, t_tests=t1, t=time.time() - began)
    finally:
        open(path, "w").write(src)


CASES = {}


def load_cases(div):
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    from config import CHECKS
    for k, c in CHECKS.items():
        CASES[k] = max(1000, c["quick"] // div)
    return [k for k in sorted(CHECKS) if k != "P21"] + ["P21"]


def worker(args):
    pids = load_cases(args.div)
    if args.pids:
        pids = args.pids.split(",")
    todo = json.load(open(args.list))
    while True:
        with open(args.queue, "r+") as q:
            fcntl.flock(q, fcntl.LOCK_EX)
            n = int(q.read() or 0)
            q.seek(0)
            q.write(str(n + 1))
            q.truncate()
        if n >= len(todo):
            return
        m = todo[n]
        r = judge(m, pids, args.full)
        with open(args.results, "a") as o:
            fcntl.flock(o, fcntl.LOCK_EX)
            o.write(json.dumps(dict(m, **r)) + "\n")


def run(args):
    queue = args.results + ".queue"
    if not os.path.exists(queue):
        open(queue, "w").write("0")
    procs = []
    for i in range(args.workers):
        d = f"/tmp/mw/{args.name}{i}"
        os.makedirs(d, exist_ok=True)
        for what in ("repo", "verif"):
            if not os.path.exists(f"{d}/{what}"):
                subprocess.run(["cp", "-a", "/" + what, f"{d}/{what}"], check=True)
            else:
                subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", "target-asan", "--exclude", "work", f"/{what}/", f"{d}/{what}/"], check=False)
        os.makedirs(f"{d}/tmp", exist_ok=True)
        per = max(1, args.cores // args.workers)
        cpus = f"{args.first + i * per}-{args.first + i * per + per - 1}"
        inner = (f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && exec taskset -c {cpus} python3 tools/dev/mutate.py worker "
                 f"{os.path.abspath(args.list)} {os.path.abspath(args.results)} --queue {os.path.abspath(queue)} --div {args.div}"
                 + (" --full" if args.full else "") + (f" --pids {args.pids}" if args.pids else ""))
        procs.append(subprocess.Popen(["unshare", "-Urm", "bash", "-c", inner], stdout=open(f"{d}/log", "w"), stderr=subprocess.STDOUT))
    for p in procs:
        p.wait()


def show(args):
    from collections import Counter
    rs = [json.loads(l) for l in open(args.results)]
    print(Counter(r["status"] for r in rs), Counter(r["by"] for r in rs if r["status"] == "caught"))
    for r in rs:
        if r["status"] in ("SURVIVED", "error"):
            print(f"--- {r['id']} {r['file']}:{r['line'] + 1} {r['what']} {r['status']} {[e[0] for e in r.get('errors', [])]}")
            for l in r["old"]:
                print("  -", l)
            for l in r["new"]:
                print("  +", l)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what", choices=["gen", "run", "worker", "show"])
    ap.add_argument("list")
    ap.add_argument("results", nargs="?")
    ap.add_argument("--per-file", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--cores", type=int, default=8)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--name", default="m")
    ap.add_argument("--queue")
    ap.add_argument("--div", type=int, default=8)
    ap.add_argument("--full", action="store_true")
    ap.add_argument("--pids", default="")
    args = ap.parse_args()
    if args.what == "show":
        args.results = args.list
    dict(gen=gen, run=run, worker=worker, show=show)[args.what](args)


if __name__ == "__main__":
    main()
