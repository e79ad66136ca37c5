"""P19, P20, P24 and P25: generated programs. Each case is a random declaration (or scene) with a program that tests what the
macro made of it. Cases are compiled in batches, one module per case, and run; a case that does not compile, panics or
crashes violates the property. What does not use the macros under test is a library (rt.rs): if that does not build,
the check fails instead."""
import fcntl, json, os, random, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "gen"))
import gen_class, gen_scene, gen_text, gen_wire  # noqa: E402

GENERATORS = {"P19": gen_class, "P20": gen_scene, "P24": gen_wire, "P25": gen_text}
CPU_SECONDS = 45  # of one binary; its cases take far less than a second together


def asleep(pid):
    time.sleep(0.1)
    with open(f"/proc/{pid}/stat") as f:
        return f.read().rsplit(")", 1)[1].split()[0] == "S"


MANIFEST = """[package]
name = "{name}"
version = "0.1.0"
edition = "2024"
publish = false
autobins = false

[workspace]

[lib]
name = "rt"
path = "rt.rs"

{bins}
[dependencies]
node_tree = {{ path = "/repo/node_tree_core", features = ["glam"] }}
toml_edit = "=0.22.27"
glam = "=0.29.3"

[profile.dev]
opt-level = 0
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false

[profile.dev.package."*"]
opt-level = 2
debug-assertions = false

[profile.dev.package.node_tree]
opt-level = 1
debug = "line-tables-only"
debug-assertions = true
overflow-checks = true

[profile.dev.package.portable_intertrait]
debug-assertions = true
"""
ALLOW = "#![allow(warnings)]\n"


class Batch:
    """Compiles and runs cases in a crate of its own."""

    def __init__(self, pid, check):
        self.pid, self.check, self.g = pid, check, GENERATORS[pid]
        self.dir = os.path.join(check.WORK, f"gen-{pid}")
        self.name = f"ntgen_{pid.lower()}"
        os.makedirs(self.dir, exist_ok=True)
        self.lock = open(os.path.join(check.WORK, f"gen-{pid}.lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.builds = 0

    def close(self):
        for n in os.listdir(self.dir):
            if n.startswith("b"):
                shutil.rmtree(os.path.join(self.dir, n), ignore_errors=True)
        debug = os.path.join(self.check.cargo_env("plain")["CARGO_TARGET_DIR"], "debug")
        for d in (debug, os.path.join(debug, "deps")):
            for n in os.listdir(d) if os.path.isdir(d) else []:
                if n.startswith(self.name + "_b"):
                    os.remove(os.path.join(d, n))
        self.lock.close()

    def write(self, groups):
        d = self.dir
        for n in os.listdir(d):
            if re.fullmatch(r"b\d+", n):
                shutil.rmtree(os.path.join(d, n))
        shutil.copy(os.path.join(HERE, "gen", "rt.rs"), os.path.join(d, "rt.rs"))
        bins = ""
        for b, group in enumerate(groups):
            bd = os.path.join(d, f"b{b}")
            os.makedirs(bd)
            main = ALLOW
            if self.pid == "P20":
                open(os.path.join(bd, "k.rs"), "w").write(gen_scene.CLASSES)
                main += "mod k;\n"
            for key, case in group:
                open(os.path.join(bd, f"c{key}.rs"), "w").write(self.g.render(case))
                main += f"mod c{key};\n"
            main += "fn main() {\n    rt::run(&[" + ", ".join(f'("{key}", c{key}::run as fn())' for key, _ in group) + "]);\n}\n"
            open(os.path.join(bd, "main.rs"), "w").write(main)
            bins += f'[[bin]]\nname = "{self.name}_b{b}"\npath = "b{b}/main.rs"\n\n'
        open(os.path.join(d, "Cargo.toml"), "w").write(MANIFEST.format(name=self.name, bins=bins))
        lock = open(os.path.join(self.check.VERIF, "harness", "Cargo.lock")).read()
        open(os.path.join(d, "Cargo.lock"), "w").write(lock.replace('name = "ntcheck"', f'name = "{self.name}"'))

    def cargo(self, args, timeout=700):
        env = self.check.cargo_env("plain")
        p = subprocess.run(["cargo"] + args + ["--offline", "--locked", "--keep-going", "--message-format=json"], cwd=self.dir, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        return p

    def compile(self, groups):
        """Returns ({binary index: path}, {case key: the compiler's message})."""
        self.builds += 1
        self.write(groups)
        debug = os.path.join(self.check.cargo_env("plain")["CARGO_TARGET_DIR"], "debug")
        p = self.cargo(["build", "--bins"])
        failed, other, lib = {}, [], False
        for line in p.stdout.splitlines():
            if not line.startswith("{"):
                continue
            j = json.loads(line)
            if j.get("reason") != "compiler-message" or j["message"]["level"] not in ("error", "error: internal compiler error"):
                continue
            m = j["message"]
            if "lib" in j["target"]["kind"]:
                lib = True
            keys = set()

            def spans(x):
                for s in x["spans"]:
                    while s:
                        k = re.search(r"(?:^|/)b\d+/c(\w+)\.rs$", s["file_name"])
                        if k:
                            keys.add(k.group(1))
                        s = (s.get("expansion") or {}).get("span")
                for c in x["children"]:
                    spans(c)
            spans(m)
            for k in keys:
                failed.setdefault(k, m["rendered"])
            if not keys and not m["message"].startswith(("aborting due to", "could not compile")):
                other.append(m["rendered"])
        if p.returncode != 0 and not failed:
            raise self.check.CheckError("the generated programs do not build:\n" + "\n".join(other)[:3000] + p.stderr[-1500:])
        if lib:
            raise self.check.CheckError("the library of the generated programs does not build:\n" + "\n".join(other)[:3000])
        bins = {b: os.path.join(debug, f"{self.name}_b{b}") for b, group in enumerate(groups) if not any(k in failed for k, _ in group)}
        return bins, failed

    def limits(self):
        self.check.limits("plain")()
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_SECONDS, CPU_SECONDS + 5))

    def execute(self, binary, keys, secs=240):
        """Runs cases of a binary. Returns {key: message of the failure, or None}."""
        out, todo = {}, list(keys)
        while todo:
            p = subprocess.Popen([binary] + todo, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 preexec_fn=self.limits, env=self.check.run_env("plain"), cwd=self.check.WORK_DIR[0])
            stuck = False
            try:
                so, se = p.communicate(timeout=secs)
            except subprocess.TimeoutExpired:
                # A program of one thread that does no I/O only sleeps if it waits for a lock that it holds itself.
                stuck = all(asleep(p.pid) for _ in range(20))
                p.kill()
                so, se = p.communicate()
                if not stuck:
                    raise self.check.CheckError("a generated program did not end in time (the machine is too slow)")
            running = None
            for line in so.decode("utf-8", "replace").splitlines():
                m = re.match(r"@@ (START|OK|FAIL) (\w+) ?(.*)", line)
                if not m:
                    continue
                running = m.group(2) if m.group(1) == "START" else None
                if m.group(1) == "OK":
                    out[m.group(2)] = None
                elif m.group(1) == "FAIL":
                    out[m.group(2)] = m.group(3)
            if stuck and running:
                out[running] = "the case waits for a lock that it holds itself"
            elif p.returncode == -signal.SIGXCPU and running:
                out[running] = f"the case did not end within {CPU_SECONDS} s of CPU time"
            elif p.returncode != 0 or running:
                if running is None:
                    raise self.check.CheckError(f"a generated program ended with {p.returncode}: {se.decode('utf-8', 'replace')[-500:]}")
                if not (p.returncode < 0 and -p.returncode in {int(s) for s in self.check.CRASH_SIGNALS}) and p.returncode != 0:
                    raise self.check.CheckError(f"a generated program ended with {p.returncode}: {se.decode('utf-8', 'replace')[-500:]}")
                out[running] = f"the program ended with {p.returncode} in the case"
            todo = [k for k in todo if k not in out]
            if running is None and todo:
                raise self.check.CheckError("generated cases were not run")
        return out

    def outcomes(self, cases, per_bin):
        """{key: None or (kind, message)} of a list of (key, case)."""
        res, groups = {}, [cases[i:i + per_bin] for i in range(0, len(cases), per_bin)]
        while groups:
            bins, failed = self.compile(groups)
            for k, m in failed.items():
                res[k] = ("compile", m)
            for b, path in bins.items():
                for k, m in self.execute(path, [k for k, _ in groups[b]]).items():
                    if m is not None:
                        # Once more, alone.
                        m = self.execute(path, [k])[k]
                    res[k] = ("run", m) if m is not None else None
            groups = [[(k, c) for k, c in g if k not in res] for b, g in enumerate(groups) if b not in bins]
            groups = [g for g in groups if g]
        return res

    def shrink(self, case, kind, message, secs):
        """Reduces a failing case for as long as it fails in the same manner."""
        end = time.time() + secs
        while time.time() < end:
            cand = sorted(self.g.smaller(case), key=self.g.size)[:64]
            if not cand:
                break
            res = self.outcomes([(f"s{i}", c) for i, c in enumerate(cand)], 8)
            hit = [i for i in range(len(cand)) if res[f"s{i}"] and res[f"s{i}"][0] == kind]
            if not hit:
                break
            case, message = cand[hit[0]], res[f"s{hit[0]}"][1]
        return case, message


def make(pid, seed, index, big):
    return GENERATORS[pid].generate(random.Random(f"{pid}:{seed}:{index}"), big)


def clean(text):
    return re.sub(r"\x1b\[[0-9;]*m", "", text)


def run(pid, tier, seed, cfg, wd, args, check):
    thorough = tier == "thorough"
    g = GENERATORS[pid]
    check.sync("plain")
    count = args.cases or (cfg["thorough"] if thorough else cfg["quick"])
    per_round = cfg["per_round"]
    per_bin = cfg["per_bin"]
    end = time.time() + (args.secs or (cfg.get("thorough_secs", 3000) if thorough else 10 ** 9))
    total = dict(done=0, passed=0, discarded=0, nontrivial=0, steps=0)
    labels, samples, hashes, violations = {}, [], set(), []
    known = [k for k in check.known_findings() if k[0] == pid]
    suppressed = set()
    batch = Batch(pid, check)
    try:
        at = 0
        while at < count and not violations and time.time() < end:
            cases = [(str(i), make(pid, seed, i, thorough)) for i in range(at, min(count, at + per_round))]
            at += len(cases)
            res = batch.outcomes(cases, per_bin)
            bad = []
            for k, c in cases:
                total["done"] += 1
                total["steps"] += g.size(c)
                for l in g.labels(c):
                    labels[l] = labels.get(l, 0) + 1
                if g.nontrivial(c):
                    total["nontrivial"] += 1
                    hashes.add(hash(json.dumps(c, sort_keys=True)))
                if len(samples) < 3 and g.nontrivial(c) and 3 <= g.size(c) <= 7:
                    samples.append(sample(pid, c))
                if res[k] is None:
                    total["passed"] += 1
                    continue
                hit = [x for x in known if re.search(x[1], res[k][1])]
                if hit:
                    suppressed.add(hit[0])
                else:
                    bad.append((g.size(c), k, c, res[k]))
            if bad:
                bad.sort(key=lambda b: b[:2])
                _, k, c, (kind, m) = bad[0]
                first = m
                c, m = batch.shrink(c, kind, m, 300 if thorough else 150)
                path = os.path.join(check.VERIF, "replays", f"{pid}.json")
                m = clean(m)
                check.write_json(path, dict(property=pid, kind=kind, message=m, original_message=clean(first), seed=seed, case=int(k), failing=len(bad),
                                            model=c, source=g.render(c).splitlines(), sample=sample(pid, c).splitlines()))
                violations.append(dict(message=("does not compile: " if kind == "compile" else "") + m, replay=path))
    finally:
        batch.close()
    for k in sorted(suppressed):
        print(f"KNOWN-FINDING: property={pid} {k[2]}", flush=True)
    return total, labels, {}, samples or ["none"], hashes, violations, dict(compilations=batch.builds)


def sample(pid, c):
    if hasattr(GENERATORS[pid], "declaration"):
        return GENERATORS[pid].declaration(c)
    return "\n".join(f"let {s['var']} = scene! {{ {gen_scene.source(s['root'], ' ')} }};" for s in c["scenes"])


def replay(pid, rec, cfg, wd, check):
    check.sync("plain")
    batch = Batch(pid, check)
    try:
        res = batch.outcomes([("0", rec["model"])], 1)["0"]
    finally:
        batch.close()
    if res:
        check.log(clean(res[1]))
        print(f"VIOLATION property={pid} replay={os.path.join(check.VERIF, 'replays', pid + '.json')}", flush=True)
        return 1
    return 0


def setup(check):
    """Builds the dependencies with a first case."""
    for pid in GENERATORS:
        check.sync("plain")
        batch = Batch(pid, check)
        try:
            batch.compile([[("0", make(pid, 1, 0, False))]])
        except check.CheckError as e:
            check.log(e)
        finally:
            batch.close()
