#!/usr/bin/env python3
"""Runs the check of one property. See DESIGN.md.

Exit code 0: held on everything that was generated. 1: violated (VIOLATION line). 2: the check itself failed.
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
STABLE, NIGHTLY = "stable-x86_64-unknown-linux-gnu", None
COUNTING = os.path.join(VERIF, "tools", "rustc-counting")  # Puts coverage counters into the crate under test.
CORES = min(8, len(os.sched_getaffinity(0)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import CHECKS  # noqa: E402


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building

def repo_stamp():
    """A hash of everything of /repo that the build reads."""
    h = hashlib.sha256()
    files = []
    for base in ("node_tree_core", "node_tree_derive"):
        for root, dirs, names in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
            files += [os.path.join(root, n) for n in names]
    files += [os.path.join(REPO, n) for n in ("Cargo.toml", "README.md")]
    for f in sorted(files) + [COUNTING]:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def cargo_env(flavour):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", HOME="/root", RUSTC_WRAPPER=COUNTING)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    if flavour == "asan":
        env.update(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=address",
                   CARGO_TARGET_DIR=os.path.join(VERIF, "target-asan"))
    else:
        env.update(RUSTUP_TOOLCHAIN=STABLE, CARGO_TARGET_DIR=os.path.join(VERIF, "target"))
    return env


def run_cargo(args, env, cwd, timeout=850):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def sync(flavour="plain", locked=False):
    """Makes cargo build /repo's crates anew if they are not those of the last build: it looks at
    timestamps only, and a copied tree may carry old ones."""
    env = cargo_env(flavour)
    target = env["CARGO_TARGET_DIR"]
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".build-lock" if not locked else ".sync-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp, stamp_file = repo_stamp(), os.path.join(target, ".repo-stamp")
        old = open(stamp_file).read() if os.path.exists(stamp_file) else ""
        extra = ["--target", "x86_64-unknown-linux-gnu"] if flavour == "asan" else []
        if old != stamp:
            if os.path.exists(os.path.join(target, "debug")) or extra:
                run_cargo(["clean", "--offline", "-p", "node_tree", "-p", "node_tree_derive", "-p", "ntcheck"] + extra, env,
                          os.path.join(VERIF, "harness"))
            open(stamp_file, "w").write(stamp)
    return extra


def build(flavour="plain"):
    """Builds the harness against /repo's working tree, and returns the path of its binary."""
    env = cargo_env(flavour)
    target = env["CARGO_TARGET_DIR"]
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".build-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        extra = sync(flavour, locked=True)
        rc, out = run_cargo(["build", "--offline", "--locked"] + extra, env, os.path.join(VERIF, "harness"))
        if rc != 0 and "sancov" in out:
            env["RUSTC_WRAPPER"] = ""
            rc, out = run_cargo(["build", "--offline", "--locked"] + extra, env, os.path.join(VERIF, "harness"))
        if rc != 0:
            tail = "\n".join(l for l in out.splitlines()[-60:])
            raise CheckError("the harness does not build against /repo:\n" + tail)
    sub = os.path.join("x86_64-unknown-linux-gnu", "debug") if extra else "debug"
    return os.path.join(target, sub, "ntcheck")


# ---------------------------------------------------------------- running cases

def limits(flavour):
    def f():
        import resource
        if flavour != "asan":
            resource.setrlimit(resource.RLIMIT_AS, (5 << 29, 5 << 29))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_env(flavour, extra=None):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_segv=1:hard_rss_limit_mb=2560"
    env.pop("NTCHECK_PANICS", None)
    env.update(extra or {})
    return env


def worker(binary, flavour, args, env=None):
    return subprocess.Popen([binary] + args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                            stderr=subprocess.PIPE, preexec_fn=limits(flavour), env=run_env(flavour, env), cwd=WORK_DIR[0])


WORK_DIR = [WORK]
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def verdict(rc, err):
    """What the exit of a `replay` process means: (kind, message)."""
    if rc == 0:
        return "pass", ""
    if rc == 3:
        m = re.search(r"violated: (.*)", err, re.S)
        return "violation", (m.group(1).strip() if m else "violated")
    if rc == 4:
        return "discard", ""
    if rc == 77:
        return "violation", "deadlock: the thread waits for a lock that nobody can release"
    if rc == 78:
        return "violation", "the case does not end: it took all the processor time a case may take"
    if rc < 0 and -rc in {int(s) for s in CRASH_SIGNALS}:
        asan = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
        ub = re.search(r"unsafe precondition\(s\) violated[^\n]*", err)
        what = asan.group(1) if asan else (ub.group(0) if ub else "")
        return "violation", f"the process died of {signal.Signals(-rc).name}" + (f": {what}" if what else "")
    return "error", f"exit {rc}: {err[-400:]}"


def replay(binary, flavour, pid, tape=None, seed=None, case=None, extra=(), timeout=120):
    d = WORK_DIR[0]
    args = ["replay", "--pid", pid] + list(extra)
    if tape is not None:
        f = os.path.join(d, "tape")
        with open(f, "w") as h:
            h.write(" ".join(map(str, tape)))
        args += ["--tape", f]
    else:
        args += ["--seed", str(seed), "--case", str(case)]
    p = worker(binary, flavour, args, dict(NTCHECK_CPU="10"))
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return "error", "timeout"
    return verdict(p.returncode, err.decode("utf-8", "replace"))


def shrink(binary, flavour, pid, tape, extra, budget=700, secs=90):
    """Reduces a failing tape: deletes and lowers draws for as long as the property stays violated."""
    end = time.time() + secs
    runs = [0]

    def fails(t):
        if runs[0] >= budget or time.time() > end:
            return False
        runs[0] += 1
        return replay(binary, flavour, pid, tape=t, extra=extra)[0] == "violation"

    best = list(tape)
    improved = True
    while improved and runs[0] < budget and time.time() < end:
        improved = False
        # Cut the end off.
        lo, hi = 0, len(best)
        while lo < hi:
            mid = (lo + hi) // 2
            if fails(best[:mid]):
                hi = mid
            else:
                lo = mid + 1
        if hi < len(best) and fails(best[:hi]):
            best, improved = best[:hi], True
        size = max(1, len(best) // 4)
        while size >= 1:
            i = 0
            while i < len(best):
                cand = best[:i] + best[i + size:]
                if len(cand) < len(best) and fails(cand):
                    best, improved = cand, True
                else:
                    i += size
                if runs[0] >= budget:
                    break
            size //= 2
        for i in range(len(best)):
            if best[i] and fails(best[:i] + [0] + best[i + 1:]):
                best[i], improved = 0, True
            elif best[i] > 1 and fails(best[:i] + [best[i] // 2] + best[i + 1:]):
                best[i], improved = best[i] // 2, True
        while best and best[-1] == 0 and fails(best[:-1]):
            best = best[:-1]
    return best, runs[0]


COUNTS = ("done", "passed", "discarded", "nontrivial", "steps", "led", "led_new", "edges", "edges_random")


def explore(pid, binary, flavour, seed, workers, cases, led, secs, extra, hard_timeout):
    """Runs `cases` random cases over the workers, and `led` ones which the coverage leads. Returns the merged counts and
    a violation, if there is one."""
    d = WORK_DIR[0]
    procs = []
    for w in range(workers):
        n = cases // workers + (1 if w < cases % workers else 0)
        out = os.path.join(d, f"w{w}")
        args = ["run", "--pid", pid, "--seed", str(seed), "--start", str(w), "--stride", str(workers),
                "--count", str(n), "--led", str(led // workers), "--secs", str(secs), "--out", out] + list(extra)
        err = open(out + ".err", "wb")
        p = subprocess.Popen([binary] + args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                             preexec_fn=limits(flavour), env=run_env(flavour), cwd=d)
        procs.append((p, out))
    end = time.time() + hard_timeout
    crashed = None
    found = None
    pending = list(procs)
    while pending and not crashed and not found:
        time.sleep(0.05)
        for p, out in list(pending):
            rc = p.poll()
            if rc is None:
                continue
            pending.remove((p, out))
            if rc == 0:
                if json.load(open(out + ".json"))["violation"]:
                    found = out
            else:
                crashed = (rc, out)
        if time.time() > end:
            for p, _ in pending:
                p.kill()
            raise CheckError("the workers did not finish in time (a case hangs, or the machine is too slow)")
    for p, _ in pending:
        p.kill()
    for p, _ in procs:
        p.wait()

    total = dict.fromkeys(COUNTS, 0)
    labels, discards, samples, hashes = {}, {}, [], set()
    violations = []
    for _, out in procs:
        if not os.path.exists(out + ".json"):
            continue
        j = json.load(open(out + ".json"))
        for k in total:
            total[k] = max(total[k], j[k]) if k in ("edges", "edges_random") else total[k] + j[k]
        for k, v in j["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in j["discards"].items():
            discards[k] = discards.get(k, 0) + v
        samples += j["samples"]
        if j["violation"]:
            violations.append(j["violation"])
        raw = open(out + ".hashes", "rb").read()
        hashes.update(struct.unpack(f"<{len(raw) // 8}Q", raw))
    if crashed and not violations:
        rc, out = crashed
        err = open(out + ".err", "rb").read().decode("utf-8", "replace")
        kind, msg = verdict(rc, err)
        case = struct.unpack("<Q", open(out + ".cur", "rb").read(8))[0]
        if kind != "violation":
            raise CheckError(f"a worker failed at case {case}: {msg}")
        # Get the draws of that case: they are written out as they are made.
        dump = os.path.join(d, "dump")
        tape = led = None
        if os.path.exists(out + ".led"):
            led = open(out + ".led").read().split()
        for _ in range(4):
            k, m = replay(binary, flavour, pid, tape=led, seed=seed, case=case,
                          extra=list(extra) + ["--dump", dump] + (["--led"] if led else []))
            if k == "violation":
                tape = [int(x) for x in open(dump).read().split()]
                msg = m
                break
        violations.append(dict(case=case, message=msg, tape=tape))
    return total, labels, discards, samples, hashes, violations


# ---------------------------------------------------------------- known findings

def known_findings():
    """Signatures of the genuine defects that are recorded rather than repaired: (property, regular expression, text)."""
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"KNOWN-FINDING: property=(\S+) signature=/(.*?)/ (.*)", line.rstrip("\n"))
            if m:
                out.append(m.groups())
    return out


# ---------------------------------------------------------------- main

def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".part", "w") as f:
        json.dump(obj, f, indent=1)
    os.replace(path + ".part", path)


def run_property(pid, tier, seed, args):
    began = time.time()
    cfg = CHECKS[pid]
    wd = os.path.join(WORK, f"{pid}-{os.getpid()}")
    os.makedirs(wd, exist_ok=True)
    WORK_DIR[0] = wd
    # Everything a case writes to disk goes here.
    os.environ["NTCHECK_TMP"] = wd
    try:
        if cfg.get("codegen"):
            import codegen
            res = codegen.run(pid, tier, seed, cfg, wd, args, sys.modules[__name__])
        else:
            res = run_cases(pid, tier, seed, cfg, args)
        total, labels, discards, samples, hashes, violations, notes = res
        coverage = dict(
            evaluations=total["done"], distinct_nontrivial=len(hashes), rule=cfg["rule"],
            samples=samples[:4] or ["none"], passed=total["passed"], discarded=total["discarded"],
            nontrivial=total["nontrivial"], steps=total["steps"], classes=labels, discard_reasons=discards)
        if "led" in total:
            coverage["coverage_guided"] = dict(cases=total["led"], that_ran_something_new=total["led_new"],
                                               edges_after_the_random_cases=total["edges_random"], edges=total["edges"])
        coverage.update(notes)
        write_json(os.path.join(VERIF, "evidence", pid + ".json"), dict(
            property=pid, tier=tier, seed=seed, level="exploration", coverage=coverage,
            assumptions=cfg["assumptions"], wall_s=round(time.time() - began, 2),
            violations=len(violations), violation_list=[dict(message=v["message"], replay=v["replay"]) for v in violations]))
        log(f"{pid}: {total['done']} cases, {len(hashes)} distinct non-trivial, {total['discarded']} discarded, "
            f"{time.time() - began:.1f} s")
        for v in violations:
            log(f"{pid}: {v['message']}")
            print(f"VIOLATION property={pid} replay={v['replay']}", flush=True)
        if violations:
            return 1
        if total["passed"] == 0 and total["done"] > 0 and not discards.get("diverged"):
            raise CheckError("every case was discarded")
        return 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run_cases(pid, tier, seed, cfg, args):
    thorough = tier == "thorough"
    flavour = cfg.get("flavour", "plain")
    extra = ["--thorough"] if thorough else []
    known = [k for k in known_findings() if k[0] == pid]
    total, labels, discards, samples, hashes = dict.fromkeys(COUNTS, 0), {}, {}, [], set()
    violations, suppressed = [], set()
    for flav in (flavour if isinstance(flavour, list) else [flavour]):
        binary = build(flav)
        cases = cfg["thorough"] if thorough else cfg["quick"]
        if isinstance(cases, dict):
            cases = cases[flav]
        secs = args.secs or (cfg.get("thorough_secs", 3000) if thorough else 0)
        hard = 5400 if thorough else 640
        for _round in range(20):
            n = args.cases or cases
            t, l, d, s, h, v = explore(pid, binary, flav, seed, CORES, n, n if secs else n // 5, secs, extra, hard)
            for k in total:
                total[k] = max(total[k], t[k]) if k in ("edges", "edges_random") else total[k] + t[k]
            for k, n in l.items():
                labels[k] = labels.get(k, 0) + n
            for k, n in d.items():
                discards[k] = discards.get(k, 0) + n
            samples += s
            hashes |= h
            fresh = []
            for x in v:
                hit = [k for k in known if re.search(k[1], x["message"])]
                if hit:
                    suppressed.update(hit)
                else:
                    fresh.append(x)
            if not v or fresh:
                break
            seed += 1000003  # Only known findings: go on with other cases.
        for x in fresh[:1]:
            violations.append(save_replay(pid, binary, flav, x, extra, seed))
        if violations:
            break
    # The inputs of known findings are kept out of the cases where they would come up in many, and are tried here.
    if known:
        p = worker(binary, flav, ["probe", "--pid", pid])
        _, err = p.communicate(timeout=120)
        for line in err.decode("utf-8", "replace").splitlines():
            suppressed.update(k for k in known if re.search(k[1], line))
    for k in sorted(suppressed):
        print(f"KNOWN-FINDING: property={pid} {k[2]}", flush=True)
    return total, labels, discards, samples, hashes, violations, {}


def save_replay(pid, binary, flavour, v, extra, seed):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{pid}.json")
    tape, runs, msg = v["tape"], 0, v["message"]
    if tape is not None:
        small, runs = shrink(binary, flavour, pid, tape, extra)
        k, m = replay(binary, flavour, pid, tape=small, extra=extra)
        if k == "violation":
            tape, msg = small, m
    rec = dict(property=pid, flavour=flavour, message=msg, original_message=v["message"], seed=seed, case=v["case"],
               thorough=bool(extra), tape=tape, shrink_runs=runs)
    if tape is not None:
        f = os.path.join(WORK_DIR[0], "tape")
        open(f, "w").write(" ".join(map(str, tape)))
        p = worker(binary, flavour, ["replay", "--pid", pid, "--tape", f, "--trace"] + extra)
        try:
            _, err = p.communicate(timeout=120)
            rec["trace"] = err.decode("utf-8", "replace").splitlines()[:200]
        except subprocess.TimeoutExpired:
            p.kill()
    write_json(path, rec)
    return dict(message=msg, replay=path)


def do_replay(pid, path):
    rec = json.load(open(path))
    cfg = CHECKS[pid]
    wd = os.path.join(WORK, f"{pid}-replay-{os.getpid()}")
    os.makedirs(wd, exist_ok=True)
    WORK_DIR[0] = wd
    os.environ["NTCHECK_TMP"] = wd
    try:
        if cfg.get("codegen"):
            import codegen
            return codegen.replay(pid, rec, cfg, wd, sys.modules[__name__])
        flav = rec["flavour"]
        binary = build(flav)
        extra = ["--thorough"] if rec["thorough"] else []
        f = os.path.join(wd, "tape")
        if rec["tape"] is not None:
            open(f, "w").write(" ".join(map(str, rec["tape"])))
            a = ["replay", "--pid", pid, "--tape", f, "--trace"]
        else:
            a = ["replay", "--pid", pid, "--seed", str(rec["seed"]), "--case", str(rec["case"]), "--trace"]
        p = worker(binary, flav, a + extra)
        _, err = p.communicate(timeout=120)
        err = err.decode("utf-8", "replace")
        log(err)
        kind, msg = verdict(p.returncode, err)
        if kind == "violation":
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            return 1
        return 0 if kind in ("pass", "discard") else 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--secs", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    args = ap.parse_args()
    try:
        if args.setup:
            for flav in sorted({f for c in CHECKS.values() for f in ([c["flavour"]] if isinstance(c.get("flavour"), str) else c.get("flavour", ["plain"]))}):
                log("building", flav)
                build(flav)
            if any(c.get("codegen") for c in CHECKS.values()):
                import codegen
                codegen.setup(sys.modules[__name__])
            return 0
        if args.replay:
            return do_replay(args.property, os.path.abspath(args.replay))
        return run_property(args.property, args.tier, args.seed, args)
    except CheckError as e:
        log(f"ERROR {args.property}: {e}")
        return 2
    except subprocess.TimeoutExpired as e:
        log(f"ERROR {args.property}: timeout: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
