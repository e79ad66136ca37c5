#!/usr/bin/env python3
"""Confirms the planted bugs of /verif/seeded in copies under /tmp/sv: a development tool, run by no check.

  seeds.py run RESULTS.jsonl [--workers N] [ID...]
"""
import argparse, fcntl, json, os, subprocess, sys, time

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def judge(i, src):
    d = f"{src}/{i}"
    r = dict(id=i)
    meta = json.load(open(f"{d}/meta.json"))
    pid = meta["property"]
    git = ["git", "-C", "/repo", "-c", "safe.directory=*"]
    sh(git + ["checkout", "--", "."])
    p = sh(["bash", f"{d}/demo.sh"], cwd="/repo")
    r["clean_demo"] = p.returncode
    if p.returncode:
        r["clean_out"] = p.stdout[-1500:]
    p = sh(git + ["apply", f"{d}/patch.diff"])
    if p.returncode:
        r["apply"] = p.stdout
        return r
    try:
        p = sh(["bash", "/opt/vp/build.sh"])
        r["build"] = p.returncode
        if p.returncode:
            r["build_out"] = p.stdout[-1500:]
            return r
        p = sh(["bash", "/opt/vp/test.sh", "/tmp/sv_o.json"])
        r["tests"] = p.stdout.splitlines()[-1]
        p = sh(["bash", f"{d}/demo.sh"], cwd="/repo")
        r["bug_demo"] = p.returncode
        r["bug_out"] = p.stdout[-300:]
        t = time.time()
        p = sh(["python3", "tools/check.py", pid, "--tier", "quick", "--seed", "1"], cwd="/verif")
        r["check"] = p.returncode
        r["t"] = round(time.time() - t, 1)
        r["out"] = p.stdout[-400:]
        r["ok"] = r["clean_demo"] == 0 and r["bug_demo"] != 0 and "18 passed, 0 failed" in r["tests"] and p.returncode == 1
        if p.returncode != 1 and os.environ.get("OTHERS"):
            r["others"] = []
            sys.path.insert(0, "/verif/tools")
            from config import CHECKS
            for q in CHECKS:
                if q != pid and sh(["python3", "tools/check.py", q, "--tier", "quick"], cwd="/verif").returncode == 1:
                    r["others"].append(q)
                    break
    finally:
        sh(git + ["checkout", "--", "."])
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("results")
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--workers", type=int, default=2)
    ap.add_argument("--src", default="/verif/seeded")
    a = ap.parse_intermixed_args()
    if a.what == "worker":
        for i in a.ids:
            r = judge(i, a.src)
            with open(a.results, "a") as o:
                fcntl.flock(o, fcntl.LOCK_EX)
                o.write(json.dumps(r) + "\n")
        return
    ids = a.ids or sorted(os.listdir("/verif/seeded"))
    os.makedirs("/tmp/sv", exist_ok=True)
    sh(["rsync", "-a", "--delete", "/verif/seeded/", "/tmp/sv/seeded/"])
    procs = []
    for w in range(a.workers):
        d = f"/tmp/sv/{w}"
        os.makedirs(d, exist_ok=True)
        for what in ("repo", "verif"):
            sh(["rsync", "-a", "--delete", "--exclude", "/work", f"/{what}/", f"{d}/{what}/"])
        per = max(1, 8 // a.workers)
        inner = (f"mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && exec taskset -c {w * per}-{w * per + per - 1} python3 tools/dev/seeds.py worker "
                 f"{os.path.abspath(a.results)} --src /tmp/sv/seeded " + " ".join(ids[w::a.workers]))
        procs.append(subprocess.Popen(["unshare", "-Urm", "bash", "-c", inner], stdout=open(f"{d}/log", "w"), stderr=subprocess.STDOUT))
    for p in procs:
        p.wait()
    for l in open(a.results):
        r = json.loads(l)
        print(r["id"], "OK" if r.get("ok") else {k: v for k, v in r.items() if k != "id"}, r.get("t"))

main()
