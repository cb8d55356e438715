#!/usr/bin/env python3
"""Builds and runs the check of one property: python3 run.py C01.

Environment: VERIF_SEED, VERIF_TIER=quick|thorough.  Exit 0: held on all cases
explored; exit 1 with a VIOLATION line: broken.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RST_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
sys.path.insert(0, VERIF)
from checks import CHECKS, FLAVOURS  # noqa: E402

LOG = sys.stderr


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


class Builder:
    def __init__(self):
        self.headers = sorted(p for p in glob.glob(os.path.join(REPO, "rst", "**", "*"), recursive=True)
                              if os.path.isfile(p) and not p.endswith(".cc"))
        self.lib_headers = sorted(glob.glob(os.path.join(VERIF, "lib", "*.h")))
        self.repo_hash = file_hash(self.headers)
        self.lib_hash = file_hash(self.lib_headers)

    def sources(self):
        return [p for p in sorted(glob.glob(os.path.join(REPO, "rst", "**", "*.cc"), recursive=True))
                if not p.endswith("_test.cc")]

    def closure(self, start):
        """Non-test sources of every module reachable through includes."""
        by_dir = {}
        for p in self.sources():
            by_dir.setdefault(os.path.dirname(p), []).append(p)
        seen, todo, dirs = set(), list(start), set()
        while todo:
            f = todo.pop()
            if f in seen or not os.path.exists(f):
                continue
            seen.add(f)
            with open(f, errors="replace") as fh:
                for m in re.findall(r'^\s*#\s*include\s*["<](rst/[^">]+)[">]', fh.read(), re.M):
                    p = os.path.join(REPO, m)
                    todo.append(p)
                    d = os.path.dirname(p)
                    if d not in dirs:
                        dirs.add(d)
                        todo += by_dir.get(d, [])
        return [p for p in self.sources() if os.path.dirname(p) in dirs]

    def compile(self, src, flavour, role):
        fl = FLAVOURS[flavour]
        flags = fl["common"] + fl.get(role, fl.get("harness", []) if role == "lib" else [])
        with open(src, "rb") as f:
            body = f.read()
        key = hashlib.sha256("\0".join([fl["cxx"], " ".join(flags), src, self.repo_hash,
                                        self.lib_hash if role != "rst" else ""]).encode() + body).hexdigest()[:32]
        obj = os.path.join(BUILD, flavour, os.path.basename(src) + "." + key + ".o")
        if os.path.exists(obj):
            return obj, None
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + f".{os.getpid()}.tmp"
        r = sh([fl["cxx"], "-std=c++17"] + flags +
               ["-I", REPO, "-I", os.path.join(VERIF, "lib"), "-c", src, "-o", tmp])
        if r.returncode != 0:
            return None, f"{src}:\n{r.stdout[-6000:]}"
        os.rename(tmp, obj)
        return obj, None

    def build(self, check, flavour):
        spec = CHECKS[check]
        fl = FLAVOURS[flavour]
        harness = [os.path.join(VERIF, "harness", h) for h in spec["harness"]]
        libs = [os.path.join(VERIF, "lib", l) for l in fl.get("libs", ["pbt.cc", "alloc.cc"]) + spec.get("libs", [])]
        rst = self.closure(harness + self.lib_headers_used(harness + libs))
        for attempt in range(2):
            jobs = [(s, "harness") for s in harness] + [(s, "lib") for s in libs] + [(s, "rst") for s in rst]
            with cf.ThreadPoolExecutor(max_workers=8) as ex:
                res = list(ex.map(lambda j: self.compile(j[0], flavour, j[1]), jobs))
            errs = [e for _, e in res if e]
            if errs:
                # The library compiles, documented uses of it do not.
                uses = all(j[1] == "harness" for j, (_, e) in zip(jobs, res) if e)
                return None, ("USES\n" if uses else "") + "\n".join(errs)
            objs = [o for o, _ in res]
            key = hashlib.sha256(("\0".join(objs) + " ".join(fl.get("link", []))).encode()).hexdigest()[:24]
            exe = os.path.join(BUILD, flavour, f"{check}.{key}")
            if os.path.exists(exe):
                return exe, None
            tmp = exe + f".{os.getpid()}.tmp"
            r = sh([fl["cxx"], "-std=c++17"] + fl["common"] + fl.get("link", []) + objs + ["-o", tmp, "-pthread", "-ldl"])
            if r.returncode == 0:
                os.rename(tmp, exe)
                return exe, None
            if attempt == 0:
                rst = self.sources()  # A module we did not see through includes.
                continue
            return None, r.stdout[-6000:]

    def lib_headers_used(self, files):
        used = []
        for f in files:
            with open(f, errors="replace") as fh:
                for m in re.findall(r'^\s*#\s*include\s*"([^"/]+\.h)"', fh.read(), re.M):
                    p = os.path.join(VERIF, "lib", m)
                    if os.path.exists(p):
                        used.append(p)
        return used


def load_known(prop):
    """Listed findings: lines 'KNOWN-FINDING property=<id> id=<tag> <text>'."""
    known = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    spec = CHECKS[prop]
    t0 = time.time()
    evidence_dir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    evidence = os.path.join(evidence_dir, prop + ".json")
    os.makedirs(evidence_dir, exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    replay_dir = os.path.join(os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays")), prop)
    shutil.rmtree(replay_dir, ignore_errors=True)
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass

    b = Builder()
    runs = spec["runs"] + (spec.get("thorough_runs", []) if tier == "thorough" else [])
    tb = time.time()
    exes = []
    # Build all flavours concurrently.
    fls = sorted(set(r["flavour"] for r in runs))
    with cf.ThreadPoolExecutor(max_workers=len(fls)) as ex:
        built = dict(zip(fls, ex.map(lambda f: b.build(prop, f), fls)))
    for f in fls:
        exe, err = built[f]
        if exe is None and err.startswith("USES"):
            path = os.path.join(replay_dir, f"{f}-compile.replay")
            with open(path, "w") as fh:
                fh.write(f"uses of the library that must compile do not ({f} flags):\n{err[5:]}\n")
            print(err[:3000], file=LOG)
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        if exe is None:
            print(f"check {prop}: build of flavour {f} failed\n{err}", file=LOG)
            print(f"check {prop}: BUILD FAILED ({f}); no answer")
            return 2
    build_s = time.time() - tb

    scenarios, violations, notes = [], [], []
    for r in runs:
        if r["flavour"].endswith("fuzz"):
            continue
        # A check has 900 s: stop early with the answer known, cut the last runs short.
        if violations and time.time() - t0 > 240:
            notes.append(f"{r['flavour']} not run: a violation was found already")
            continue
        exe = built[r["flavour"]][0]
        out = os.path.join(BUILD, f"{prop}.{os.getpid()}.json")
        cmd = [exe, "--seed", str(seed * 64 + runs.index(r)), "--tier", tier, "--out", out, "--replay-dir", replay_dir,
               "--jobs", str(jobs), "--tag", r["flavour"], "--scale", str(r.get("scale", 1.0) * scale)]
        if tier == "quick":
            cmd += ["--cap", str(max(30, int(700 - (time.time() - t0))))]
        if r.get("scenario"):
            cmd += ["--scenario", r["scenario"]]
        env = dict(os.environ)
        env.update(r.get("env", {}))
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, env=env)
        if not os.path.exists(out):
            print(f"check {prop}: {r['flavour']} run gave no result (exit {p.returncode})", file=LOG)
            print(f"check {prop}: RUN FAILED ({r['flavour']}); no answer")
            return 2
        res = json.load(open(out))
        os.unlink(out)
        for s in res["scenarios"]:
            s["flavour"] = r["flavour"]
            scenarios.append(s)
            for f in s["failures"]:
                f["scenario"], f["flavour"] = s["name"], r["flavour"]
                if f.get("reproduced"):
                    f["exe"] = exe
                    violations.append(f)
                else:
                    notes.append(f"unreproduced in {r['flavour']}/{s['name']}: {f['message'][:300]}")

    if tier == "thorough" and not violations:
        for r in runs:
            if not r["flavour"].endswith("fuzz"):
                continue
            violations += run_fuzz(prop, built[r["flavour"]][0], r, seed, replay_dir, scenarios, notes, jobs)

    known = load_known(prop)
    listed = set()
    fresh = []
    for v in violations:
        m = re.search(r"KF\[(\S+?)\]", v["message"])
        if m and m.group(1) in known:
            listed.add(m.group(1))
        else:
            fresh.append(v)
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")

    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in scenarios),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in scenarios),
            "rule": "; ".join(f"{s['name']}: {s['rule']}" for s in
                              {s["name"]: s for s in scenarios}.values()),
            "samples": [x for s in scenarios for x in s["samples"][:1]][:12] or ["none"],
            "scenarios": [{k: s[k] for k in ("name", "flavour", "planned", "evaluations", "nontrivial",
                                             "distinct_nontrivial", "labels", "capped", "wall_s") if k in s}
                          for s in scenarios],
            "build_s": round(build_s, 1),
            "notes": notes,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    tmp = evidence + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, evidence)
    if fresh:
        for v in fresh:
            print(f"--- {prop} {v['flavour']}/{v['scenario']}: {v['message'][:1500]}")
            if v.get("trace"):
                print(v["trace"][:2500])
            print(f"VIOLATION property={prop} replay={v['replay']}")
        return 1
    print(f"{prop}: held on {ev['coverage']['evaluations']} cases "
          f"({ev['coverage']['distinct_nontrivial']} distinct non-trivial), {wall:.1f} s, build {build_s:.1f} s")
    return 0


def run_fuzz(prop, exe, r, seed, replay_dir, scenarios, notes, jobs):
    """Coverage-guided search (libFuzzer) over the same scenarios."""
    out = []
    secs = int(os.environ.get("VERIF_FUZZ_S", r.get("seconds", 300)))
    for scen in r["scenarios"]:
        work = os.path.join(BUILD, f"fuzz.{prop}.{scen}.{os.getpid()}")
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(os.path.join(work, "corpus"))
        procs = []
        for j in range(jobs):
            env = dict(os.environ, PBT_SCENARIO=scen, PBT_SCRATCH=work)
            lf = open(os.path.join(work, f"log{j}"), "w")
            procs.append((subprocess.Popen(
                [exe, os.path.join(work, "corpus"), f"-seed={seed * 1000 + j + 1}", f"-max_total_time={secs}",
                 f"-artifact_prefix={work}/crash-{j}-", "-max_len=2048", "-print_final_stats=1", "-reload=1",
                 "-timeout=60", "-rss_limit_mb=4096", "-use_value_profile=1"],
                stdout=lf, stderr=lf, env=env), j))
        for p, _ in procs:
            p.wait()
        execs = 0
        for _, j in procs:
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", open(os.path.join(work, f"log{j}"), errors="replace").read())
            execs += int(m.group(1)) if m else 0
        corpus = len(os.listdir(os.path.join(work, "corpus")))
        s = {"name": scen, "flavour": r["flavour"], "planned": 0, "evaluations": execs, "nontrivial": corpus,
             "distinct_nontrivial": corpus, "labels": {}, "capped": False, "wall_s": secs, "failures": [],
             "rule": "coverage-guided byte streams decoded to choices; distinct non-trivial: corpus entries reaching new coverage",
             "samples": []}
        for c in sorted(glob.glob(os.path.join(work, "crash-*"))):
            if os.path.basename(c).split("-")[2] not in ("crash", "timeout") and "-crash-" not in c and "-timeout-" not in c:
                continue
            fails = 0
            text = ""
            for _ in range(3):
                q = sh([exe, c, "-timeout=60"], env=dict(os.environ, PBT_SCENARIO=scen, PBT_SCRATCH=work))
                fails += q.returncode != 0
                text = q.stdout
            if fails == 3:
                dst = os.path.join(replay_dir, f"fuzz-{scen}.bytes")
                shutil.copy(c, dst)
                out.append({"reproduced": True, "replay": dst, "message": text[-1500:], "scenario": scen,
                            "flavour": r["flavour"], "trace": ""})
                break
        scenarios.append(s)
        shutil.rmtree(work, ignore_errors=True)
    return out


if __name__ == "__main__":
    sys.exit(main())
