#!/usr/bin/env python3
"""Runs the property checks against /repo.

  run.py setup                     build the harness for both runtimes
  run.py check ID [quick|thorough] decide one property (default tier: $VERIF_TIER or quick)
  run.py all [quick|thorough]      all properties, one after the other
  run.py replay FILE               run the one case of a replay file again

Seed: $VERIF_SEED (default 1). Exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
"""
import fcntl, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
RUNTIMES = ["tokio", "async-std"]
PEER_ONLY = {"P20": ["tokio"]}  # the tokio binary drives the async-std one
LEVEL = {"P08": "fault_enumeration"}
TOOLCHAIN = "+stable-x86_64-unknown-linux-gnu"
LIMIT = {"quick": 700, "thorough": 7200}
THREADS = 4  # per runtime; fixed, because the cases depend on it


class Broken(Exception):
    """The check cannot give an answer."""


def binary(rt):
    return os.path.join(TARGET, rt, "debug", "harness")


def env(**more):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "HARNESS_JOURNAL"):
        e.pop(k, None)
    # The lints that /repo denies must not decide whether it can be checked.
    e.update(CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints warn", HARNESS_PEER=binary("async-std"))
    e.update(more)
    return e


def build():
    """Builds both harness binaries from /repo's current working tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = []
        for rt in RUNTIMES:
            # cargo judges by modification times; an edit with an old time stamp must be seen too.
            for name in ("async-smtp", "harness"):
                for d in glob.glob(os.path.join(TARGET, rt, "debug", ".fingerprint", name + "-*")):
                    shutil.rmtree(d)
            cmd = ["cargo", TOOLCHAIN, "build", "--locked", "--offline", "--features", rt + "-rt"]
            jobs.append((rt, subprocess.Popen(cmd, cwd=HARNESS, env=env(CARGO_TARGET_DIR=os.path.join(TARGET, rt)),
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bad = []
        for rt, p in jobs:
            out = p.communicate()[0]
            if p.returncode != 0:
                bad.append(f"the {rt} build failed:\n{out[-4000:]}")
        if bad:
            raise Broken("\n".join(bad))


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def start(args, **more):
    return subprocess.Popen(args, env=env(**more), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True, preexec_fn=limits, start_new_session=True)


def finish(p, timeout):
    """(report or None, how it ended)"""
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, f"no end after {timeout:.0f} s"
    if p.returncode == 0:
        try:
            return json.loads(out.strip().split("\n")[-1]), ""
        except (ValueError, IndexError):
            pass
    return None, f"harness ended with {p.returncode}: {err[-1500:]}"


def crashed(rt, prop, tier, seed, why, deadline):
    """The process died (stack overflow, memory, ...): run again, noting each case before it is
    run, and try the last case of each thread by itself."""
    with tempfile.TemporaryDirectory(prefix="journal-", dir=TARGET) as d:
        p = start([binary(rt), "check", prop, tier, str(seed), str(THREADS)], HARNESS_JOURNAL=d)
        report, _ = finish(p, max(10, deadline - time.time()))
        if report is not None:
            raise Broken(f"{prop} on {rt}: {why}; not again in a second run")
        for f in sorted(glob.glob(os.path.join(d, "*.json"))):
            try:
                case = json.load(open(f))
            except ValueError:
                continue
            case["property"] = prop
            path = os.path.join(d, "try")
            json.dump(case, open(path, "w"))
            report, how = finish(start([binary(rt), "replay", path]), 120)
            if report is None:
                case["message"] = "the process dies: " + how
                return case
            if report.get("violation"):
                return report["violation"]
    raise Broken(f"{prop} on {rt}: {why}; no single case does it")


def known_findings():
    """Lines "known: property=ID case={JSON} -- what fails" of KNOWN_FINDINGS.txt."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) case=(\{.*\}) -- (.*)$", line.strip())
            if m:
                out.append({"property": m[1], "case": json.loads(m[2]), "what": m[3]})
    return out


def check(prop, tier, seed):
    began = time.time()
    deadline = began + LIMIT[tier]
    build()
    built = time.time()
    rts = PEER_ONLY.get(prop, RUNTIMES)
    procs = {rt: start([binary(rt), "check", prop, tier, str(seed), str(THREADS * 2 // len(rts))]) for rt in rts}
    reports, violations = {}, []
    dead = []
    for rt, p in procs.items():
        report, why = finish(p, max(10, deadline - time.time()))
        if report is None:
            dead.append((rt, why))
        else:
            reports[rt] = report
            if report.get("violation"):
                violations.append(report["violation"])
    if not violations:
        for rt, why in dead:
            violations.append(crashed(rt, prop, tier, seed, why, deadline))
        for rt, r in reports.items():
            if r.get("error"):
                raise Broken(f"{prop} on {rt}: {r['error']}")
    for f in known_findings():
        if f["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    known = [f["case"] for f in known_findings() if f["property"] == prop]
    new = [v for v in violations if v.get("case") not in known]

    evidence(prop, tier, seed, reports, len(new), time.time() - began, built - began)
    if not new:
        print(f"{prop} {tier} seed {seed}: held; "
              + ", ".join(f"{rt} {r['cases']} cases ({r['distinct_nontrivial']} distinct non-trivial)" for rt, r in reports.items())
              + f"; {time.time() - began:.1f} s")
        return 0
    for v in new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}-{v['runtime']}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print(f"{prop} on {v['runtime']}, part {v['part']}: {v['message']}"[:3000])
        print(f"VIOLATION property={prop} replay={path}")
    return 1


def evidence(prop, tier, seed, reports, violations, wall, build_s):
    parts, labels, samples = {}, {}, []
    for rt, r in reports.items():
        for p in r["parts"]:
            d = parts.setdefault(p["part"], {})
            d[rt] = {"cases": p["cases"], "nontrivial": p["nontrivial"]}
        for k, n in r["labels"].items():
            labels.setdefault(k, {})[rt] = n
        samples += r["samples"]
    coverage = {
        "evaluations": sum(r["cases"] for r in reports.values()),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in reports.values()),
        "rule": next((r["rule"] for r in reports.values()), ""),
        "samples": samples[:12],
        "executions_of_the_code": sum(r["execs"] for r in reports.values()),
        "runtimes": RUNTIMES if prop in PEER_ONLY else sorted(reports),
        "parts": parts,
        "classes": labels,
    }
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
        "coverage": coverage,
        "assumptions": [
            "the reference server, the simulated transport and the reference decoders of /verif/harness are right",
            "generated cases stand for all cases; bounds are in DESIGN.md",
        ],
        "wall_s": round(wall, 2), "build_s": round(build_s, 2), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


def replay(path):
    build()
    v = json.load(open(path))
    report, why = finish(start([binary(v["runtime"]), "replay", path]), 300)
    if report is None:
        print(why)
        return 1
    if report.get("error"):
        raise Broken(report["error"])
    if report.get("violation"):
        print(report["violation"]["message"])
        print(f"VIOLATION property={v['property']} replay={path}")
        return 1
    print("the case passes")
    return 0


def main(argv):
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if argv[:1] == ["setup"]:
        build()
        return 0
    if argv[:1] == ["check"] and len(argv) in (2, 3):
        return check(argv[1], argv[2] if len(argv) == 3 else tier, seed)
    if argv[:1] == ["all"]:
        return max(check("P%02d" % i, argv[1] if len(argv) == 2 else tier, seed) for i in range(1, 24))
    if argv[:1] == ["replay"] and len(argv) == 2:
        return replay(os.path.abspath(argv[1]))
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except Broken as e:
        print("no answer:", e)
        sys.exit(2)
