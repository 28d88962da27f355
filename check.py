#!/usr/bin/env python3
"""check.py <property> | --setup | --replay <file>

Builds the harness from /repo's working tree, runs one property in every feature configuration it is
stated for, writes evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit status: 0 held, 1 violated, 2 error of the check itself.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
WORK = os.path.join(HERE, "work")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THREADS = str(os.cpu_count() or 8)

# name: (cargo features, release build)
CONFIGS = {
    "main": ("ext,quirk,taggen", False),  # all extensions and the default quirks
    "ser": ("ext,quirk,ser,taggen", False),  # the same with serde
    "strict": ("ext", False),  # all extensions, no quirk
    "min": ("quirk", False),  # no extension
    "bare": ("", False),  # no feature at all
    "relaxed": ("ext,quirk,relaxed,idnil", False),  # opt-in quirks as well
    "arb": ("ext,quirk,taggen,arb", False),  # Arbitrary implementations
    "arbmin": ("quirk,arb", False),  # the same without extensions
    "arbsimple": ("ext,quirk,simplified", False),  # the simplified ones
    "rel": ("ext,quirk,taggen", True),  # release build
    # Some extensions and quirks each: of any two extensions, and of any two quirks, each is on without the other
    # in one of these.
    "mix0": ("f_starttls,f_condstore,f_id,f_login_referrals,f_namespace,q_missing_text,q_rectify_numbers,"
             "q_space_capability,q_empty_continue,relaxed,idnil", False),
    "mix1": ("f_condstore,f_mailbox_referrals,f_namespace,f_utf8,q_missing_text,q_rectify_numbers,q_space_quota,"
             "q_space_addresses,q_space_id,q_space_search", False),
    "mix2": ("f_id,f_login_referrals,f_metadata,f_utf8,q_missing_text,q_space_addresses,q_space_search,"
             "q_empty_continue,q_body_enc,q_normalize,idnil", False),
    "mix3": ("f_starttls,f_metadata,q_rectify_numbers,q_space_quota,q_space_addresses,q_space_status,q_space_id,"
             "q_empty_continue,q_body_enc,relaxed,idnil", False),
    "mix4": ("f_login_referrals,f_mailbox_referrals,f_metadata,f_namespace,q_space_quota,q_space_status,"
             "q_space_capability,q_space_search,q_normalize,relaxed", False),
    "mix5": ("f_starttls,f_condstore,f_id,f_mailbox_referrals,f_utf8,q_space_status,q_space_capability,q_space_id,"
             "q_body_enc,q_normalize,idnil", False),
}

# property: [(configuration, cases in the quick tier, cases in the thorough tier)]
PLAN = json.load(open(os.path.join(HERE, "plan.json")))

# Stop after this long, whatever is left (safety net on a slow machine).
DEADLINE = {"quick": 240, "thorough": 3600}
# The same for all configurations of a check together.
TOTAL = {"quick": 480, "thorough": 24 * 3600}


def fail(msg):
    print(f"ERROR {msg}")
    sys.exit(2)


def build(cfg):
    feats, rel = CONFIGS[cfg]
    tdir = os.path.join(HARNESS, "target", cfg)
    env = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    cmd = ["cargo", "build", "--offline", "--quiet", "--locked", "--features", feats]
    if rel:
        cmd.append("--release")
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print(f"the harness does not build in configuration {cfg}")
        return None
    return os.path.join(tdir, "release" if rel else "debug", "vharness")


def build_all(cfgs):
    """Build the configurations, some at a time: configuration -> program."""
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as pool:
        return dict(zip(cfgs, pool.map(build, cfgs)))


def listed(pid):
    """Known findings of this property: key -> text."""
    out = {}
    for line in open(os.path.join(HERE, "known-findings.txt")):
        line = line.strip()
        if line.startswith("known: "):
            f = dict(x.split("=", 1) for x in line.split()[1:3])
            if f["property"] == pid:
                out[f["key"]] = line.split(None, 3)[3]
    return out


def main(pid):
    t0 = time.time()
    if pid not in PLAN:
        fail(f"unknown property {pid}")
    total, distinct, labels, samples, per, viols, notes = 0, 0, {}, [], {}, [], []
    rule = ""
    known = listed(pid)
    reproduced = set()
    exes = build_all([cfg for cfg, _, _ in PLAN[pid]])
    if not any(exes.values()):
        fail("no configuration builds")
    t1 = time.time()
    for cfg, q, th in PLAN[pid]:
        exe = exes[cfg]
        if exe is None:
            # Whether a feature set compiles is not what is checked here; the others still tell something.
            print(f"configuration {cfg} is left out: it does not build")
            continue
        work = os.path.join(WORK, pid, cfg)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        out = os.path.join(work, "out.json")
        cases = th if TIER == "thorough" else q
        r = subprocess.run(
            [exe, "run", pid, "--seed", str(SEED), "--cases", str(cases), "--threads", THREADS,
             "--deadline", str(max(20, min(DEADLINE[TIER], round(TOTAL[TIER] - (time.time() - t1))))), "--work", work, "--out", out],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=work)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print(r.stderr[-3000:])
            fail(f"the run of {pid} in configuration {cfg} gave no answer (status {r.returncode})")
        o = json.load(open(out))
        total += o["evaluations"]
        distinct += o["distinct_nontrivial"]
        rule = o["rule"]
        for k, v in o["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += [f"[{cfg}] {x}" for x in o["samples"][:6]]
        per[cfg] = {"features": CONFIGS[cfg][0], "release": CONFIGS[cfg][1], "planned": cases,
                    "evaluations": o["evaluations"], "distinct_nontrivial": o["distinct_nontrivial"]}
        if o["violation"]:
            rep = os.path.join(WORK, "replay", f"{pid}-{cfg}.tape")
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            with open(o["violation"]["tape"]) as f, open(rep, "w") as g:
                g.write(f"# configuration {cfg}\n" + f.read())
            viols.append((cfg, rep, o["violation"]["msg"]))
        elif known:
            r = subprocess.run([exe, "known", pid], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            reproduced |= {l.split("\t")[1] for l in r.stdout.splitlines() if "\t" in l}
        if viols:
            break
    for k, text in known.items():
        if k in reproduced:
            print(f"KNOWN-FINDING: property={pid} {k}: {text}")
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {"evaluations": total, "distinct_nontrivial": distinct, "rule": rule, "samples": samples,
                     "labels": labels, "configurations": per},
        "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for cfg, rep, msg in viols:
        print(f"configuration {cfg}: {msg[:4000]}")
        print(f"replay with: python3 {os.path.join(HERE, 'check.py')} --replay {rep}")
        print(f"VIOLATION property={pid} replay={rep}")
    if not viols:
        print(f"{pid}: held on {total} cases ({distinct} distinct non-trivial) in {ev['wall_s']} s")
    sys.exit(1 if viols else 0)


def replay(path):
    cfg = pid = None
    for line in open(path):
        if line.startswith("# configuration "):
            cfg = line.split()[2]
        if line.startswith("# property "):
            pid = line.split()[2]
    if not cfg or not pid:
        fail("not a replay file")
    exe = build(cfg)
    if exe is None:
        fail("the configuration does not build")
    r = subprocess.run([exe, "replay", pid, path])
    if r.returncode < 0:
        print(f"FAIL process died with signal {-r.returncode}")
    sys.exit(1 if r.returncode else 0)


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        replay(sys.argv[2])
    elif len(sys.argv) == 2 and sys.argv[1] == "--setup":
        exes = build_all(list(CONFIGS))
        print(exes)
        sys.exit(0 if all(exes.values()) else 2)
    elif len(sys.argv) == 2:
        main(sys.argv[1])
    else:
        print(__doc__)
        sys.exit(2)
