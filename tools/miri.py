#!/usr/bin/env python3
"""Runs the workloads of /verif/miri under Miri: seeded scheduler, weak memory, undefined-behaviour oracle.

miri.py check PROPERTY TIER   |   miri.py replay FILE
"""
import concurrent.futures as cf, json, os, re, signal, subprocess, sys, time

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
V = os.path.abspath(V)
CRATE = os.path.join(V, "miri")
MODE = {"C03": "cow", "C06": "panic", "C11": "refs"}
# scheduling varied from rare to very frequent pre-emption
RATES = ["0.01", "0.05", "0.2"]
WHAT = {
    "cow": "two to four threads with clone-on-write handles: clones, insertions, lookups, iterations, drops, handles traded through a mutex and sent over a channel, one handle read by all",
    "panic": "histories with a panic at the n-th user callback (split, join, clone, drop, index arithmetic and comparison) on trees of all three feature sets",
    "refs": "histories of slice references and borrows outliving trees",
}


def env(flags):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "RUST_BACKTRACE"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             MIRIFLAGS=flags)
    return e


def cargo(flags, args, timeout):
    """(exit code or None if it did not end, stdout, stderr)"""
    p = subprocess.Popen(["cargo", "miri", "run", "--offline", "-q", "--", *args], cwd=CRATE, env=env(flags),
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e


def flags_of(mode, rate):
    f = f"-Zmiri-preemption-rate={rate}"
    if mode == "panic":
        # what a panicking destructor leaves behind may be lost
        f += " -Zmiri-ignore-leaks"
    return f


def message(err):
    """What went wrong, without what varies from run to run"""
    m = re.search(r"^error: (.*)$", err, re.M)
    p = [x for x in re.findall(r"panicked at [^\n]*\n([^\n]*)", err)]
    t = m.group(1) if m else (p[-1] if p else "the interpreted program failed")
    if t.startswith("aborting") or t.startswith("process didn't"):
        t = p[-1] if p else t
    return t


def kind(msg):
    return re.sub(r"<\d+>|alloc\d+|`[^`]*`|\(\d\)|\d+|0x[0-9a-f]+", "#", msg)[:48]


def one(mode, rate, seed, args, timeout=100):
    rc, o, e = cargo(f"-Zmiri-seed={seed} {flags_of(mode, rate)}", ["--mode", mode, *args], timeout)
    if rc == 0:
        return None
    return ("the run does not end" if rc is None else message(e)), o, e


def check(prop, tier):
    mode = MODE[prop]
    thorough = tier == "thorough"
    base = int(os.environ.get("VERIF_SEED", "1"))
    supplement = prop != "C03"
    limit = (300 if supplement else 700) if thorough else (60 if supplement else 170)
    chunk = 48
    want = (4000 if supplement else 12000) if thorough else (288 if supplement else 864)
    start = time.time()
    done, hashes, ops, samples, fail = 0, set(), 0, [], None
    per_rate = {r: 0 for r in RATES}
    first = base * 1_000_000
    # build, and see that the interpreter works at all
    rc, o, e = cargo(f"-Zmiri-seed={first} {flags_of(mode, RATES[0])}", ["--mode", mode], 600)
    if rc != 0 and not re.search(r"^W \d+", o, re.M):
        print(e[-3000:])
        print("harness error: the Miri workloads do not build or start")
        return 2
    at, n = first, 0
    while n * chunk < want and time.time() - start < limit and fail is None:
        rate = RATES[n % 3]
        rc, o, e = cargo(f"-Zmiri-many-seeds={at}..{at + chunk} {flags_of(mode, rate)}", ["--mode", mode], 150)
        for w, h, k in re.findall(r"^D (\d+) ([0-9a-f]+) (\d+)$", o, re.M):
            done += 1
            per_rate[rate] += 1
            ops += int(k)
            if int(k) >= 3:
                hashes.add(h)
            if len(samples) < 3:
                samples.append({"workload_seed": w, "operations": int(k), "order_hash": h, "preemption_rate": rate})
        if rc is None:
            # find out whether one seed really does not end
            with cf.ThreadPoolExecutor(8) as ex:
                for s, r in zip(range(at, at + chunk), ex.map(lambda s: one(mode, rate, s, []), range(at, at + chunk))):
                    if r and not fail:
                        fail = (rate, s, r[0], r[2])
        elif rc != 0:
            m = re.search(r"FAILING SEED: (\d+)", e)
            s = int(m.group(1)) if m else at
            r = one(mode, rate, s, [])
            fail = (rate, s, r[0] if r else message(e), r[2] if r else e)
        at += chunk
        n += 1
    path = None
    if fail:
        path = report(prop, mode, fail)
    wall = time.time() - start
    stage = {
        "program": "/verif/miri, mode " + mode, "workload": WHAT[mode], "miri_seeds_run": done,
        "first_seed": first, "seeds_per_preemption_rate": per_rate, "distinct_nontrivial": len(hashes), "operations": ops,
        "seeds_per_hour": int(done / max(wall, 0.001) * 3600), "samples": samples, "wall_s": round(wall, 1),
        "planned_seeds": want, "stopped_by_time_limit": done < want and not fail,
    }
    f = os.path.join(V, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(f), exist_ok=True)
    if supplement:
        ev = json.load(open(f))
        ev["coverage"]["miri_stage"] = stage
        ev["wall_s"] += wall
        ev["violations"] += 1 if fail else 0
        ev["assumptions"].append("Miri stage: the shipped crate interpreted with Stacked Borrows; only memory errors, leaks and wrong contents are judged.")
    else:
        ev = {
            "property": prop, "tier": tier, "seed": base, "level": "exploration",
            "coverage": {
                "evaluations": done, "distinct_nontrivial": len(hashes),
                "rule": "A case is one execution of the workload program under one Miri seed, which decides the workload, every scheduling choice (pre-emption at any basic block) and every weak-memory choice. Distinct: the hash over the workload seed and the global order in which the threads started their operations differs; non-trivial: at least three operations.",
                "samples": samples, "seeds_per_hour": stage["seeds_per_hour"], "runs_per_hour": stage["seeds_per_hour"],
                "simulated_time": {"unit": "operations (the code has no clock)", "operations": ops},
                "faults": {"pre-emption at any basic block, by rate (seeds)": per_rate, "weak-memory reads and spurious failures": "on in every seed"},
                "real_components": ["all of /repo/src from the working tree, without the simulation hook", "std::thread, Arc, Mutex, mpsc of the Rust standard library"],
                "stubbed_components": ["CPU, operating-system scheduler, memory and allocator (Miri)"],
                "stage": stage,
            },
            "assumptions": [
                "Miri's scheduler, weak-memory emulation (a subset of C++20 behaviours), data-race detector and Stacked Borrows are taken to be right.",
                "Sampled, not enumerated: a clean batch is evidence, not proof.",
            ],
            "wall_s": round(wall, 2), "violations": 1 if fail else 0,
        }
    json.dump(ev, open(f, "w"), indent=1)
    print(f"{prop}: Miri {mode}: {done} seeds, {len(hashes)} distinct, {ops} operations, {wall:.1f} s")
    if fail:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def report(prop, mode, fail):
    rate, seed, msg, err = fail
    print("violated:", msg)
    _, o, _ = cargo(f"-Zmiri-seed={seed} {flags_of(mode, rate)}", ["--mode", mode], 100)
    m = re.search(r"^W (\d+)", o, re.M)
    best = {"args": [], "seed": seed, "rate": rate, "msg": msg, "err": err}
    tries = 0
    if m:
        w, t0 = m.group(1), time.time()
        cur = {"threads": 4, "init": 99, "cap": 99}
        grid = [("cap", 4), ("cap", 2), ("cap", 1), ("threads", 2), ("threads", 3), ("init", 2), ("init", 5), ("init", 9), ("cap", 3), ("cap", 6)]
        if mode != "cow":
            grid = [("cap", c) for c in (2, 4, 6, 9, 13, 18, 25, 35)]
        for k, v in grid:
            if time.time() - t0 > 75:
                break
            if v >= cur[k]:
                continue
            a = ["--w", w] + [x for q, z in {**cur, k: v}.items() for x in ("--" + q, str(z))]
            tries += 1
            n = 32 if mode == "cow" else 1
            rc, o, e = cargo(f"-Zmiri-many-seeds=0..{n} {flags_of(mode, rate)}", ["--mode", mode, *a], 60)
            if rc not in (0, None) and kind(message(e)) == kind(msg):
                s = re.search(r"FAILING SEED: (\d+)", e)
                s = int(s.group(1)) if s else 0
                x = one(mode, rate, s, a)
                if x and kind(x[0]) == kind(msg):
                    best = {"args": a, "seed": s, "rate": rate, "msg": x[0], "err": x[2]}
                    cur[k] = v
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    path = os.path.join(V, "replay", prop + ".json")
    json.dump({"property": prop, "kind": "miri", "mode": mode, "message": best["msg"], "miri_seed": best["seed"],
               "preemption_rate": best["rate"], "args": best["args"], "first_seed": seed, "first_rate": rate,
               "first_message": msg, "minimisation_attempts": tries, "how": "bash /verif/run.sh replay <this file>",
               "trace": best["err"][-6000:]}, open(path, "w"), indent=1)
    return path


def replay(f):
    r = json.load(open(f))
    x = one(r["mode"], r["preemption_rate"], r["miri_seed"], r["args"])
    if not x:
        print("the recorded run passes")
        return 0
    print(x[2][-6000:])
    print("replayed:", x[0])
    print("recorded:", r["message"])
    print(f"VIOLATION property={r['property']} replay={f}")
    return 1


if __name__ == "__main__":
    sys.exit(check(sys.argv[2], sys.argv[3]) if sys.argv[1] == "check" else replay(sys.argv[2]))
