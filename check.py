#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--scale X]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: error of the check."""
import argparse, json, os, shutil, signal, struct, subprocess, sys, time, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec, specs, build as B

def read_progress(f):
    try:
        with open(f, "rb") as h: d = h.read(32)
        return struct.unpack("<4Q", d) if len(d) == 32 else (0, 0, 0, 0)
    except OSError: return (0, 0, 0, 0)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1")); ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.pid, a.tier if a.tier in ("quick", "thorough") else "quick"
    try: seed = int(a.seed)
    except ValueError: seed = abs(hash(a.seed)) % (1 << 31)
    P = spec.PROPS[pid]
    rc, out, exe = B.build(P["harness"])
    if rc:
        print(out[-4000:]); print(f"ERROR: the harness of {pid} does not build against /repo"); sys.exit(2)
    tb = time.time() - t0
    outdir = os.path.join(HERE, "out", pid); shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    scratch = tempfile.mkdtemp(prefix="vf-" + pid + "-")
    env = dict(os.environ)
    env["VF_SCRATCH"] = scratch
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=16" + P.get("asan", "")
    env["LC_ALL"] = "C.UTF-8"; env["HOME"] = scratch
    cap = P.get("cap", {}).get(tier, 240 if tier == "quick" else 3000)
    hang = P.get("hang", 90.0)
    W = a.workers
    lines = subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, env=env).stdout.split("\n")
    partnames = [l.split()[0] for l in lines if l.strip()]
    procs = {}
    for w in range(W):
        o = f"{outdir}/w{w}"
        procs[w] = dict(out=o, p=subprocess.Popen([exe, "run", pid, str(seed), str(w), str(W), tier, str(a.scale), str(cap), o],
                        env=env, stdout=open(o + ".log", "w"), stderr=subprocess.STDOUT, start_new_session=True, cwd=scratch), tick=-1, since=time.time())
    failures = []   # (input file, reason, worker)
    errors = []
    pending = set(procs)
    def stop(w):
        try: os.killpg(procs[w]["p"].pid, signal.SIGKILL)
        except OSError: pass
        procs[w]["p"].wait()
    while pending:
        time.sleep(0.05)
        for w in list(pending):
            q = procs[w]; r = q["p"].poll()
            pr = read_progress(q["out"] + ".progress")
            if r is not None:
                pending.discard(w)
                if r == 0: continue
                if r == 3: failures.append((q["out"] + ".fail", "oracle", w)); continue
                if pr[3] == 1:
                    f = q["out"] + ".fail"
                    open(f, "w").write(f"part {partnames[pr[1]]}\nseed {seed}\ncase {pr[2]}\n")
                    failures.append((f, f"process ended with {r}", w))
                else: errors.append(f"worker {w} ended with {r}; see {q['out']}.log")
                continue
            if pr[0] != q["tick"]: q["tick"] = pr[0]; q["since"] = time.time()
            elif time.time() - q["since"] > hang and pr[3] == 1:
                f = q["out"] + ".fail"
                open(f, "w").write(f"part {partnames[pr[1]]}\nseed {seed}\ncase {pr[2]}\n")
                failures.append((f, "hang", w)); stop(w); pending.discard(w)
        if failures:
            t_end = time.time() + 1.0
            for w in list(pending):
                stop(w)
            pending.clear()
    # merge
    parts = {}; hashes = set()
    for w, q in procs.items():
        try: j = json.load(open(q["out"] + ".json"))
        except Exception: j = {"parts": []}
        for p in j["parts"]:
            m = parts.setdefault(p["name"], dict(rule=p["rule"], evaluations=0, planned=0, discards=0, oracle_evals=0, labels={}, samples=[], seconds=0.0, capped=False))
            for k in ("evaluations", "planned", "discards", "oracle_evals"): m[k] += p[k]
            m["seconds"] = max(m["seconds"], p["seconds"]); m["capped"] |= p["capped"]
            for k, v in p["labels"].items(): m["labels"][k] = m["labels"].get(k, 0) + v
            m["samples"] += p["samples"]
        try:
            d = open(q["out"] + ".hashes", "rb").read(); hashes.update(struct.unpack(f"<{len(d)//8}Q", d[:len(d)//8*8]))
        except OSError: pass
    for m in parts.values(): m["samples"] = m["samples"][:2]
    # failures: shrink, replay
    violations = []; unconfirmed = []
    for i, (f, why, w) in enumerate(failures[:4]):
        if violations: break
        rp = f"{outdir}/replay-{i}.txt"
        budget = 30 if tier == "quick" else 300
        try:
            s = subprocess.run([exe, "shrink", f, rp, str(budget), str(hang)], env=dict(env, VF_SEQ=f"{w},{W}"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=scratch, timeout=3 * budget + 8 * hang + 30)
            j = json.loads(s.stdout.strip().split("\n")[-1])
        except Exception as e:
            errors.append(f"shrinking failed: {e}"); continue
        if not j.get("reproduced"):
            unconfirmed.append(f"{f}: {why}: not reproduced in isolation"); continue
        ok = 0
        for _ in range(3):
            r = subprocess.run([exe, "replay", rp, str(3 * hang)], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=scratch)
            ok += r.returncode == 1
            if j.get("tag") == "hang": ok = 3; break
        if ok == 3 or (why == "oracle" and ok >= 1): violations.append((rp, j["tag"], j["msg"]))
        else: unconfirmed.append(f"{rp}: failed {ok}/3 replays")
    # known findings: a demonstration part per finding
    kf = []
    try: known = json.load(open(HERE + "/known_findings.json"))
    except OSError: known = []
    for k in known:
        if k.get("property") != pid or k.get("status") != "open": continue
        f = f"{outdir}/kf-{k['id']}.txt"
        open(f, "w").write(k["replay"])
        r = subprocess.run([exe, "replay", f, str(hang)], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=scratch)
        if r.returncode == 1: kf.append(k); print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
    shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=sum(m["evaluations"] for m in parts.values()), distinct_nontrivial=len(hashes),
            rule=" | ".join(f"{n}: {m['rule']}" for n, m in parts.items()),
            samples=[{"part": n, "case": s} for n, m in parts.items() for s in m["samples"]],
            oracle_evaluations=sum(m["oracle_evals"] for m in parts.values()),
            parts={n: {k: v for k, v in m.items() if k not in ("rule", "samples")} for n, m in parts.items()},
            known_findings=[k["id"] for k in kf], unconfirmed=unconfirmed),
        assumptions=P.get("assumptions", ["clang build with AddressSanitizer and NDEBUG; clock and randomness supplied by the harness"]),
        violations=len(violations), wall_s=round(wall, 2))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier} seed={seed}: {ev['coverage']['evaluations']} cases, {len(hashes)} distinct non-trivial, build {tb:.0f}s, total {wall:.0f}s" +
          "".join(f"\n  {n}: {m['evaluations']}/{m['planned']} cases {m['seconds']:.1f}s{' (time cap)' if m['capped'] else ''}" for n, m in parts.items()))
    for rp, tag, msg in violations:
        print(f"  {tag}: {msg}")
        print(f"VIOLATION property={pid} replay={rp}")
    if violations: sys.exit(1)
    for u in unconfirmed: print("  unconfirmed:", u)
    for e in errors: print("  ERROR:", e)
    sys.exit(2 if errors else 0)

if __name__ == "__main__": main()
