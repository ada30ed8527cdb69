#!/usr/bin/env python3
"""Driver of all checks:  python3 check.py <property> [quick|thorough]

Builds the harness against /repo's working tree, runs the monitored workloads of one property in
sharded worker processes, watches them for death and hangs, merges what they observed, writes
evidence/<property>.json and reports.  Exit 0: held on everything explored; 1: VIOLATION; 2: the check
itself could not run."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tools import literals, parts

HERE = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()

class Broken(Exception):
    pass

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = tempfile.mkdtemp(prefix=f"coffer-{pid}-")
        self.stats, self.samples, self.evals, self.distinct, self.notes = {}, [], 0, set(), []
        self.viol = []          # (stream/case or name, message, replay command)
        self.truncated = False
        self.thorough = tier == "thorough"
        # numbers and texts the sources single out that they did not before: the workloads try these, too
        n, s = literals.fresh("/repo")
        self.dict = ["--dict", "i:" + ",".join(map(str, n)) + ";s:" + ",".join(x.encode(errors="replace").hex() for x in s)] if n or s else []
        if os.environ.get("VERIF_DICT"): self.dict = ["--dict", os.environ["VERIF_DICT"]]
        if self.dict: self.notes.append(f"values of particular interest: {n} {s}")
    def merge(self, j, tag=""):
        self.evals += j["evaluations"]
        for k, v in j["stats"].items():
            k = tag + k
            if k.startswith(tag + "max_"): self.stats[k] = max(self.stats.get(k, 0), v)
            else: self.stats[k] = self.stats.get(k, 0) + v
        self.samples += j["samples"]
        self.distinct.update(j["distinct"])
        self.truncated |= j["truncated"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(run, kind="native"):
    """kind: native, asan or tsan. Returns the path of the binary."""
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): env.pop(k, None)
    h = os.path.join(HERE, "harness")
    if kind == "native":
        cmd = ["cargo", "build", "--offline", "--release", "-q"]
        out = os.path.join(h, "target/release/coffer-harness")
    elif kind == "debug":
        # as the compiler makes it when it is not to optimise: optimising folds conversions that do have an effect
        cmd = ["cargo", "build", "--offline", "-q"]
        out = os.path.join(h, "target/debug/coffer-harness")
    else:
        san = {"asan": "address", "tsan": "thread"}[kind]
        env["RUSTFLAGS"] = f"-Zsanitizer={san}"
        cmd = ["cargo", "+nightly", "build", "--offline", "--release", "-q", "--target", "x86_64-unknown-linux-gnu", "--target-dir", f"target/{kind}"]
        # without an instrumented standard library its locks are invisible to the race detector
        if kind == "tsan": cmd.append("-Zbuild-std=std,panic_unwind")
        out = os.path.join(h, f"target/{kind}/x86_64-unknown-linux-gnu/release/coffer-harness")
    p = sh(cmd, cwd=h, env=env)
    if p.returncode != 0:
        raise Broken(f"building the harness ({kind}) failed:\n" + "\n".join(l for l in p.stdout.splitlines() if "warning" not in l)[-4000:])
    return out

def limits(gb, core=0):
    def f():
        if gb: resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (core, core))
        os.setsid()
    return f

def workers(run, binary, kind="native", part="", extra=(), shards=8, env=None, seconds=None, gb=4, stack=None, digests=False):
    """Run the harness in `shards` processes and merge what they saw."""
    secs = seconds or (2400 if run.thorough else 300)
    procs = []
    for i in range(shards):
        base = os.path.join(run.work, f"{kind}{part}{i}")
        args = ["--tier", run.tier, "--seed", str(run.seed), "--seconds", str(secs)]
        if stack: args += ["--stack", str(stack)]
        if part: args += ["--part", part]
        args += list(extra) + run.dict
        cmd = [binary, run.pid] + args
        full = cmd + ["--shard", f"{i}/{shards}", "--out", base + ".json", "--status", base + ".status"]
        if digests: full += ["--digest", base + ".digest"]
        e = dict(os.environ, RUST_BACKTRACE="0")
        e.update(env or {})
        err = open(base + ".err", "w")
        procs.append((i, subprocess.Popen(full, stdout=err, stderr=err, env=e, cwd=run.work, preexec_fn=limits(None if kind not in ("native", "debug") else gb)), base, cmd))
    end = time.time() + secs + 300
    for i, p, base, cmd in procs:
        try: rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "timeout"
        err = open(base + ".err", errors="replace").read()
        where = ""
        if os.path.exists(base + ".status"):
            where = open(base + ".status", "rb").read().split(b"\n")[0].strip(b"\0").decode(errors="replace")
        if rc == 0 and os.path.exists(base + ".json"):
            j = json.load(open(base + ".json"))
            run.merge(j, "" if kind == "native" else kind + "_")
            for c, m in j["violations"]: run.viol.append((c, m, cmd + ["--case", c]))
        elif rc == "timeout" or (rc in (2, 3) and kind in ("native", "debug")) or where in ("", "-/0"):
            raise Broken(f"worker {i} ended with {rc} at {where}: {err[-2000:]}")
        else:
            what = {99: "hang", -6: "abort", -11: "segmentation fault or stack overflow", -9: "killed"}.get(rc, f"died with {rc}")
            run.viol.append((where, f"{what}: the process running the library ended ({rc}); {err[-3000:]}", cmd + ["--case", where]))

def miri(run, part="miri", shards=8, seconds=None, flags=""):
    """The same harness under Miri, which stops at undefined behaviour. Left out (and noted) where Miri is not there."""
    h = os.path.join(HERE, "harness")
    env = dict(os.environ, MIRIFLAGS="-Zmiri-disable-isolation " + flags, RUST_BACKTRACE="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): env.pop(k, None)
    base = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", "target/miri", "--"]
    p = sh(base + ["miri-probe"], cwd=h, env=env)
    if p.returncode != 0:
        if "Undefined Behavior" in p.stdout: run.viol.append(("miri-probe/0", p.stdout[-3000:], base + ["miri-probe"])); return
        run.notes.append("Miri could not be run here: " + p.stdout[-300:]); return
    secs = seconds or (1500 if run.thorough else 120)
    procs = []
    for i in range(shards):
        o = os.path.join(run.work, f"miri{i}")
        cmd = base + [run.pid, "--tier", run.tier, "--seed", str(run.seed), "--seconds", str(secs), "--part", part, "--stack", str(4 << 20)] + run.dict
        err = open(o + ".err", "w")
        procs.append((i, subprocess.Popen(cmd + ["--shard", f"{i}/{shards}", "--out", o + ".json"], stdout=err, stderr=err, env=env, cwd=h, preexec_fn=limits(None)), o, cmd))
    end = time.time() + secs + 200
    for i, p, o, cmd in procs:
        try: rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = "timeout"
        err = open(o + ".err", errors="replace").read()
        if rc == 0 and os.path.exists(o + ".json"):
            j = json.load(open(o + ".json"))
            run.merge(j, "miri_")
            for c, m in j["violations"]: run.viol.append((c, "under Miri: " + m, cmd + ["--case", c]))
        elif "Undefined Behavior" in err or "error: memory leaked" in err or "deadlock" in err or "Data race" in err:
            run.viol.append((f"miri shard {i}/{shards}", err[-4000:], cmd + ["--shard", f"{i}/{shards}"]))
        elif rc == "timeout": run.notes.append(f"Miri shard {i} did not finish in time")
        else: run.notes.append(f"Miri shard {i} ended with {rc}: {err[-400:]}")

def corpus(run, n):
    """Pack up to n real class files (deterministically chosen) for the harness; versions the library does
    not know are lowered to the newest it does."""
    import zipfile, random, glob
    jars = sorted(glob.glob("/repo/src/tests/jars/*.jar")) + sorted(glob.glob("/usr/share/java/*.jar")) + sorted(glob.glob("/usr/lib/jvm/*/jmods/*.jmod")) + sorted(glob.glob("/usr/lib/jvm/*/lib/*.jar"))
    names = []
    for j in jars:
        try:
            z = zipfile.ZipFile(j)
        except Exception:
            continue
        names += [(j, e.filename) for e in z.infolist() if e.filename.endswith(".class") and e.file_size < 300_000]
        z.close()
    seen = set()
    names = [x for x in names if not (os.path.realpath(x[0]), x[1]) in seen and not seen.add((os.path.realpath(x[0]), x[1]))]
    random.Random(run.seed).shuffle(names)
    path = os.path.join(run.work, "corpus.bin")
    zs, k = {}, 0
    with open(path, "wb") as o:
        for j, f in names[:n]:
            if j not in zs: zs[j] = zipfile.ZipFile(j)
            b = bytearray(zs[j].read(f))
            if b[:4] != b"\xca\xfe\xba\xbe": continue
            if b[6] == 0 and b[7] > 59: b[4:8] = b"\0\0\0\x3b"
            nm = (os.path.basename(j) + "!" + f).encode()
            o.write(len(nm).to_bytes(4, "big") + nm + len(b).to_bytes(4, "big") + bytes(b))
            k += 1
    run.notes.append(f"{k} real class files of {len(names)} found in {len(jars)} archives")
    return path

def findings():
    """known-findings.txt: lines `open: property=<id> match=<regex> <what fails>` suppress nothing but what
    they match; `fixed:` lines suppress nothing."""
    out = []
    for l in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"open: property=(\S+) match=(\S+) (.*)", l)
        if m: out.append((m[1], re.compile(m[2]), m[3]))
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    run = Run(pid, tier, seed)
    rc = 2
    try:
        spec = parts.PARTS[pid]
        spec["run"](run, sys.modules[__name__])
        known = findings()
        shown, new = set(), []
        for c, m, cmd in run.viol:
            k = next((d for p, r, d in known if p == pid and r.search(m)), None)
            if k is None: new.append((c, m, cmd))
            elif k not in shown:
                shown.add(k); print(f"KNOWN-FINDING: property={pid} {k}")
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": spec["level"],
            "coverage": {"evaluations": run.evals, "distinct_nontrivial": len(run.distinct), "rule": spec["rule"], "samples": run.samples[:12], "observed": run.stats, "stopped_by_time": run.truncated, "exhaustive": False, "notes": run.notes},
            "assumptions": parts.ASSUME + spec.get("assume", []), "wall_s": round(time.time() - T0, 1), "violations": len(new),
        }
        os.makedirs(os.path.join(HERE, "evidence/replays"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, f"evidence/{pid}.json"), "w"), indent=1)
        rc = 0
        for n, (c, m, cmd) in enumerate(new[:5]):
            path = os.path.join(HERE, f"evidence/replays/{pid}-{n}.json")
            json.dump({"property": pid, "case": c, "what": m, "replay": cmd}, open(path, "w"), indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print("  " + c + ": " + m[:1500].replace("\n", "\n  "))
            rc = 1
        if not new: print(f"{pid} {tier}: held; {run.evals} cases, {len(run.distinct)} distinct, {time.time() - T0:.1f} s")
    except Broken as e:
        print("CHECK-ERROR: " + str(e))
        rc = 2
    finally:
        shutil.rmtree(run.work, ignore_errors=True)
    sys.exit(rc)

if __name__ == "__main__":
    main()
