#!/usr/bin/env python3
"""Supervisor of the monitors: builds them from /repo's working tree, runs them in limited processes,
judges crashes and hangs, writes the evidence.

  check.py ID [quick|thorough]      VERIF_SEED and VERIF_TIER are honoured
  check.py --replay FILE            runs the one recorded case again

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
REPO = "/repo"
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
GB = 1 << 30
CASE_CPU = 40      # a case that has used this much processor time is stopped ...
REPLAY_CPU = 100   # ... and reported only if it does not end within this much, alone


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

def toolchain_env(toolchain):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + env.get("PATH", "")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["RUSTUP_TOOLCHAIN"] = toolchain
    return env


def nightly():
    out = subprocess.run(["rustup", "toolchain", "list"], capture_output=True, text=True).stdout
    names = [l.split()[0] for l in out.splitlines() if l.startswith("nightly")]
    return names[0] if names else NIGHTLY


def cargo(args, env, what, tries=2):
    for i in range(tries):
        p = subprocess.run(["cargo"] + args, env=env, cwd=HARNESS, capture_output=True, text=True)
        if p.returncode == 0:
            return p
    sys.stderr.write(p.stdout[-2000:] + p.stderr[-6000:])
    raise NoAnswer(f"building {what} failed")


def build(binary, flavor, also=()):
    """Returns the command that runs a monitor."""
    if flavor in ("dev", "release"):
        env = toolchain_env(STABLE)
        env["RUSTFLAGS"] = "--cfg nanvm_verif"
        env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "native")
        for b in (binary, *also):
            cargo(["build", "--offline", "--bin", b] + (["--release"] if flavor == "release" else []), env, b)
        return [os.path.join(TARGET, "native", "debug" if flavor == "dev" else "release", binary)], None
    if flavor == "asan":
        env = toolchain_env(nightly())
        env["RUSTFLAGS"] = "--cfg nanvm_verif --cfg asan -Zsanitizer=address"
        env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "asan")
        t = "x86_64-unknown-linux-gnu"
        cargo(["build", "--offline", "--bin", binary, "--target", t], env, binary + " (asan)")
        run_env = dict(os.environ)
        run_env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0"
        return [os.path.join(TARGET, "asan", t, "debug", binary)], run_env
    if flavor == "tsan":
        # the standard library is built along, else its own synchronization would not be seen
        env = toolchain_env(nightly())
        env["RUSTFLAGS"] = "--cfg nanvm_verif -Zsanitizer=thread"
        env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "tsan")
        t = "x86_64-unknown-linux-gnu"
        cargo(["build", "--offline", "-Zbuild-std", "--bin", binary, "--target", t], env, binary + " (tsan)")
        run_env = dict(os.environ)
        run_env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
        return [os.path.join(TARGET, "tsan", t, "debug", binary)], run_env
    if flavor == "miri":
        env = toolchain_env(nightly())
        env["RUSTFLAGS"] = "--cfg nanvm_verif"
        env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri")
        return ["cargo", "miri", "run", "--offline", "-q", "--bin", binary, "--"], env
    raise ValueError(flavor)


# ---------------------------------------------------------------- running

def limits(cpu, mem):
    def f():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f


def cpu_of(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            s = f.read().rsplit(")", 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


FATAL = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


class Run:
    """What one stage observed."""

    def __init__(self):
        self.cases = 0
        self.kinds, self.events, self.known = {}, {}, {}
        self.samples, self.violations = [], []
        self.distinct = set()
        self.cut = False

    def add(self, d):
        self.cases += d["cases"]
        self.cut |= d["cut"]
        for k, v in d["kinds"].items():
            self.kinds[k] = self.kinds.get(k, 0) + v
        for k, v in d["events"].items():
            self.events[k] = self.events.get(k, 0) + v
        for k, v in d["known"].items():
            e = self.known.setdefault(k, {"count": 0, "detail": v["detail"]})
            e["count"] += v["count"]
        self.samples += d["samples"]


class Stage:
    def __init__(self, binary, flavor="dev", shards=8, tier=None, only=None, scale=1.0, mem=4 * GB,
                 post=None, seeds=1, miriflags="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows",
                 cpu=None, label=None, case_cpu=CASE_CPU, also=()):
        self.__dict__.update(locals())
        self.label = label or f"{binary}-{flavor}" + (f"-{only}" if only else "")


def journal_of(path):
    try:
        with open(path) as f:
            l = f.readline().split()
        return (l[0], int(l[1]), int(l[2])) if len(l) == 3 else None
    except (OSError, ValueError):
        return None


def run_stage(prop, st, tier, seed, out, deadline):
    r = Run()
    cmd, env = build(st.binary, st.flavor, st.also)
    os.makedirs(out, exist_ok=True)
    if st.flavor == "miri":
        return run_miri(prop, st, tier, seed, cmd, env, r, deadline)
    mem = 0 if st.flavor in ("asan", "tsan") else st.mem
    stage_tier = st.tier or tier
    base = [prop, "--seed", str(seed), "--tier", stage_tier, "--shards", str(st.shards), "--out", out,
            "--scale", str(st.scale)]
    if st.only:
        base += ["--only", st.only]
    procs = []
    for s in range(st.shards):
        err = open(f"{out}/{s}.stderr", "wb")
        p = subprocess.Popen(cmd + base + ["--shard", str(s)], env=env, stdin=subprocess.DEVNULL, stdout=err,
                             stderr=err, preexec_fn=limits(st.cpu or (400 if tier == "quick" else 5000), mem), cwd=out)
        procs.append([p, s, None, 0.0, None])  # process, shard, last journal, cpu then, hang
    live = list(procs)
    hung = []
    while live:
        time.sleep(0.05)
        for e in list(live):
            p, s = e[0], e[1]
            if p.poll() is not None:
                live.remove(e)
                continue
            j = journal_of(f"{out}/{s}.journal")
            c = cpu_of(p.pid)
            if j != e[2]:
                e[2], e[3] = j, c
            elif c - e[3] > st.case_cpu:
                # enough is known: the other shards need not meet the same
                e[4] = j
                for x in live:
                    kill_group(x[0])
                hung = [e]
                live = []
                break
            if time.time() > deadline:
                for x in live:
                    kill_group(x[0])
                raise NoAnswer(f"{st.label}: out of time")
    unclear = None
    # the hung shard is looked at first
    for p, s, _, _, hang in hung + [e for e in procs if e not in hung]:
        kill_group(p)
        f = f"{out}/{s}.json"
        if hang is None and p.returncode in (0, 1) and os.path.exists(f):
            with open(f) as h:
                d = json.load(h)
            r.add(d)
            with open(f"{out}/{s}.distinct", "rb") as h:
                b = h.read()
            r.distinct.update(memoryview(b).cast("Q"))
            for v in d["violations"]:
                r.violations.append(dict(v, binary=st.binary, flavor=st.flavor, tier=stage_tier))
            continue
        if hung and hang is None or r.violations:
            # stopped because of another shard, or more of the same
            continue
        # died or hung: name the case and confirm it alone
        j = hang or journal_of(f"{out}/{s}.journal")
        text = tail(f"{out}/{s}.stderr")
        if j is None:
            unclear = unclear or f"{st.label}: shard {s} ended with {p.returncode}: {text}"
            continue
        v = {"kind": j[0], "index": j[1], "seed": j[2], "binary": st.binary, "flavor": st.flavor, "tier": stage_tier}
        if hang is None and p.returncode == -signal.SIGKILL:
            unclear = unclear or f"{st.label}: shard {s} was killed in {j}"
            continue
        first = "used too much processor time" if hang else f"ended with {name_of(p.returncode)}"
        race = TSAN_RACE.search(read_all(f"{out}/{s}.stderr")) if st.flavor == "tsan" and not hang else None
        # a race that was seen is one; it need not happen again
        what = race.group(0)[:1500] if race else confirm(prop, cmd, env, v, out, mem)
        if what is None and hang is None:
            # it may need the cases before it: the whole shard again
            q = subprocess.run(cmd + base + ["--shard", str(s)], env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               preexec_fn=limits(400 if tier == "quick" else 5000, mem), cwd=out)
            if q.returncode < 0 and -q.returncode in FATAL:
                what = f"process {name_of(q.returncode)}: {q.stdout.decode(errors='replace')[-1500:]}"
        if what is None:
            unclear = unclear or f"{st.label}: case {j} {first} once, not again: {text}"
            continue
        v["detail"] = what
        r.violations.append(v)
    if unclear and not r.violations:
        raise NoAnswer(unclear)
    if st.post and not r.violations:
        st.post(prop, st, out, r, tier)
    return r


def name_of(code):
    try:
        return signal.Signals(-code).name if code < 0 else f"exit {code}"
    except ValueError:
        return str(code)


def tail(path, n=1500):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode(errors="replace")
    except OSError:
        return ""


TSAN_RACE = re.compile(r"WARNING: ThreadSanitizer: data race.*", re.S)


def read_all(path):
    try:
        with open(path, "rb") as f:
            return f.read(1 << 20).decode(errors="replace")
    except OSError:
        return ""


def confirm(prop, cmd, env, v, out, mem):
    """Runs one case alone. Returns what went wrong, or None."""
    d = os.path.join(out, "replay")
    os.makedirs(d, exist_ok=True)
    p = subprocess.run(cmd + [prop, "--tier", v["tier"], "--out", d, "--replay", v["kind"], str(v["index"]), str(v["seed"])],
                       env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       preexec_fn=limits(REPLAY_CPU, mem), cwd=out)
    text = p.stdout.decode(errors="replace")[-1500:]
    if p.returncode == 1 and os.path.exists(f"{d}/0.json"):
        with open(f"{d}/0.json") as h:
            vs = json.load(h)["violations"]
        if vs:
            return vs[0]["detail"]
    if p.returncode == -signal.SIGXCPU or (p.returncode == -signal.SIGKILL and "SIGXCPU" in text):
        return f"does not end within {REPLAY_CPU} s of processor time"
    if p.returncode < 0 and -p.returncode in FATAL:
        return f"process ended with {name_of(p.returncode)}: {text}"
    return None


MIRI_UB = re.compile(r"error: (Undefined Behavior|memory leaked|abnormal termination|unsupported operation|.*[Dd]ata race)[^\n]*(\n[^\n]*){0,12}")


def run_miri(prop, st, tier, seed, cmd, env, r, deadline):
    n = st.seeds if tier == "quick" else st.seeds * 8
    env = dict(env)
    # the build, and one run that names what is missing
    jobs = []
    args = [prop, "--tier", "tiny", "--scale", str(st.scale)] + (["--only", st.only] if st.only else [])
    shards = st.shards

    def flags_of(i):
        return st.miriflags + f" -Zmiri-seed={(seed * 1000 + i) % (1 << 32)}"

    # compile once (the first run holds cargo's lock meanwhile)
    e = dict(env)
    e["MIRIFLAGS"] = st.miriflags
    p = subprocess.run(["cargo", "miri", "run", "--offline", "-q", "--bin", st.binary, "--", "NONE"], env=e, cwd=HARNESS,
                       stdin=subprocess.DEVNULL, capture_output=True)
    if b"READY" not in p.stdout:
        sys.stderr.write(p.stderr[-4000:].decode(errors="replace"))
        raise NoAnswer(f"{st.label}: the interpreter did not start")
    todo = list(range(n * shards))
    live = {}
    done = 0
    while todo or live:
        while todo and len(live) < 8:
            i = todo.pop(0)
            f = open(os.path.join(WORK, f"miri-{prop}-{st.label}-{i}.out"), "w+b")
            e = dict(env)
            e["MIRIFLAGS"] = flags_of(i)
            p = subprocess.Popen(cmd + args + ["--seed", str(seed * 1000 + i // shards), "--shard", str(i % shards),
                                               "--shards", str(shards)],
                                 env=e, cwd=HARNESS, stdin=subprocess.DEVNULL, stdout=f, stderr=f,
                                 preexec_fn=limits(0, 0))
            live[i] = (p, f)
        time.sleep(0.1)
        for i, (p, f) in list(live.items()):
            if p.poll() is None:
                if time.time() > deadline:
                    for q, _ in live.values():
                        kill_group(q)
                    raise NoAnswer(f"{st.label}: out of time")
                continue
            del live[i]
            f.seek(0)
            text = f.read().decode(errors="replace")
            f.close()
            os.remove(f.name)
            v = {"kind": "miri", "index": i, "seed": seed, "binary": st.binary, "flavor": "miri", "tier": "tiny",
                 "miriflags": flags_of(i)}
            m = MIRI_UB.search(text)
            if m:
                if "unsupported operation" in m.group(0).split("\n")[0]:
                    raise NoAnswer(f"{st.label}: {m.group(0)}")
                case = re.findall(r"CASE (\S+ \d+ \d+)", text)
                v["detail"] = f"interpreter in case {case[-1] if case else '?'}: {m.group(0)[:1500]}"
                r.violations.append(v)
                continue
            m = re.search(r"^RESULT (.*)$", text, re.M)
            if not m:
                raise NoAnswer(f"{st.label}: interpreter ended with {p.returncode}: {text[-1500:]}")
            d = json.loads(m.group(1))
            done += 1
            d["events"] = {k: x for k, x in d["events"].items()}
            r.add(d)
            r.distinct.update(hash(("miri", i, k)) & (2**64 - 1) for k in range(d["distinct"]))
            for w in d["violations"]:
                r.violations.append(dict(v, detail=f"{w['kind']} {w['index']} {w['seed']}: {w['detail']}"))
    r.events["interpreter runs"] = done
    return r


# ---------------------------------------------------------------- known findings

def findings(prop):
    d = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
                if m and m.group(1) == prop:
                    d[m.group(2)] = m.group(3)
    return d


# ---------------------------------------------------------------- one check

def check(prop, tier, seed):
    from props import PROPS
    start = time.time()
    spec = PROPS[prop]
    stages = spec["stages"](tier)
    work = os.path.join(WORK, f"{prop}-{tier}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    total = Run()
    per_stage = []
    deadline = start + (840 if tier == "quick" else 6 * 3600)
    try:
        for i, st in enumerate(stages):
            t = time.time()
            if callable(st):
                r = Run()
                st(prop, tier, seed, os.path.join(work, str(i)), r, deadline)
                label = st.__name__
            else:
                r = run_stage(prop, st, tier, seed, os.path.join(work, str(i)), deadline)
                label = st.label
            total.cases += r.cases
            for k, v in r.kinds.items():
                total.kinds[k] = total.kinds.get(k, 0) + v
            for k, v in r.events.items():
                total.events[k] = total.events.get(k, 0) + v
            for k, v in r.known.items():
                e = total.known.setdefault(k, {"count": 0, "detail": v["detail"]})
                e["count"] += v["count"]
            total.samples += r.samples[:4]
            total.distinct |= r.distinct
            total.cut |= r.cut
            total.violations += r.violations
            per_stage.append({"stage": label, "evaluations": r.cases, "distinct": len(r.distinct), "kinds": r.kinds,
                              "wall_s": round(time.time() - t, 1)})
            if r.violations:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    listed = findings(prop)
    for k, v in total.known.items():
        if k not in listed:
            total.violations.append({"kind": "unlisted finding", "index": 0, "seed": seed, "detail": f"{k}: {v['detail']}",
                                     "binary": "", "flavor": "", "tier": tier})
    need = spec.get("need", [])
    missing = [n for n in need if not total.events.get(n)]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": total.cases, "distinct_nontrivial": len(total.distinct), "rule": spec["rule"],
            "samples": total.samples[:12], "observed_events": total.events, "kinds": total.kinds,
            "stages": per_stage, "known_findings_seen": {k: v["count"] for k, v in total.known.items()},
            "cut_by_time": total.cut,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - start, 1),
        "violations": len(total.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if total.violations:
        rd = os.path.join(WORK, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "violations": total.violations[:20]}, f, indent=1)
        for v in total.violations[:3]:
            log(f"  {v['kind']} #{v['index']} seed {v['seed']} [{v['binary']} {v['flavor']}]: {v['detail'][:1200]}")
        log(f"VIOLATION property={prop} replay={path}")
        return 1
    if missing:
        log(f"no answer: nothing was observed of {missing}")
        return 2
    for k, v in total.known.items():
        log(f"KNOWN-FINDING: property={prop} {k}: {listed[k]}")
    log(f"{prop}: held on {total.cases} cases, {len(total.distinct)} distinct, {evidence['wall_s']} s")
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    v = d["violations"][0]
    log(v["detail"])
    if v["flavor"] not in ("dev", "release", "asan"):
        return check(d["property"], d["tier"], d["seed"])
    cmd, env = build(v["binary"], v["flavor"], ("nanvm",) if v["binary"] == "cli" else ())
    os.makedirs(WORK, exist_ok=True)
    what = confirm(d["property"], cmd, env, v, WORK, 0)
    if what is None:
        return check(d["property"], d["tier"], d["seed"])
    log(f"again: {what}")
    log(f"VIOLATION property={d['property']} replay={path}")
    return 1


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(WORK, exist_ok=True)
    try:
        return check(prop, tier, seed)
    except NoAnswer as e:
        log(f"no answer: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
