#!/usr/bin/env python3
"""Driver of the monitors.  check.py <ID> | setup | replay <file>

Exit 0: held on everything observed.  Exit 1: a VIOLATION line was printed.  Anything else: no verdict.
"""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MON_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
HARNESS = os.path.join(HERE, "harness")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.jsonl")
TARGET = "x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
JOBS = 8
T0 = time.time()


class Inconclusive(Exception):
    pass


class NotForThreads(Inconclusive):
    """the crate's types cannot be handed to or shared with another thread"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building

def tree_hash():
    """of everything a build reads, so that a build never trusts time stamps"""
    h = hashlib.sha256()
    for root in (REPO, HARNESS):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", "data", "__pycache__", ".build"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".py")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode() + b"\0")
                    with open(p, "rb") as g:
                        h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()


def build(kind, one_thread=False):
    """kind: mon | asan | tsan | miri | py.  Returns the path of what was built."""
    target = os.path.join(BUILD, kind)
    os.makedirs(target, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    env.pop("RUSTC_WRAPPER", None)
    flags = "--cfg ronda_verif"
    if one_thread:
        flags += " --cfg mon_one_thread"
    cmd = ["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", HARNESS + "/Cargo.toml"]
    out = target + "/release/mon"
    if kind == "mon":
        flags += " --cfg mon_watch"
    if kind == "asan":
        flags += " -Zsanitizer=address -Cforce-frame-pointers=yes"
        cmd[1:1] = ["+nightly"]
        cmd += ["--target", TARGET]
        out = f"{target}/{TARGET}/release/mon"
    elif kind == "tsan":
        flags += " -Zsanitizer=thread"
        cmd[1:1] = ["+nightly"]
        cmd += ["--target", TARGET, "-Zbuild-std"]
        out = f"{target}/{TARGET}/release/mon"
    elif kind == "miri":
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--manifest-path", HARNESS + "/Cargo.toml", "--"]
        env["MIRIFLAGS"] = "-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks"
        out = None
    elif kind == "py":
        flags = ""
        cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", REPO + "/python/Cargo.toml"]
        out = None
    env["RUSTFLAGS"] = flags
    stamp = os.path.join(target, "stamp")
    want = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != want:
        # drop what cargo remembers of the crates under test, whatever the time stamps say
        for d, ds, fs in os.walk(target):
            if os.path.basename(d) == ".fingerprint":
                for x in ds:
                    if x.startswith(("libronda-", "ronda-py-", "mon-")):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds[:] = []
    t = time.time()
    p = subprocess.run(cmd, env=env, cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
    stuck = re.findall(r"`[^`\n]*` cannot be (?:shared|sent) between threads safely", p.stdout) if kind != "py" and p.returncode != 0 else []
    if stuck:
        raise NotForThreads("; ".join(sorted(set(stuck))))
    if kind == "miri":
        if "usage: mon" not in p.stdout:
            raise Inconclusive("miri build failed:\n" + p.stdout[-3000:])
    elif p.returncode != 0:
        raise Inconclusive(f"{kind} build failed:\n" + p.stdout[-3000:])
    if kind == "py":
        so = [os.path.join(target, "debug", f) for f in ("libronda.so", "lib_ronda.so", "libronda_py.so") if os.path.exists(os.path.join(target, "debug", f))]
        if len(so) != 1:
            raise Inconclusive(f"which shared object? {so}")
        d = os.path.join(target, "module")
        os.makedirs(d, exist_ok=True)
        shutil.copy(so[0], os.path.join(d, "_ronda.so"))
        out = d
    with open(stamp, "w") as f:
        f.write(want)
    log(f"built {kind} in {time.time() - t:.1f} s")
    return (cmd, env) if kind == "miri" else out


def build_any(kind):
    """for workloads of one thread, C16 has the rest"""
    try:
        return build(kind)
    except NotForThreads as e:
        log("single-threaded build:", e)
        return build(kind, True)


def no_core():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, timeout, env=None, cwd=None):
    """(returncode or None on time out, stdout, stderr)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, cwd=cwd, preexec_fn=no_core, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out, err


# ---------------------------------------------------------------- results

def violation(pid, message, replay):
    os.makedirs(REPLAYS, exist_ok=True)
    body = json.dumps(dict(replay, property=pid, message=message, seed=SEED, tier=TIER), indent=1)
    path = os.path.join(REPLAYS, f"{pid}-{hashlib.sha256(body.encode()).hexdigest()[:16]}.json")
    with open(path, "w") as f:
        f.write(body)
    print(message)
    print(f"VIOLATION property={pid} replay={path}", flush=True)


def evidence(pid, coverage, assumptions, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": coverage, "assumptions": assumptions, "wall_s": round(time.time() - T0, 3), "violations": violations}, f, indent=1)
        f.write("\n")


def finish(pid, viol, problems, coverage, assumptions):
    coverage["inconclusive"] = problems
    evidence(pid, coverage, assumptions, 1 if viol else 0)
    if viol:
        violation(pid, *viol)
        return 1
    if problems:
        for p in problems:
            log("inconclusive:", p)
        return 2
    print(f"{pid} held on {coverage['evaluations']} evaluations, {coverage['distinct_nontrivial']} distinct non-trivial ({time.time() - T0:.1f} s)")
    return 0


# ---------------------------------------------------------------- C01..C15, C19..C24

def randomized(pid):
    mon = build_any("mon")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    p = subprocess.run([mon, "run", "--id", pid, "--seed", str(SEED), "--tier", TIER, "--repo", REPO, "--evidence", f"{HERE}/evidence/{pid}.json", "--replays", REPLAYS, "--known", KNOWN], cwd=BUILD)
    return p.returncode if p.returncode in (0, 1) else 2


# ---------------------------------------------------------------- C16

def purity_cmd(mon, seed, queries, order, threads, one=None):
    c = [mon, "purity", "--seed", str(seed), "--queries", str(queries), "--order", str(order), "--threads", str(threads), "--repo", REPO]
    return c + (["--one", one] if one else [])


def surroundings(scratch):
    """environments and working directories that have nothing to do with the questions"""
    words, files = set(), {"repodata.json", ".condarc", "condarc", "environment.yml"}
    for d, _, names in os.walk(os.path.join(REPO, "core", "src")):
        for n in names:
            if n.endswith(".rs"):
                with open(os.path.join(d, n), encoding="utf-8", errors="replace") as f:
                    text = f.read()
                words.update(re.findall(r'"([A-Za-z_][A-Za-z0-9_]{1,39})"', text))
                files.update(re.findall(r'"(\.?[A-Za-z0-9_-]{1,39}(?:\.[A-Za-z0-9_.-]{1,39})?)"', text))
    words |= {w.upper() for w in words}
    words = {w for w in words if w != "PATH" and not w.startswith(("LD_", "TMP"))}
    odd = os.path.join(scratch, "a b é")
    os.makedirs(odd, exist_ok=True)
    for n in sorted(files):
        with open(os.path.join(odd, n), "w") as f:
            f.write("{}")
    known = ["LANG", "LC_ALL", "LC_COLLATE", "LC_NUMERIC", "TZ", "HOME", "USER", "CONDA_PREFIX", "CONDARC", "CONDA_SUBDIR", "RUST_LOG", "RUST_BACKTRACE", "RUST_MIN_STACK", "NO_COLOR", "TERM", "COLUMNS", "CI", "DEBUG", "PWD"]
    base = {"PATH": os.environ.get("PATH", ""), "TMPDIR": odd}
    out = [("an empty environment", dict(base), "/")]
    for v in ("1", "", "tr_TR.UTF-8"):
        e = dict(base)
        for k in sorted(words) + known:
            e[k] = v
        e["RUST_MIN_STACK"] = "4194304"
        out.append((f"every variable the sources name set to {v!r}", e, odd))
    return out


def c16():
    thorough = TIER == "thorough"
    try:
        mon = build("mon")
        tsan = build("tsan")
    except NotForThreads as e:
        # nothing to run: a program that shares them does not even compile
        return finish("C16", (f"specs, trees, versions or results can no longer be shared between threads: {e}", {"kind": "threads"}), [], {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the program that shares them between threads is compiled", "samples": [str(e)]}, [])
    viol, problems, samples = None, [], []
    queries = 3000 if thorough else 1500
    seeds = [SEED * 1000 + k for k in range(40 if thorough else 10)]
    orders = list(range(1, 25 if thorough else 9))
    schedules, switches, ops, distinct = set(), 0, 0, set()
    isolated = multi = elsewhere = races = shared = tsan_runs = tsan_ops = 0
    kinds = [0] * 7

    scratch = tempfile.mkdtemp(prefix="ronda-c16-")
    around = surroundings(scratch)

    def ask(cmd, timeout=300, env=None, cwd=None):
        rc, out, err = run(cmd, timeout, env, cwd)
        if rc is None:
            return "timeout", None, err
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", err)
        if m:
            return "race", None, m.group(0) + "\n" + err[:4000]
        if rc != 0:
            return "crash", None, f"exit {rc}: {err[-1500:]}"
        try:
            return "ok", json.loads(out), err
        except ValueError:
            return "crash", None, "unreadable answer"

    with ThreadPoolExecutor(JOBS) as ex:
        for s in seeds:
            if viol:
                break
            kind, base, err = ask(purity_cmd(mon, s, queries, 0, 1))
            if kind != "ok":
                problems.append(f"baseline of seed {s}: {kind} {err[-500:]}")
                continue
            ref = {i: a for i, a, _ in base["answers"]}
            text = {i: t for i, _, t in base["answers"]}
            distinct.update(text.values())
            kinds = [x + y for x, y in zip(kinds, base["kinds"])]
            ops += base["operations"]
            if base["bad"]:
                b = base["bad"]
                viol = (f"{b['query']}: answered {b['first']} at first and {b['later']} when asked again", {"kind": "purity", "args": ["--order", "0", "--threads", "1"], "world": s, "queries": queries})
                break
            # single questions in processes of their own, nothing before them
            rnd = random.Random(s)
            picked = rnd.sample(range(queries), 400 if thorough else 160)
            alone = list(ex.map(lambda i: (i, ask(purity_cmd(mon, s, queries, 0, 1, str(i)))), picked))
            for i, (kind, r, err) in alone:
                if kind != "ok":
                    problems.append(f"question {i} of seed {s} alone: {kind} {err[-300:]}")
                    continue
                isolated += 1
                if r["answers"][0][1] != ref[i]:
                    viol = viol or (f"{text[i]}: answered {r['answers'][0][1]} in a fresh process but {ref[i]} after other questions", {"kind": "purity", "args": ["--one", str(i)], "world": s, "queries": queries})
            # the same questions elsewhere
            for n, (kind, r, err) in zip(around, ex.map(lambda x: ask(purity_cmd(mon, s, queries, 0, 1), 300, x[1], x[2]), around)):
                if kind != "ok":
                    problems.append(f"{n[0]}, seed {s}: {kind} {err[-300:]}")
                    continue
                elsewhere += 1
                ops += r["operations"]
                for i, a, tx in r["answers"]:
                    if a != ref[i]:
                        viol = viol or (f"{tx}: answered {ref[i]} here and {a} in {n[2]} with {n[0]}", {"kind": "purity", "args": ["--order", "0", "--threads", "1"], "env": n[1], "world": s, "queries": queries})
            # other orders and other threads
            plan = [(o, 1 if o % 4 == 3 else (8 if o % 4 else 3)) for o in orders]
            # few processes at a time: each has several threads
            for at in range(0, len(plan), 4):
                if viol:
                    break
                for (o, t), (kind, r, err) in zip(plan[at:at + 4], ex.map(lambda p: ask(purity_cmd(mon, s, queries, p[0], p[1])), plan[at:at + 4])):
                    if kind != "ok":
                        problems.append(f"order {o} with {t} threads of seed {s}: {kind} {err[-300:]}")
                        continue
                    multi += 1
                    ops += r["operations"]
                    switches += r["switches"]
                    schedules.add(r["schedule"])
                    shared += bool(r["shared_objects"])
                    args = {"kind": "purity", "args": ["--order", str(o), "--threads", str(t)], "world": s, "queries": queries}
                    if r["bad"]:
                        b = r["bad"]
                        viol = viol or (f"{b['query']}: answered {b['first']} and {b['later']} in one process with {t} threads", args)
                    for i, a, tx in r["answers"]:
                        if a != ref[i]:
                            viol = viol or (f"{tx}: answered {ref[i]} in one order and {a} in another (order {o}, {t} threads)", args)
            samples.append({"seed": s, "question": text[picked[0]], "answer": ref[picked[0]]})
        # data races, observed by ThreadSanitizer over the same workload
        if not viol:
            env = dict(os.environ, TSAN_OPTIONS="halt_on_error=1 exitcode=66 history_size=4")
            plan = [(s, o) for s in seeds for o in ([1, 2, 3, 4] if thorough else [1, 2])]
            for (s, o), (kind, r, err) in zip(plan, ThreadPoolExecutor(3).map(lambda p: ask(purity_cmd(tsan, p[0], 400, p[1], 4), 400, env), plan)):
                if kind == "race":
                    viol = viol or (f"data race between threads using the library: {err[:1500]}", {"kind": "tsan", "args": ["--order", str(o), "--threads", "4"], "world": s, "queries": 400})
                elif kind != "ok":
                    problems.append(f"ThreadSanitizer run {s}/{o}: {kind} {err[-300:]}")
                else:
                    tsan_runs += 1
                    tsan_ops += r["operations"]
                    schedules.add(r["schedule"])
                    if r["bad"]:
                        b = r["bad"]
                        viol = viol or (f"{b['query']}: answered {b['first']} and {b['later']} under ThreadSanitizer", {"kind": "tsan", "args": ["--order", str(o), "--threads", "4"], "world": s, "queries": 400})
    shutil.rmtree(scratch, ignore_errors=True)
    if not viol and not problems:
        if multi == 0 or elsewhere == 0 or tsan_runs == 0 or switches < 1000:
            problems.append("no interleavings were observed")
    return finish("C16", viol, problems, {
        "evaluations": ops + isolated + tsan_ops, "distinct_nontrivial": len(distinct),
        "rule": "an evaluation is one question (compare, match, parse, write out, operator lookup) asked in some history and compared with the answer in another; distinct by the question; all are non-trivial: each is asked after, before and besides every other",
        "samples": samples or ["none"], "questions_in_fresh_processes": isolated, "reordered_or_threaded_runs": multi, "runs_in_other_environments": elsewhere, "runs_sharing_objects_between_threads": shared, "thread_switches_observed": switches,
        "distinct_interleavings": len(schedules), "tsan_runs": tsan_runs, "tsan_operations": tsan_ops, "questions_by_kind": dict(zip(["compare", "match", "parse", "write", "operator", "read file", "rewrite file"], kinds)),
    }, ["interleavings are those the scheduler produced, not all", "ThreadSanitizer sees the races of the executions it runs"], )


# ---------------------------------------------------------------- C17

def c17():
    thorough = TIER == "thorough"
    asan = build_any("asan")
    miri, menv = build_any("miri")
    viol, problems = None, []
    scratch = tempfile.mkdtemp(prefix="ronda-c17-")
    try:
        env = dict(os.environ, ASAN_OPTIONS="halt_on_error=1:exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=0:quarantine_size_mb=64:malloc_fill_byte=203:max_malloc_fill_size=4096:handle_abort=0")
        per = 20000 if thorough else 2500
        secs = 300 if thorough else 60

        def asan_run(k):
            d = f"{scratch}/a{k}"
            os.makedirs(d)
            c = [asan, "soak", "--per", str(per), "--seed", str(SEED), "--shard", str(k), "--repo", REPO, "--scratch", d, "--seconds", str(secs)]
            return c, run(c, secs + 240, env)

        ids = ["C02,C07", "C05,C04", "C08", "C09", "C06", "C13,C20", "C03", "C06,C05"]
        msecs = 400 if thorough else 120

        def miri_run(k):
            d = f"{scratch}/m{k}"
            os.makedirs(d)
            c = miri + ["soak", "--per", "100000", "--seed", str(SEED), "--shard", str(100 + k), "--only", ids[k % len(ids)], "--maxlen", "40", "--seconds", str(msecs), "--scratch", d]
            return c, run(c, msecs + 280, menv)

        def judge(tool, c, res):
            """('bad', text) | ('ok', report) | ('?', why)"""
            rc, out, err = res
            m = re.search(r"INVALID-TEXT .*", out)
            if m:
                return "bad", m.group(0)
            m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
            if m and m.group(1) not in ("stack-overflow", "allocation-size-too-big", "out-of-memory", "requested"):
                return "bad", m.group(0) + "\n" + err[err.find("ERROR: Add"):][:3000]
            m = re.search(r"unsafe precondition\(s\) violated[^\n]*", err)
            if m:
                return "bad", m.group(0)
            m = re.search(r"error: Undefined Behavior:[^\n]*", err)
            if m:
                return "bad", m.group(0) + "\n" + err[err.find("error: Undefined"):][:3000]
            if rc is None and out.strip():
                # one case too slow under the tool: what came before it counts
                rc = 0
            if rc is None:
                return "?", "timed out"
            if rc != 0:
                return "?", f"{tool} exit {rc}: {err[-600:]}"
            try:
                whole = [l for l in out.splitlines() if l.startswith("{") and l.endswith("}")]
                return "ok", json.loads(whole[-1])
            except (ValueError, IndexError):
                return "?", "no report"

        tot = {"asan": [0, 0, 0], "miri": [0, 0, 0]}
        done = {"asan": 0, "miri": 0}
        for tool, fn in (("asan", asan_run), ("miri", miri_run)):
            if viol:
                break
            with ThreadPoolExecutor(JOBS) as ex:
                for c, res in ex.map(fn, range(JOBS)):
                    kind, r = judge(tool, c, res)
                    if kind == "bad":
                        viol = viol or (f"{tool}: {r}", {"kind": tool, "cmd": [x for x in c if x]})
                    elif kind == "?":
                        problems.append(f"{tool}: {r}")
                    else:
                        done[tool] += 1
                        for i, k in enumerate(("evaluations", "distinct_nontrivial", "texts_validated")):
                            tot[tool][i] += r[k]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if not viol and not problems and (tot["asan"][0] < 1000 or tot["miri"][0] < 8):
        problems.append("too little was executed")
    return finish("C17", viol, problems, {
        "evaluations": tot["asan"][0] + tot["miri"][0], "distinct_nontrivial": tot["asan"][1] + tot["miri"][1],
        "rule": "a case of any other property's workload, executed under AddressSanitizer (with the standard library's unsafe-precondition checks on) or Miri with Tree Borrows; distinct by its texts within a shard (shards use different seeds), non-trivial as that property says; every text handed out is validated as UTF-8",
        "samples": [f"{t}: {v[0]} cases in {done[t]} processes" for t, v in tot.items()],
        "asan_cases": tot["asan"][0], "asan_texts_validated": tot["asan"][2], "miri_cases": tot["miri"][0], "miri_texts_validated": tot["miri"][2], "asan_processes": done["asan"], "miri_processes": done["miri"],
    }, ["a clean sanitizer run speaks of the executions it saw", "Miri runs with Tree Borrows: the thread_local 1.0 dependency violates the stricter Stacked Borrows model"])


# ---------------------------------------------------------------- C18

def c18():
    mon = build("mon")
    so = build("py")
    thorough = TIER == "thorough"
    count = 4000 if thorough else 700
    viol, problems, samples = None, [], []
    tot = {}
    scratch = tempfile.mkdtemp(prefix="ronda-c18-")
    try:
        def shard(k):
            f = f"{scratch}/o{k}"
            rc, out, err = run([mon, "oracle", "--count", str(count), "--seed", str(SEED * 64 + k), "--repo", REPO], 400)
            if rc != 0:
                return None, f"the core's answers: exit {rc} {err[-300:]}"
            with open(f, "w") as g:
                g.write(out)
            j = f + ".journal"
            # isolated: no site packages, no environment
            res = run(["/usr/bin/python3", "-B", "-I", os.path.join(HERE, "pyside.py"), so, f, j], 500)
            return (f, j, res), None
        with ThreadPoolExecutor(JOBS) as ex:
            for got, e in ex.map(shard, range(JOBS)):
                if e:
                    problems.append(e)
                    continue
                f, j, (rc, out, err) = got
                if rc is None:
                    problems.append("the Python side timed out")
                elif rc < 0 or rc in (134, 139):
                    # died: replay what it was doing, alone
                    try:
                        row = open(j).read().strip()
                    except OSError:
                        row = ""
                    if not row:
                        problems.append(f"the Python side died ({rc}) outside any step: {err[-300:]}")
                        continue
                    g = f + ".one"
                    open(g, "w").write(open(f).read().splitlines()[int(row)] + "\n")
                    rc2, out2, err2 = run(["/usr/bin/python3", "-B", "-I", os.path.join(HERE, "pyside.py"), so, g, g + ".j"], 100)
                    if rc2 is not None and (rc2 < 0 or rc2 in (1, 134, 139)):
                        viol = viol or (f"the Python module kills the interpreter (exit {rc2}): {err2[-600:]}", {"kind": "py", "rows": open(g).read()})
                    else:
                        problems.append(f"the Python side died ({rc}) on row {row}, which does not repeat alone")
                elif rc == 1 and out.startswith("BAD "):
                    b = json.loads(out.splitlines()[0][4:])
                    viol = viol or (b["message"], {"kind": "py", "rows": json.dumps(b["row"]) + "\n"})
                elif rc != 0:
                    problems.append(f"the Python side: exit {rc} {out[-300:]} {err[-600:]}")
                else:
                    r = json.loads(out.splitlines()[-1])
                    for k, v in r["n"].items():
                        tot[k] = tot.get(k, 0) + v
                    samples += r["samples"]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    need = ["comparisons", "startswith", "refused", "created", "type_errors", "sorted"]
    if not viol and not problems:
        problems += [f"the run never observed {k}" for k in need if not tot.get(k)]
    return finish("C18", viol, problems, {
        "evaluations": tot.get("evaluations", 0), "distinct_nontrivial": tot.get("distinct_pairs", 0),
        "rule": "an evaluation is one operation on the real extension module (create, refuse, six comparisons, startswith, repr, foreign operand, sort) judged by the answer of the Rust core on the same texts; distinct non-trivial counts ordered pairs of different texts, per process",
        "samples": samples[:5] or ["none"], "observed": tot,
    }, ["the module is loaded into CPython 3.12 through RustyVersion.__new__: the pinned python3-sys is older than the interpreter and its type objects cannot be called directly"])


# ---------------------------------------------------------------- replay

def replay(path):
    r = json.load(open(path))
    pid, kind = r["property"], r.get("kind")
    if kind == "threads":
        try:
            build("mon")
        except NotForThreads as e:
            print(e)
            return 1
        return 0
    if kind in ("purity", "tsan"):
        b = build("mon" if kind == "purity" else "tsan")
        one = r["args"][1] if r["args"][0] == "--one" else None
        base = json.loads(run(purity_cmd(build("mon"), r["world"], r["queries"], 0, 1), 300)[1])
        c = [b, "purity", "--seed", str(r["world"]), "--queries", str(r["queries"]), "--repo", REPO] + r["args"]
        rc, out, err = run(c, 600, dict(os.environ, TSAN_OPTIONS="halt_on_error=1 exitcode=66", **{k: v for k, v in r.get("env", {}).items() if k not in ("PATH", "TMPDIR")}))
        if "WARNING: ThreadSanitizer" in err:
            print(err[:3000])
            return 1
        o = json.loads(out)
        ref = {i: a for i, a, _ in base["answers"]}
        diff = [(t, ref[i], a) for i, a, t in o["answers"] if ref[i] != a]
        print(json.dumps({"bad": base.get("bad") or o.get("bad"), "differences": diff[:5], "asked": one}, indent=1))
        return 1 if diff or o.get("bad") or base.get("bad") else 0
    if kind in ("asan", "miri"):
        c = list(r["cmd"])
        env = dict(os.environ, ASAN_OPTIONS="halt_on_error=1:exitcode=66:detect_leaks=0")
        if kind == "asan":
            c[0] = build("asan")
        else:
            c, env = build("miri")[0] + c[c.index("soak"):], build("miri")[1]
        d = tempfile.mkdtemp(prefix="ronda-replay-")
        c[c.index("--scratch") + 1] = d
        rc, out, err = run(c, 800, env)
        shutil.rmtree(d, ignore_errors=True)
        print(out[-500:], err[-3000:])
        return 1 if rc not in (0, None) else 0
    if kind == "py":
        so = build("py")
        d = tempfile.mkdtemp(prefix="ronda-replay-")
        open(d + "/rows", "w").write(r["rows"])
        rc, out, err = run(["/usr/bin/python3", "-B", "-I", os.path.join(HERE, "pyside.py"), so, d + "/rows", d + "/j"], 100)
        shutil.rmtree(d, ignore_errors=True)
        print(rc, out[-2000:], err[-2000:])
        return 0 if rc == 0 else 1
    mon = build_any("mon")
    p = subprocess.run([mon, "case", "--file", path, "--repo", REPO, "--history", "1"])
    return p.returncode


def main():
    os.makedirs(BUILD, exist_ok=True)
    what = sys.argv[1] if len(sys.argv) > 1 else ""
    try:
        if what == "setup":
            for k in ("mon", "asan", "tsan", "py", "miri"):
                build(k)
            return 0
        if what == "replay":
            return replay(sys.argv[2])
        special = {"C16": c16, "C17": c17, "C18": c18}
        if what in special:
            return special[what]()
        if re.fullmatch(r"C(0[1-9]|1[0-5]|19|2[0-4])", what):
            return randomized(what)
        print(__doc__)
        return 2
    except Inconclusive as e:
        log("inconclusive:", e)
        return 2
    except subprocess.TimeoutExpired as e:
        log("inconclusive: timed out:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
