#!/usr/bin/env python3
"""Runs one property check:

  1. TLC explores the small models of the specification exhaustively (and checks its own invariants);
  2. TLC generates behaviours of the specification (simulation, seeded), plus the committed scripts;
  3. the driver, compiled from /repo's working tree, executes every generated call on the real library;
  4. TLC validates the recorded trace, line by line, against the specification;
  5. a corrupted copy of an accepted trace must be rejected at exactly the corrupted lines;
  6. every rejection is re-executed and re-validated before it is reported.
"""
import collections, concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8


def fail(msg):
    sys.stderr.write("CHECK-ERROR: " + msg + "\n")
    raise SystemExit(3)


class Work:
    """scratch directory of one check"""

    def __init__(self, pid):
        base = os.path.join(VERIF, ".build", "run")
        os.makedirs(base, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix=pid + ".", dir=base)

    def path(self, name):
        return os.path.join(self.d, name)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def tlc(work, tag, module, cfg, args=(), env=None, timeout=3000, heap="3g", workers=1, gc="-XX:+UseSerialGC"):
    c = work.path(tag + ".cfg")
    with open(c, "w") as f:
        f.write(cfg)
    cmd = ["java", gc, "-Xmx" + heap, "-Xss16m", "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-metadir", work.path(tag + ".meta"),
           "-workers", str(workers), "-noGenerateSpecTE", "-config", c] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    out = work.path(tag + ".out")
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, open(out, errors="replace").read()
    return p.returncode, open(out, errors="replace").read()


def cfg_text(spec, consts, extra=""):
    t = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    for k, v in (consts or {}).items():
        t += "CONSTANT %s %s\n" % (k, v if v.startswith("<-") else "= " + v)
    return t + extra


# ---------------------------------------------------------------- exhaustive models
def model(work, i, m):
    tag = "mc%d" % i
    extra = "".join("INVARIANT %s\n" % x for x in m.get("inv", [])) + "".join("PROPERTY %s\n" % x for x in m.get("prop", [])) + m.get("cfg", "")
    t = time.time()
    rc, out = tlc(work, tag, m["module"], cfg_text(m.get("spec", "Spec"), m.get("consts"), extra), timeout=m.get("timeout", 3000),
                  workers=m.get("workers", 4), heap=m.get("heap", "6g"), gc="-XX:+UseParallelGC")
    g = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if rc != 0 or not g:
        fail("the model %s %s does not satisfy its own properties or did not run:\n%s" % (m["module"], m.get("consts"), out[-3000:]))
    gen, dis = g[-1]
    d = re.findall(r"depth of the complete state graph search is (\d+)", out)
    return {"module": m["module"], "consts": m.get("consts", {}), "invariants": m.get("inv", []) + m.get("prop", []),
            "states": int(dis), "transitions": int(gen), "depth": int(d[-1]) if d else 0, "wall_s": round(time.time() - t, 1)}


# ---------------------------------------------------------------- behaviours
def tla_lines(out):
    for l in out.split("\n"):
        if l.startswith('"{'):
            try:
                yield json.loads(json.loads(l))
            except ValueError:
                pass


def generate(work, shard, g, seed, num, depth):
    tag = "gen%d" % shard
    rc, out = tlc(work, tag, g["module"], cfg_text(g.get("spec", "Spec"), g.get("consts")),
                  args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    lines = list(tla_lines(out))
    if rc != 0 or not lines:
        i = max(out.find("Error:"), 0)
        fail("generation with %s failed:\n%s" % (g["module"], out[i:i + 1500] + "\n...\n" + out[-2500:]))
    return lines


def split(lines):
    out = []
    for l in lines:
        if l["op"] == "begin" or not out:
            out.append([])
        out[-1].append(l)
    return out


def write(path, lines):
    with open(path, "w") as f:
        for l in lines:
            f.write(json.dumps(l, separators=(",", ":")) + "\n")


def read(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


def execute(work, tag, exe, lines, env=None, timeout=3000):
    s, t = work.path(tag + ".script"), work.path(tag + ".trace")
    write(s, lines)
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run([exe, s, t], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=work.d)
    if p.returncode:
        fail("driver failed: " + p.stdout[-2000:])
    return read(t)


def validate(work, tag, v, trace):
    """Returns the list of rejected lines."""
    t = work.path(tag + ".ndjson")
    write(t, trace)
    rc, out = tlc(work, tag, v["module"], cfg_text("Spec", v.get("consts"), "VIEW View\nPOSTCONDITION Accepted\n"), env={"TRACE": t})
    bad = [m for m in tla_lines(out) if "mismatch" in m]
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    n = int(m.group(2)) if m else 0
    if rc == 0 and not bad:
        return [], n
    if bad and "Postcondition Accepted" in out and n == len(trace) + 1:
        return bad, n
    if rc is not None and re.search(r"The exception was|Attempted to|evaluating the nested|In evaluation|java.lang.StackOverflow|TLC threw an unexpected", out):
        # the specification has no meaning for some recorded value: find the scripts concerned
        runs = split(trace)
        if len(runs) > 1:
            bad, at, n, h = [], 0, 0, len(runs) // 2
            for k, part in enumerate((runs[:h], runs[h:])):
                flat = [l for r in part for l in r]
                b, m = validate(work, "%s.%d" % (tag, k), v, flat)
                bad += [dict(x, mismatch=x["mismatch"] + at) for x in b]
                at += len(flat)
                n += m
            return bad, n
        at = min(max(n, 1), len(trace))
        return [{"mismatch": at, "what": "a recorded value outside the domain of the specification", "event": trace[at - 1],
                 "expected": out[-600:]}], n
    fail("validation with %s failed on %s:\n%s" % (v["module"], t, out[-3000:]))


# ---------------------------------------------------------------- corrupted traces
def corrupt(lines, v, rng, want=6):
    """Changes some recorded results; returns the lines (from 1) that must be rejected."""
    idx = [i for i, l in enumerate(lines) if l.get("op") != "begin" and v["corruptible"](l)]
    rng.shuffle(idx)
    out = json.loads(json.dumps(lines))
    done = []
    for i in sorted(idx[:want]):
        if v["corrupt"](out[i], rng):
            done.append(i + 1)
    return out, done


def num_corrupt(path_pred):
    """corrupts a number found in the recorded result of a line"""

    def f(line, rng):
        spots = []

        def walk(x, path):
            if isinstance(x, dict):
                for k in x:
                    walk(x[k], path + [k])
            elif isinstance(x, list):
                for k in range(len(x)):
                    walk(x[k], path + [k])
            elif isinstance(x, int) and not isinstance(x, bool) and path_pred(path):
                spots.append(path)

        walk(line, [])
        if not spots:
            return False
        p = rng.choice(spots)
        o = line
        for k in p[:-1]:
            o = o[k]
        o[p[-1]] += 1
        return True

    return f


# ---------------------------------------------------------------- one check
def known(pid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status") == "open"]
    except FileNotFoundError:
        return []


def matches(k, m, script):
    """a known finding names the call (and the values of its arguments) that fails"""
    e = m["event"]
    for path, val in k["match"].items():
        x = {"event": e, "what": m.get("what"), "script": script}
        for part in path.split("."):
            x = x.get(part) if isinstance(x, dict) else None
        if x != val:
            return False
    return True


def run_check(pid, P, tier, seed):
    t0 = time.time()
    work = Work(pid)
    try:
        rc = _run(pid, P, tier, seed, work, t0)
    finally:
        if not os.environ.get("KEEP"):
            work.close()
    return rc


def _run(pid, P, tier, seed, work, t0):
    thorough = tier == "thorough"
    parts = P["parts"]
    drivers = sorted({p["driver"] for p in parts if "driver" in p})
    exes = build.build(drivers) if drivers else {}
    t_build = time.time() - t0
    replay_dir = os.path.join(VERIF, ".build", "replay", pid)
    shutil.rmtree(replay_dir, ignore_errors=True)

    models, traces, rejected, nlines, nstates, ops, samples = [], 0, [], 0, 0, collections.Counter(), []
    distinct, selftest = set(), {"corrupted_lines": 0, "rejected": 0}
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        futs = []
        for i, m in enumerate(P.get("models", [])):
            if m.get("tier") and m["tier"] != tier:
                continue
            futs.append((ex.submit(model, work, i, m), None))
        jobs = []
        n = 0
        for pi, p in enumerate(parts):
            q = dict(p["thorough"] if thorough else p["quick"])
            shards = q.get("shards", 8)
            if p.get("fixed"):
                for fx in p["fixed"]:
                    n += 1
                    jobs.append((pi, n, ("fixed", fx), 0, 0))
            if "gen" in p:
                for s in range(shards):
                    n += 1
                    jobs.append((pi, n, ("gen", None), q["num"], q["depth"]))

        def job(j):
            pi, n, (kind, arg), num, depth = j
            p = parts[pi]
            if kind == "gen":
                lines = generate(work, n, p["gen"], seed * 1000 + n, num, depth)
            else:
                lines = arg(tier, seed) if callable(arg) else read(os.path.join(VERIF, arg))
            trace = execute(work, "x%d" % n, exes[p["driver"]], lines)
            bad, st = validate(work, "v%d" % n, p["trace"], trace)
            return pi, n, lines, trace, bad, st

        rs = [ex.submit(job, j) for j in jobs]
        for f, _ in futs:
            models.append(f.result())
        done = [f.result() for f in rs]
        for pi, n, lines, trace, bad, st in done:
            p = parts[pi]
            nlines += len(trace)
            nstates += st
            sc, tr = split(lines), split(trace)
            traces += len(tr)
            for l in trace:
                ops["%s/%s" % (l["op"], l.get("st", ""))] += 1
            for s in sc:
                distinct.add(hashlib.sha256(json.dumps(s, sort_keys=True).encode()).hexdigest())
            if not samples and tr:
                samples = [{"script": sc[0][:8], "recorded": json.loads(json.dumps(tr[0][:4]))}]
            # locate the script of every rejected line
            pos, where = 0, []
            for k, s in enumerate(tr):
                where += [k] * len(s)
            for m in bad:
                rejected.append((pi, sc[where[m["mismatch"] - 1]], m))
        # self test of the binding: corrupted copies of accepted traces are rejected where they were corrupted
        st_jobs = []
        seen = set()
        for pi, n, lines, trace, bad, _ in done:
            p = parts[pi]
            if pi in seen or bad or "corrupt" not in p["trace"]:
                continue
            rng = random.Random(seed)
            c, want = corrupt(trace, p["trace"], rng)
            if not want:
                continue
            seen.add(pi)
            st_jobs.append((ex.submit(validate, work, "c%d" % n, p["trace"], c), want))
        for f, want in st_jobs:
            got = {m["mismatch"] for m in f.result()[0]}
            selftest["corrupted_lines"] += len(want)
            selftest["rejected"] += len(set(want) & got)
    if selftest["rejected"] < selftest["corrupted_lines"]:
        fail("self test: %d of %d corrupted lines were accepted" % (selftest["corrupted_lines"] - selftest["rejected"], selftest["corrupted_lines"]))

    # confirm rejections by running their script again
    violations, findings, unconfirmed = [], {}, 0
    for i, (pi, script, m) in enumerate(rejected):
        if len(violations) >= 3:
            break
        kf = [k for k in known(pid) if matches(k, m, script)]
        if kf:
            findings[kf[0]["id"]] = kf[0]
            continue
        p = parts[pi]
        again = []
        for attempt in range(3):
            tr = execute(work, "r%d.%d" % (i, attempt), exes[p["driver"]], script)
            again, _ = validate(work, "rv%d.%d" % (i, attempt), p["trace"], tr)
            again = [a for a in again if not any(matches(k, a, script) for k in known(pid))]
            if again:
                break
        if not again:
            unconfirmed += 1
            continue
        d = os.path.join(replay_dir, str(len(violations)))
        os.makedirs(d, exist_ok=True)
        write(os.path.join(d, "script.ndjson"), script)
        write(os.path.join(d, "trace.ndjson"), tr)
        with open(os.path.join(d, "mismatch.json"), "w") as f:
            json.dump(again, f, indent=1)
        with open(os.path.join(d, "README"), "w") as f:
            f.write("Replay: python3 /verif/check.py %s --replay %s/script.ndjson --part %d\n" % (pid, d, pi))
        violations.append((d, again[0]))
    for k in P.get("known_always", []):
        findings[k["id"]] = k
    cov = {
        "states": sum(m["states"] for m in models) + nstates,
        "transitions": sum(m["transitions"] for m in models) + nlines,
        "traces_validated_against_impl": traces,
        "trace_lines_validated": nlines,
        "distinct_scripts": len(distinct),
        "calls": dict(sorted(ops.items())),
        "models": models,
        "self_test": selftest,
        "unconfirmed_rejections": unconfirmed,
        "build_s": round(t_build, 1),
        "samples": samples,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in findings.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for d, m in violations:
        e = m["event"]
        print("VIOLATION property=%s replay=%s" % (pid, d))
        print("  %s of call %s: recorded %s" % (m.get("what", "line"), json.dumps(e.get("op")), json.dumps(e)[:600]))
        print("  expected %s" % json.dumps(m.get("expected"))[:600])
    if violations:
        return 1
    print("OK property=%s tier=%s traces=%d lines=%d model_states=%d wall=%.1fs (build %.1fs)" %
          (pid, tier, traces, nlines, sum(m["states"] for m in models), time.time() - t0, t_build))
    return 0


def replay(pid, P, part, script):
    work = Work(pid)
    p = P["parts"][part]
    exe = build.build([p["driver"]])[p["driver"]]
    tr = execute(work, "replay", exe, read(script))
    bad, _ = validate(work, "rv", p["trace"], tr)
    for b in bad:
        print(json.dumps(b))
    work.close()
    return 1 if bad else 0
