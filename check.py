#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current tree.

1. extracts /repo/src/store into one Verus file with the contracts of
   contracts/*.vx (vx gen) and has Verus discharge every obligation;
2. builds /repo's code into the replay harness, which searches for an input
   that breaks the property (to attach an input to a failed obligation, and as
   the labelled bounded stand-in for functions the extraction cannot bring
   under contract);
3. writes evidence/PROPERTY.json; exits 0, or 1 with a VIOLATION line.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
STORE = REPO + "/src/store"
ANN = HERE + "/contracts"
FEATURE = {}
for _f, _ps in {"buffers": "C10 C11 C12 C13", "codec": "C06 C07 C08 C09",
                "columns": "C01 C02 C03 C04 C17", "io": "C15", "segment": "C05 C14 C16"}.items():
    for _p in _ps.split():
        FEATURE[_p] = _f
for _p in "C01 C02 C03 C04 C17".split():
    FEATURE[_p] = "columns,segment"

ENV = dict(os.environ)
ENV["HOME"] = "/root"
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
for _k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(_k, None)
RENV = dict(ENV)
RENV["RUSTUP_TOOLCHAIN"] = "stable"

T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def sh(cmd, env=ENV, timeout=None, cwd=None):
    """(rc, stdout, stderr); rc None on timeout"""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, start_new_session=True, text=True, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


# ------------------------------------------------------------------ building

class Lock:
    def __enter__(self):
        self.f = open(HERE + "/.lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_vx():
    with Lock():
        rc, o, e = sh(["cargo", "build", "--offline", "--release"], RENV, 600, HERE + "/vx")
    b = HERE + "/vx/target/release/vx"
    if not os.path.exists(b):
        log("vx does not build:\n" + e[-2000:])
        return None
    return b


def build_replay(vx, feature, work):
    """The harness over the current sources; None when they do not fit it."""
    gen = HERE + "/replay/gen/store"
    with Lock():
        tmp = work + "/store"
        rc, o, e = sh([vx, "widen", "--src", STORE, "--out", tmp])
        if rc != 0:
            return None, "widen: " + e
        with open(tmp + "/segment_metadata.rs", "w") as f:
            f.write('include!(concat!(env!("OUT_DIR"), "/segment_metadata.rs"));\n')
        # only changed files are written, so that cargo rebuilds only on a change
        want = {}
        for d, _, fs in os.walk(tmp):
            for n in fs:
                p = os.path.join(d, n)
                want[os.path.relpath(p, tmp)] = open(p, "rb").read()
        have = {}
        if os.path.isdir(gen):
            for d, _, fs in os.walk(gen):
                for n in fs:
                    p = os.path.join(d, n)
                    have[os.path.relpath(p, gen)] = open(p, "rb").read()
        for r in have:
            if r not in want:
                os.remove(os.path.join(gen, r))
        for r, t in want.items():
            if have.get(r) != t:
                p = os.path.join(gen, r)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(t)
        env = dict(RENV)
        env["VX_PROTO"] = STORE + "/segment_metadata.proto"
        env["CARGO_TARGET_DIR"] = HERE + "/replay/target"
        cmd = ["cargo", "build", "--offline", "--locked"]
        if feature:
            cmd += ["--features", feature]
        rc, o, e = sh(cmd, env, 800, HERE + "/replay")
        if rc != 0:
            return None, e[-4000:]
        b = work + "/replay-bin"
        shutil.copy2(HERE + "/replay/target/debug/replay", b)
        return b, ""


# ------------------------------------------------------------------ verus

VERUS = ["--triggers-mode", "silent", "--num-threads", "8", "--output-json", "--time-expanded"]


class Verus:
    """One extraction plus one run of the verifier."""

    def __init__(self, vx, work, unfit=(), skip=(), tag="a", extra=(), rlimit=30, gen_extra=()):
        self.out = "%s/out.rs" % work
        self.mapf = "%s/map.json" % work
        cmd = [vx, "gen", "--src", STORE, "--ann", ANN, "--out", self.out, "--map", self.mapf,
               "--baseline", ANN + "/baseline.json"]
        if unfit:
            cmd += ["--unfit", ",".join(sorted(unfit))]
        cmd += list(gen_extra)
        rc, o, e = sh(cmd, timeout=60)
        self.gen_error = None
        if rc != 0:
            self.gen_error = e.strip()
            return
        self.map = json.load(open(self.mapf))
        self.text = open(self.out).read().split("\n")
        self.run(work, extra, rlimit)

    def run(self, work, extra, rlimit, timeout=400):
        self.cmd = ["verus", self.out, "--rlimit", str(rlimit)] + VERUS + list(extra) + ["--", "--error-format=json"]
        t = time.time()
        rc, o, e = sh(self.cmd, timeout=timeout, cwd=work)
        self.wall = time.time() - t
        self.timeout = rc is None
        self.stderr = e
        try:
            self.json = json.loads(o)
        except ValueError:
            self.json = {}
        self.diags = []
        for l in e.split("\n"):
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
                    self.diags.append(d)
        self.results = self.json.get("verification-results") or {}
        self.compiled = bool(self.results) and not self.results.get("encountered-vir-error") \
            and all(not d.get("code") for d in self.diags) \
            and (self.results.get("verified") or 0) + (self.results.get("errors") or 0) > 0
        self.fn_results = {}
        self.times = {}
        for m in ((self.json.get("times-ms") or {}).get("smt") or {}).get("smt-run-module-times") or []:
            for f in m.get("function-breakdown", []):
                n = f["function"]
                self.fn_results[n] = self.fn_results.get(n, True) and f["success"]
                self.times[n] = self.times.get(n, 0) + f["time-micros"]

    def fn_at(self, line):
        for f in self.map["fns"]:
            if f["gen"][0] <= line <= f["gen"][1]:
                return f
        return None

    def locate(self, d):
        """(fn the failing obligation belongs to, clause line or None)"""
        clause = None
        own = []
        for s in d["spans"]:
            lab = s.get("label") or ""
            if "failed this postcondition" in lab or "failed precondition" in lab or lab.startswith("failed"):
                clause = s["line_start"]
                if "precondition" in lab:
                    continue
            own.append(s)
        own.sort(key=lambda s: not s["is_primary"])
        best = None
        for s in own:
            f = self.fn_at(s["line_start"])
            if f and f["has_body"] and not f["unfit"]:
                # for a trait method the clause may stand in the trait
                if best is None or s["is_primary"]:
                    if not (s["line_start"] == clause and best is not None):
                        best = f
        return best, clause

    def in_client(self, line):
        for i in range(min(line, len(self.text)) - 1, -1, -1):
            if self.text[i].startswith("    // VX_CLIENT_"):
                return "BEGIN" in self.text[i]
        return False

    def tags(self, line):
        m = re.search(r"//\s*\[((?:C\d\d,?\s*)+)\]", self.text[line - 1]) if line else None
        return [x.strip() for x in m.group(1).split(",") if x.strip()] if m else None


def decide(vx, work, deadline, settled=lambda: False):
    """Runs the verifier until every function is verified, failing or set aside.
    `settled()`: a failing input is known, no need to try a failed proof again."""
    global ANN
    unfit, notes = {}, []
    v = None
    extra = meta_args(vx, work)
    for rnd in range(12):
        v = Verus(vx, work, unfit, gen_extra=extra)
        if v.gen_error:
            return None, {}, {}, ["extraction failed: " + v.gen_error]
        if v.compiled or v.timeout:
            break
        # the client programs (contracts/9*_client.vx) are no part of the code:
        # they go first
        if ANN == HERE + "/contracts" and any(v.in_client(s["line_start"]) for d in v.diags for s in d["spans"]):
            ANN = work + "/contracts"
            shutil.copytree(HERE + "/contracts", ANN, ignore=shutil.ignore_patterns("9*_client.vx"))
            notes.append("the client programs of contracts/9*_client.vx do not fit the changed signatures")
            log(notes[-1])
            continue
        # does not compile under the verifier: set the functions concerned aside
        new = {}
        for d in v.diags:
            for s in d["spans"]:
                f = v.fn_at(s["line_start"])
                if f and f["has_body"] and f["key"] not in unfit and not f["unfit"]:
                    new.setdefault(f["key"], d["message"][:200])
        if not new:
            msg = "; ".join(d["message"] for d in v.diags)[:600] or v.stderr[-600:]
            return None, {}, {}, notes + ["the extracted crate is outside the verifier's reach: " + msg]
        # unchanged functions only go when no changed one is concerned
        ch = {k for k in new if next(f for f in v.map["fns"] if f["key"] == k)["changed"]}
        for k in (ch or new):
            unfit[k] = new[k]
        log("set aside:", ", ".join(ch or new))
        if time.time() > deadline:
            break
    if v is None or not v.compiled:
        return None, {}, unfit, notes + ["the verifier gave no answer"]
    fails = failing(v)
    # a proof found by any attempt is a proof
    for seed, rl in ((11, 60), (23, 120), (5, 120)):
        if not fails or time.time() > deadline or settled():
            break
        log("retry (seed %d):" % seed, ", ".join(sorted(k for k in fails)))
        mods = sorted({module_of(k) for k in fails})
        w = Verus.__new__(Verus)
        w.__dict__.update({k: v.__dict__[k] for k in ("out", "map", "text", "gen_error")})
        args = ["--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed]
        for m in mods:
            args += (["--verify-root"] if m == "" else ["--verify-only-module", m])
        w.run(work, args, rl, timeout=max(30, min(200, deadline + 60 - time.time())))
        if not w.compiled:
            break
        again = failing(w)
        for k in list(fails):
            if k not in again:
                fails.pop(k)
        for n, ok in w.fn_results.items():
            if ok:
                v.fn_results[n] = True
        for k in fails:
            if fails[k]["kind"] == "rlimit" and again[k]["kind"] != "rlimit":
                fails[k] = again[k]
    return v, fails, unfit, notes


def meta_args(vx, work):
    """The metadata types are generated by /repo's build from the .proto; when it
    differs from the committed one, they are generated again."""
    proto = STORE + "/segment_metadata.proto"
    try:
        h = hashlib.sha256(open(proto, "rb").read()).hexdigest()
        base = open(ANN + "/proto.sha256").read().strip()
    except OSError:
        return []
    if h == base:
        return []
    gen = None
    for d, _, fs in os.walk(HERE + "/replay/target/debug/build"):
        for n in fs:
            if n == "segment_metadata.rs":
                p = os.path.join(d, n)
                if gen is None or os.path.getmtime(p) > os.path.getmtime(gen):
                    gen = p
    return ["--meta", gen] if gen else []


def module_of(key):
    rel = key.split(":")[0]
    if rel == "?":
        return ""
    p = "store/" + rel[:-3]
    if p.endswith("/mod"):
        p = p[:-4]
    return p.replace("/", "::")


def failing(v):
    """fn key -> {kind, msgs, tags, fn}; key '?:line' for a lemma of the contracts"""
    r = {}
    for d in v.diags:
        f, clause = v.locate(d)
        msg = d["message"]
        kind = "rlimit" if ("Resource limit" in msg or "rlimit" in msg or "timeout" in msg.lower()) else "failed"
        if f:
            key = f["key"]
        else:
            l = d["spans"][0]["line_start"] if d["spans"] else 0
            key = "%s:?%s" % (enclosing_file(v, l), enclosing_lemma(v, l))
        e = r.setdefault(key, {"kind": kind, "msgs": [], "tags": set(), "fn": f, "soft": True})
        if kind == "failed":
            e["kind"] = "failed"
            e["soft"] = e["soft"] and f is not None and soft(v, f, d)
        t = v.tags(clause) if "postcondition" in msg else None
        if kind == "failed" or not e["tags"]:
            e["tags"] |= set(t if t else (f["props"] if f else []))
        e["msgs"].append(d.get("rendered") or msg)
    return r


def soft(v, f, d):
    """A step of the proof script failed in a function that is no longer the
    annotated text, rather than an obligation of the contract or of the code."""
    if not f["changed"]:
        return False
    prim = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
    if "invariant not satisfied" in d["message"] or "decreases not satisfied" in d["message"]:
        n = " ".join(f["notes"])
        return "loop heads changed" in n or "bindings changed" in n
    # (a failed `assert!` of the code is reported as a precondition)
    for s in prim:
        l = s["line_start"]
        if not (f["gen"][0] <= l <= f["gen"][1]):
            continue
        for i in range(l - 1, f["gen"][0] - 2, -1):
            if "// VX_HINT" in v.text[i]:
                return True
            if "// VX_END" in v.text[i] or "// VX_EXIT" in v.text[i]:
                break
    return False


def enclosing_file(v, line):
    best = "?"
    prev = 0
    for f in v.map["fns"]:
        if f["gen"][0] <= line and f["gen"][0] > prev:
            prev, best = f["gen"][0], f["file"]
    return best


def enclosing_lemma(v, line):
    for i in range(min(line, len(v.text)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", v.text[i])
        if m:
            return m.group(1)
    return str(line)


def probe(vx, work, v, unfit, keys, kind):
    """Reachability behind each precondition: `assert(false)` at the start (kind
    1) or at the end (kind 2) of every body must fail."""
    pw = work + "/probe"
    os.makedirs(pw, exist_ok=True)
    p = Verus.__new__(Verus)
    out = pw + "/out.rs"
    cmd = [vx, "gen", "--src", STORE, "--ann", ANN, "--out", out, "--map", pw + "/map.json",
           "--baseline", ANN + "/baseline.json", "--probe", str(kind)] + meta_args(vx, work)
    if unfit:
        cmd += ["--unfit", ",".join(sorted(unfit))]
    rc, o, e = sh(cmd, timeout=60)
    if rc != 0:
        return None
    p.out, p.map, p.gen_error = out, json.load(open(pw + "/map.json")), None
    p.text = open(out).read().split("\n")
    args = []
    for m in sorted({module_of(k) for k in keys}):
        args += ["--verify-only-module", m]
    p.run(pw, args, 10, timeout=200)
    if not p.results:
        return None
    hit = set()
    for d in p.diags:
        for s in d["spans"]:
            if "VX_PROBE" in p.text[s["line_start"] - 1]:
                f = p.fn_at(s["line_start"])
                if f:
                    hit.add(f["key"])
    return hit


# ------------------------------------------------------------------ evidence

def closure(m, prop):
    by = {}
    for f in m["fns"]:
        by.setdefault(f["key"].rsplit(":", 1)[-1].rsplit("@", 1)[-1], []).append(f)
    seen = {f["key"]: f for f in m["fns"] if prop in f["props"]}
    todo = list(seen.values())
    while todo:
        f = todo.pop()
        for c in f["callees"]:
            for g in by.get(c, []):
                if g["key"] not in seen:
                    seen[g["key"]] = g
                    todo.append(g)
    return list(seen.values())


def verus_name_matches(f, name):
    return name.split("::")[-1] == f["key"].rsplit(":", 1)[-1] and \
        ("out::" + module_of(f["key"]) + "::") in name + "::"


def known(prop):
    r = []
    try:
        for l in open(HERE + "/known-findings.txt"):
            m = re.match(r"known: property=(\w+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append(m.group(2))
    except OSError:
        pass
    return r


def main():
    prop = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(HERE + "/evidence", exist_ok=True)
    work = tempfile.mkdtemp(prefix="vx-%s-" % prop)
    try:
        return go(prop, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def go(prop, tier, seed, work):
    feature = FEATURE[prop]
    quick = tier == "quick"
    secs = 25 if quick else 420
    limit = T0 + (780 if quick else 830)
    replay_file = "%s/evidence/%s.replay.txt" % (HERE, prop)
    if os.path.exists(replay_file):
        os.remove(replay_file)
    vx = build_vx()
    if vx is None:
        # nothing can be said without the extractor; this is an error of the check
        print("ERROR: the extractor does not build")
        return 2
    res = {}
    undecided = []
    tmpd = work + "/scratch"
    os.makedirs(tmpd)
    renv = dict(RENV)
    renv["TMPDIR"] = tmpd

    def search1(binary, secs, seed, out, more):
        rc, o, e = sh([binary, "search", prop, "--seed", str(seed), "--secs", str(secs), "--out", out] + more, renv,
                      secs + 120, work)
        try:
            return json.loads(o.strip().split("\n")[-1])
        except (ValueError, IndexError):
            return {"crashed": "rc=%s %s" % (rc, (e or "")[-800:])}

    def search(binary, secs, seed, out):
        """Harnesses with injected failures have one thread: four processes."""
        n = 4 if feature in ("io", "segment") else 1
        rs = [None] * n

        def one(i):
            rs[i] = search1(binary, secs, seed + i * 7777, out + (".%d" % i if i else ""), ["--random"] if i else [])
        ts = [threading.Thread(target=one, args=(i,)) for i in range(1, n)]
        for t in ts:
            t.start()
        one(0)
        for t in ts:
            t.join()
        for i, r in enumerate(rs):
            if r.get("crashed"):
                return r
        for i, r in enumerate(rs):
            if r["failure"] and not rs[0]["failure"]:
                rs[0]["failure"] = r["failure"]
                shutil.copy2("%s.%d" % (out, i), out)
        f = rs[0]["failure"]
        if f and f["message"].startswith("no result within"):
            # hung, or only slow on this machine?  Alone, and with more time:
            small = ["--small"] if re.search(r"^choices: --small", open(out).read(), re.M) else []
            for _ in range(2):
                rc, o, e = sh([binary, "case", prop] + f["choices"].split() + small, renv, 120, work)
                log("the case that took long, alone: rc", rc)
                if rc == 0:
                    rs[0]["failure"] = None
                    undecided.append("a case took more than the limit, and ended when run alone")
                    break
                if rc == 1:
                    break
        for r in rs[1:]:
            rs[0]["evaluations"] += r["evaluations"]
            rs[0]["distinct_nontrivial"] += r["distinct_nontrivial"]
        return rs[0]

    def harness():
        b, err = build_replay(vx, feature, work)
        if b is None and feature == "columns,segment":  # columns alone, without the segment writer
            b, err = build_replay(vx, "columns", work)
        res["bin"], res["build_error"] = b, err
        log("harness", "built" if b else "does not build")
        if b:
            rc, o, e = sh([b, "known", prop], renv, 120, work)
            res["known"] = o.strip()
            res["search"] = search(b, secs, seed, work + "/fail.txt")
            log("search done:", {k: v for k, v in res["search"].items() if k != "samples"})

    th = threading.Thread(target=harness)
    th.start()
    v, fails, unfit, notes = decide(vx, work, T0 + (330 if quick else 380),
                                    lambda: bool((res.get("search") or {}).get("failure")))
    log("verifier done:", (v.results if v else notes), "failing:", sorted(fails))
    hits = {}
    if v and not (res.get("search") or {}).get("failure"):
        keys = [f["key"] for f in v.map["fns"] if prop in f["props"] and f["has_body"] and not f["unfit"] and f["status"] == "annotated"]
        if not quick:
            keys = [f["key"] for f in closure(v.map, prop) if f["has_body"] and not f["unfit"] and f["status"] == "annotated"]
        for kind in ((1,) if quick else (1, 2)):
            try:
                h = probe(vx, work, v, unfit, keys, kind) if keys and time.time() < limit - 300 else None
            except Exception as ex:  # the probe is a report, not a verdict
                log("probe:", ex)
                h = None
            if h is not None:
                hits["start" if kind == 1 else "end"] = {
                    "probed": len(keys), "reachable": len([k for k in keys if k in h]),
                    "not_shown": sorted(k for k in keys if k not in h)}
        log("probe done")
    th.join()

    # ---- what failed, and for which property
    mine = {}
    other = {}
    if v:
        for k, e in sorted(fails.items()):
            f = e["fn"]
            if f is None:
                undecided.append("%s: a lemma of the contracts no longer holds (%s)" % (k, e["msgs"][0].split("\n")[0]))
            elif e["kind"] == "rlimit":
                undecided.append("%s: resource limit reached" % k)
            elif prop in e["tags"]:
                mine[k] = e
            else:
                other[k] = e
        for f in v.map["fns"]:
            if f["unfit"]:
                undecided.append("%s: %s%s" % (f["key"], f["unfit"], (" (" + unfit[f["key"]] + ")") if f["key"] in unfit else ""))
        for l in v.map["lost"]:
            undecided.append("%s: the function is gone" % l)
    else:
        undecided += notes

    def solid(e):
        f = e["fn"]
        n = " ".join(f["notes"])
        return not e["soft"] and not f["lost_hints"] and "new functions" not in n and "function renamed" not in n and "helper inlined" not in n and "loop structure" not in n and "closure structure" not in n

    for k, e in mine.items():
        if not solid(e):
            undecided.append("%s: the proof does not fit the changed text: %s" % (k, e["msgs"][0].strip().split("\n")[0]))

    s = res.get("search") or {}
    failure = s.get("failure")
    # a failed obligation without an input so far: search longer
    if res.get("bin") and not failure and (mine or other or undecided) and "crashed" not in s:
        more = 60 if quick else 120
        more = int(min(more, limit - time.time() - 130))
        if more > 5:
            log("search again for %d s" % more)
            s2 = search(res["bin"], more, seed + 1000, work + "/fail.txt")
            if "crashed" in s2:
                s = s2
            else:
                s2["evaluations"] += s["evaluations"]
                s2["distinct_nontrivial"] += s["distinct_nontrivial"]
                s2["samples"] = s["samples"]
                s = s2
            failure = s.get("failure")

    known_here = []
    if known(prop) and res.get("known", "").startswith("STILL"):
        for k in known(prop):
            known_here.append(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, k))

    violation = None
    if failure:
        with open(replay_file, "w") as f:
            f.write(open(work + "/fail.txt").read() if os.path.exists(work + "/fail.txt") else json.dumps(failure))
            f.write("\nreplay: build with `python3 %s/check.py %s`, then `replay case %s %s`\n" % (HERE, prop, prop, failure["choices"]))
            for k, e in mine.items():
                f.write("\nfailed obligation in %s:\n%s\n" % (k, "\n".join(e["msgs"])))
        violation = "VIOLATION property=%s replay=%s" % (prop, replay_file)
    elif "crashed" in s and s["crashed"]:
        # the code under test took the process down (stack overflow, abort)
        with open(replay_file, "w") as f:
            f.write("property: %s\nthe harness process died: %s\nseed: %d\n" % (prop, s["crashed"], seed))
        if re.match(r"rc=-(6|11|4|8|7)\b", s["crashed"]):
            violation = "VIOLATION property=%s replay=%s" % (prop, replay_file)
        else:
            undecided.append("the bounded search gave no answer: " + s["crashed"][:200])
    elif any(solid(e) for e in mine.values()):
        with open(replay_file, "w") as f:
            f.write("property: %s\nno failing input was found; obligations that no longer hold:\n" % prop)
            for k, e in mine.items():
                if solid(e):
                    f.write("\n== %s (%s)\n%s\n" % (k, ", ".join(sorted(e["tags"])), "\n".join(e["msgs"])))
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay_file)

    # ---- evidence
    cov = {}
    assumptions = []
    if v:
        fs = closure(v.map, prop)
        base, kani = kani_record(trusted_base(v))
        lem = {n: ok for n, ok in v.fn_results.items()
               if not any(verus_name_matches(f, n) for f in v.map["fns"])}
        under = [f for f in fs if f["has_body"] and f["status"] == "annotated" and not f["unfit"]]
        bad = set(fails)
        disc = [f for f in under if f["key"] not in bad]
        lem_ok = sum(1 for ok in lem.values() if ok)
        cov = {
            "obligations": len(under) + len(lem),
            "discharged": len(disc) + lem_ok,
            "checker_cmd": " ".join(v.cmd).replace(work, "WORK"),
            "trusted_base": base,
            "dependency_contracts_checked_on_the_dependency": kani,
            "back_end": "Verus 0.2026.09.13 with Z3",
            "whole_crate": {"verified": v.results.get("verified"), "errors": v.results.get("errors")},
            "functions_stating_the_property": sorted(f["key"] for f in v.map["fns"] if prop in f["props"]),
            "functions_under_contract": [
                {"function": f["key"], "clauses": f["clauses"], "discharged": f["key"] not in bad} for f in under],
            "lemmas": len(lem),
            "client_programs": sorted(n for n in lem if "vx_client::client_" in n),
            "solver_time_ms": round(sum(v.times.values()) / 1000.0, 1),
            "verifier_wall_s": round(v.wall, 1),
            "reachability_probes": hits,
            "bounded_stand_ins": undecided,
            "failed_for_other_properties": sorted(other),
            "extraction_rewrites": v.map["rewrites"],
            "helpers_inlined": v.map.get("inlined", []),
            "functions_renamed": v.map.get("fn_renames", []),
            "notes": notes,
        }
        assumptions = base
    else:
        cov = {"obligations": 0, "discharged": 0, "checker_cmd": "verus", "trusted_base": [],
               "bounded_stand_ins": undecided}
    cov["bounded_search"] = {k: s.get(k) for k in ("evaluations", "distinct_nontrivial", "enumerated",
                                                   "enumeration_complete", "seconds", "samples")} if s else None
    if s:
        cov["evaluations"] = s.get("evaluations") or 0
        cov["distinct_nontrivial"] = s.get("distinct_nontrivial") or 0
        cov["rule"] = "sequences of choices, from an enumeration of small cases and a seeded random generator; " \
                      "non-trivial when the case reaches the operation the property is about; distinct by the choices made (per process of the search)"
        cov["samples"] = s.get("samples") or []
    else:
        cov["bounded_search"] = "the harness does not build against this tree: " + res.get("build_error", "")[-300:]
    cov["known_findings"] = known_here
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - T0, 1), "violations": 1 if violation else 0}
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
        json.dump(ev, f, indent=1)
    for u in undecided:
        print("bounded:", u)
    if v:
        print("%s: %d of %d obligations discharged; %s cases searched" % (
            prop, cov["discharged"], cov["obligations"], cov.get("evaluations", 0)))
    if violation:
        print(violation)
        return 1
    print("OK property=%s" % prop)
    return 0


def scopes(t):
    """For each line, the modules, impls and traits around it."""
    stack, out = [], []
    head = re.compile(r"\b(mod|impl|trait)\b\s*(?:<[^>]*>\s*)?([^{;]*)\{")
    for l in t:
        out.append([x for x in stack if x])
        c = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])\'', "", l.split("//")[0])
        heads = {m.end() - 1: re.sub(r"\s*:\s*Sized\s*|\s+where .*", "", m.group(2)).strip() for m in head.finditer(c)}
        for i, ch in enumerate(c):
            if ch == "{":
                stack.append(heads.get(i))
            elif ch == "}" and stack:
                stack.pop()
    return out


def trusted_base(v):
    """Mechanical scan of the extracted file for everything not proved."""
    r = []
    t = v.text
    sc = scopes(t)
    for i, l in enumerate(t):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "external_body" in s or "external_type_specification" in s:
            # the item it applies to
            for j in range(i, min(i + 6, len(t))):
                m = re.search(r"\b(fn|struct|enum|trait)\s+(\w+)", t[j])
                if m:
                    f = v.fn_at(j + 1)
                    name = f["key"] if f else "::".join(sc[j] + [m.group(2)])
                    r.append("assumed contract of %s %s" % (m.group(1), name))
                    break
        elif "axiom fn" in s:
            r.append("axiom " + re.search(r"axiom fn (\w+)", s).group(1))
        elif "assume_specification" in s:
            r.append("assumed specification of " + re.sub(r".*assume_specification[^\[]*\[\s*(.*?)\s*\]\s*\(.*", r"\1", s))
        elif re.search(r"\b(assume|admit)\(", s):
            r.append("assumption in a proof: " + s[:120])
    return sorted(set(r))


# What a harness of deps/ settles: (end of the entry in the trusted base, harnesses).
KANI = [
    ("axiom_bp", "bitpack::bp_"), ("axiom_bp_zeros", "bitpack::bp_"), ("BitPacker4x::compress", "bitpack::bp_"),
    ("BitPacker4x::num_bits", "bitpack::bp_num_bits"),
    ("::vx_to_le_bytes", "scalars::le_be_bytes"), ("::vx_to_be_bytes", "scalars::le_be_bytes"),
    ("bool::then_some::<T>", "scalars::moves"), ("core::cmp::min::<T>", "scalars::moves"),
    ("core::cmp::max::<T>", "scalars::moves"), ("core::mem::replace::<T>", "scalars::moves"),
    ("core::mem::take::<T>", "scalars::moves"), ("Option::<&T>::copied", "scalars::moves"),
    ("usize::div_ceil", "scalars::bounded_div_ceil"), ("usize::next_multiple_of", "scalars::bounded_div_ceil"),
    ("::find_position", "lists::bounded_find_position"), ("::vx_chunks", "lists::bounded_chunks"),
    ("axiom_raw_bytes", "lists::bounded_raw_bytes"), ("axiom_repr_len", "lists::bounded_raw_bytes"),
    ("::vx_slice_from_mut", "lists::bounded_slices"), ("vx_array_vec", "lists::bounded_slices"),
]


def kani_record(base):
    """Splits the trusted base by what the recorded run of deps/run.py covers:
    (still assumed, shown by Kani on the dependency's own code).  The record
    counts only for the versions of the crates that /repo locks."""
    try:
        sys.path.insert(0, HERE + "/deps")
        import run as deps
        rec = json.load(open(HERE + "/deps/RECORD.json"))
        if rec["text"] != deps.text() or rec["crates"] != deps.crates(REPO + "/Cargo.lock"):
            return base, []
    except Exception:
        return base, []
    left, shown = [], []
    for e in base:
        hs = [h for end, h in KANI if re.search(r"(^|[^\w])%s$" % re.escape(end.lstrip(":")), e)]
        ok = [k for k, x in rec["harnesses"].items() for h in hs if k.startswith(h)]
        if ok and all(rec["harnesses"][k]["result"] == "SUCCESSFUL" for k in ok):
            at = "bounded" if "bounded" in hs[0] else "for all inputs of the monomorphic instances in deps/src"
            if hs[0].startswith("bitpack"):
                at = "for all inputs"
            shown.append({"contract": e, "by": rec["tool"] + " (recorded in deps/RECORD.json)", "harness": hs[0] + ("*" if len(ok) > 1 else ""),
                          "harnesses": len(ok), "scope": at, "counted_as_proved": False})
        if not ok or "bounded" in hs[0]:
            left.append(e)
    return left, shown


if __name__ == "__main__":
    sys.exit(main())
