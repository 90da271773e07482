"""Shared machinery of the checks.

One check = one property:

  1. TLC explores the abstract models of the property exhaustively and exports the abstract scenarios
     (classes of inputs, call histories, ...) they contain;
  2. the scenarios are made concrete (VERIF_SEED) and run against the real code in /repo, in forked
     workers; every observable result is recorded, exactly, as an event of a trace;
  3. TLC checks every trace against the trace specification of the property.  Verdicts are total: a clause
     an event breaks is printed as <<"@F", line, clause>> and checking continues;
  4. canary scenarios (recorded ones with one value corrupted) must be rejected, otherwise the check itself
     is broken and exits 2.
"""
import argparse, hashlib, importlib, json, multiprocessing, os, random, re, shutil, signal
import subprocess, sys, tempfile, time, traceback, warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
CLASSES = os.path.join(VERIF, "build", "classes")
TLA = "/opt/veriftools/tla"
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = ":".join([CLASSES, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"])
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

sys.path.insert(0, HERE)
from bf import bf, unbf, NAN  # noqa: E402


class Machinery(Exception):
    """The check could not decide."""


# ---------------------------------------------------------------------------- TLC
def compile_java():
    srcs = [os.path.join(VERIF, "java", "verif", f) for f in ("BF.java", "Overrides.java")]
    outs = [os.path.join(CLASSES, "verif", f) for f in ("BF.class", "Overrides.class")]
    if all(os.path.exists(o) for o in outs) and min(map(os.path.getmtime, outs)) >= max(map(os.path.getmtime, srcs)):
        return
    os.makedirs(CLASSES, exist_ok=True)
    subprocess.run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", CLASSES] + srcs,
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def tlc_start(module, scratch, name, env=None, workers=1, cfg=None, extra=(), xmx="1500m"):
    meta = os.path.join(scratch, "tlc-" + name)
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss32m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.Overrides",
           "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    out = open(os.path.join(meta, "out.txt"), "w")
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT)
    p.out_path = out.name
    out.close()
    return p


def tlc_wait(p, what, timeout=800):
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise Machinery("TLC timed out on " + what)
    text = open(p.out_path).read()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return rc, text, gen, dist


def tlc_model(module, scratch, env=None, workers=4, cfg=None, extra=(), timeout=600):
    """Explore a model exhaustively; any error is an error of the machinery (the design is broken)."""
    p = tlc_start(module, scratch, "m-" + (cfg or module), env, workers, cfg, extra, "4g")
    rc, text, gen, dist = tlc_wait(p, module, timeout)
    if rc != 0:
        raise Machinery("model %s: TLC exit %s\n%s" % (module, rc, text[-3000:]))
    return gen, dist, text


# ---------------------------------------------------------------------------- driving the code
class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


_PROP = None
_CTX = None


def _run_one(scn):
    """Runs one concrete scenario; anything that goes wrong becomes an Error event."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(scn.get("timeout", 60)))
    try:
        ev = _PROP.run(scn, _CTX)
    except Hang:
        ev = [{"kind": "Error", "what": "no result within the time limit"}]
    except Exception as ex:  # noqa: BLE001
        tb = traceback.extract_tb(ex.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO)]
        if not inrepo and not isinstance(ex, Unexpected):
            return scn["sid"], None, "".join(traceback.format_exception(ex))
        ev = [{"kind": "Error", "what": "%s: %s" % (type(ex).__name__, str(ex)[:200])}]
    finally:
        signal.alarm(0)
    for e in ev:
        e["sid"] = scn["sid"]
    return scn["sid"], ev, None


class Unexpected(Exception):
    """The code returned something of an unexpected shape (a violation, not a machinery failure)."""


def drive(prop, ctx, scns):
    global _PROP, _CTX
    _PROP, _CTX = prop, ctx
    res = {}
    if WORKERS == 1 or len(scns) == 1:
        it = map(_run_one, scns)
        pool = None
    else:
        pool = multiprocessing.get_context("fork").Pool(WORKERS)
        it = pool.imap_unordered(_run_one, scns, chunksize=max(1, min(16, len(scns) // (WORKERS * 8))))
    try:
        for sid, ev, err in it:
            if err:
                raise Machinery("driver failed on %s\n%s" % (sid, err))
            res[sid] = ev
    finally:
        if pool:
            pool.terminate()
            pool.join()
    return res


# ---------------------------------------------------------------------------- checking traces
def check_traces(prop, groups, scratch, shards=WORKERS, timeout=800):
    """groups: list of (sid, events). Returns {sid: {clause: first line text}}, stats."""
    module = prop.TRACE
    cost = getattr(prop, "cost", len)
    bins = [[0, []] for _ in range(max(1, min(shards, len(groups))))]
    for g in sorted(groups, key=lambda g: -cost(g[1])):
        b = min(bins, key=lambda b: b[0])
        b[0] += cost(g[1])
        b[1].append(g)
    procs = []
    for i, (_, gs) in enumerate(bins):
        path = os.path.join(scratch, "trace-%d.ndjson" % i)
        owner = []
        with open(path, "w") as f:
            for sid, ev in gs:
                for e in ev:
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
                    owner.append((sid, e["kind"]))
        procs.append((tlc_start(module, scratch, "t%d" % i, {"VERIF_TRACE": path}, 1), owner, path))
    fails, gen, dist, lines = {}, 0, 0, 0
    err = None
    for p, owner, path in procs:
        rc, text, g, d = tlc_wait(p, "trace", timeout)
        gen += g
        dist += d
        lines += len(owner)
        for m in re.finditer(r'<<\s*"@F",\s*(\d+),\s*"([^"]*)"\s*>>', text):
            n = int(m.group(1)) - 1
            fails.setdefault(owner[n][0], {}).setdefault(m.group(2), owner[n][1])
        if rc != 0:
            err = "trace specification %s: TLC exit %s on %s\n%s" % (module, rc, path, text[-3000:])
    if err:
        keep = os.environ.get("VERIF_KEEP")
        raise Machinery(err + ("" if keep else ""))
    return fails, gen, dist, lines


# ---------------------------------------------------------------------------- main
def known_findings(pid):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        d = json.load(f)
    return [k for k in d["known"] if k["property"] == pid]


class Ctx:
    pass


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="regular expression of scenario ids")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)
    t0 = time.time()
    pid = args.pid
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    rc = 2
    try:
        mpl = os.path.join(scratch, "mpl")
        if os.path.isdir("/opt/vp/mplconfig"):
            shutil.copytree("/opt/vp/mplconfig", mpl)
        os.environ.update(MPLCONFIGDIR=mpl, MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                          PYTHONDONTWRITEBYTECODE="1", TMPDIR=scratch)
        sys.dont_write_bytecode = True
        sys.path.insert(0, REPO)
        warnings.simplefilter("ignore")
        compile_java()
        rc = check(pid, args, seed, scratch, t0)
    except Machinery as ex:
        print("CHECK ERROR property=%s %s" % (pid, ex))
        rc = 2
    except Exception:  # noqa: BLE001
        traceback.print_exc(file=sys.stdout)
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc


def check(pid, args, seed, scratch, t0):
    prop = importlib.import_module("props." + pid)
    ctx = Ctx()
    ctx.pid, ctx.seed, ctx.tier, ctx.scratch = pid, seed, args.tier, scratch
    ctx.thorough = args.tier == "thorough"
    ctx.rng = lambda *k: random.Random("%s/%s/%s" % (seed, pid, "/".join(map(str, k))))
    timing = {}

    # 1. abstract models
    t = time.time()
    models, scns_abs = {}, {}
    mg = md = 0
    procs = []
    for m in prop.MODELS:
        name, cfg = (m, m) if isinstance(m, str) else m
        out = os.path.join(scratch, cfg + ".scn.ndjson")
        extra = getattr(prop, "MODEL_ARGS", {}).get(cfg, [])
        extra = [x.replace("@SEED", str(seed)) for x in extra]
        procs.append((name, cfg, out, tlc_start(name, scratch, "m-" + cfg,
                      {"VERIF_OUT": out, "VERIF_TIER": args.tier}, 2, cfg, extra, "3g")))
    for name, cfg, out, p in procs:
        rc, text, gen, dist = tlc_wait(p, name, 700)
        if rc != 0:
            raise Machinery("model %s: TLC exit %s\n%s" % (cfg, rc, text[-3000:]))
        models[cfg] = {"states": dist, "transitions": gen}
        mg += gen
        md += dist
        scns_abs[cfg] = [json.loads(x) for x in open(out)] if os.path.exists(out) else []
    ctx.models = scns_abs
    timing["models"] = round(time.time() - t, 1)

    # 2. concrete scenarios, run against the code
    t = time.time()
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        scns = [rep["scenario"]]
    else:
        scns = list(prop.scenarios(ctx))
        if args.only:
            scns = [s for s in scns if re.search(args.only, s["sid"])]
    assert len({s["sid"] for s in scns}) == len(scns), "duplicate scenario ids"
    by = {s["sid"]: s for s in scns}
    recorded = drive(prop, ctx, scns)
    groups = [(sid, ev) for sid, ev in recorded.items() if ev]
    timing["drive"] = round(time.time() - t, 1)

    # canaries
    can, can_error = [], None
    if not args.replay and hasattr(prop, "canaries"):
        # canaries are altered recordings; recordings of broken code may be too odd to alter
        try:
            for i, (name, ev, clause) in enumerate(prop.canaries(dict(groups), ctx)):
                sid = "canary-%d-%s" % (i, name)
                ev = json.loads(json.dumps(ev))
                for e in ev:
                    e["sid"] = sid
                can.append((sid, ev, clause))
        except Exception:  # noqa: BLE001
            can_error = traceback.format_exc()

    # 3. conformance
    t = time.time()
    fails, tg, td, lines = check_traces(prop, groups + [(s, e) for s, e, _ in can], scratch)
    timing["conformance"] = round(time.time() - t, 1)

    # 4. verdict
    blind = []
    names = {}
    for sid, _, clause in can:
        hit = fails.pop(sid, {})
        ok = clause in hit if clause else bool(hit)
        names.setdefault(sid.split("-", 2)[2], []).append(ok)
    blind = [n for n, oks in names.items() if not any(oks)]
    known = {k["sid"]: k for k in known_findings(pid)}
    viol = 0
    reported = []
    for sid in sorted(fails):
        k = known.get(sid)
        if k and set(fails[sid]) <= set(k["clauses"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            continue
        viol += 1
        reported.append(sid)
    rdir = os.path.join(VERIF, "evidence", "replay")
    if reported:
        os.makedirs(rdir, exist_ok=True)
    for n, sid in enumerate(reported):
        path = os.path.join(rdir, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", sid)[:80]))
        if n < 10:
            with open(path, "w") as f:
                json.dump({"property": pid, "scenario": by[sid], "failed_clauses": fails[sid]}, f, indent=1, default=str)
            why = [e["what"] for e in recorded.get(sid, ()) if e["kind"] == "Error"]
            print("%s: scenario %s breaks %s%s" % (pid, sid, ", ".join("%s[%s]" % (c, k) for c, k in sorted(fails[sid].items())),
                                                   " (%s)" % why[0] if why else ""))
        if n < 5:
            print("VIOLATION property=%s replay=%s" % (pid, path))
    if args.v:
        from collections import Counter
        c = Counter(cl for s in reported for cl in fails[s])
        print(c)
        print(timing)

    kinds, classes = {}, {}
    for sid, ev in groups:
        for e in ev:
            kinds[e["kind"]] = kinds.get(e["kind"], 0) + 1
        for c in by[sid].get("cls", []):
            classes[c] = classes.get(c, 0) + 1
    samples = []
    for sid, ev in groups[:3]:
        s = {k: v for k, v in by[sid].items() if k != "timeout"}
        samples.append({"scenario": json.loads(json.dumps(s, default=str)), "events": len(ev), "first_event_kind": ev[0]["kind"]})
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "kerrgeopy"))):
        for f in sorted(fs):
            if f.endswith(".py"):
                h.update(open(os.path.join(d, f), "rb").read())
    ev = {
        "property": pid, "tier": args.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": md + td, "transitions": mg + tg,
            "model_states": md, "models": models,
            "trace_states": td, "traces_validated_against_impl": len(groups), "events_validated": lines,
            "events_by_kind": kinds, "scenarios_by_class": classes,
            "canaries_rejected": sum(any(v) for v in names.values()), "canaries": len(names),
            "known_findings_seen": sum(1 for s in fails if s in known),
            "samples": samples, "source_sha256": h.hexdigest(), "seconds": timing,
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    if not args.replay and not args.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d events, %d+%d states, %d/%d canaries rejected, %d violations, %.1f s" % (
        pid, args.tier, len(groups), lines, md, td, sum(any(v) for v in names.values()), len(names), viol, time.time() - t0))
    if viol:
        return 1
    if can_error:
        raise Machinery("no canaries:\n" + can_error)
    if blind:
        raise Machinery("canaries not rejected: %s" % blind)
    if not groups:
        raise Machinery("nothing was explored")
    return 0
