"""Harness core: runs cases against /repo, hands the recorded observations to TLC, reports verdicts.

A property module (vp/cXX.py) provides
  PROP, LEVEL, TRACE      -- id, evidence level, name of the trace specification in spec/
  MODELS                  -- [(module, cfg, tiers)] exhaustive design models checked with TLC
  gen(tier, rng)          -- iterable of JSON-able cases
  run(case)               -- executes the case on the real code, returns list of records (JSON-able, 32 bit ints)
The *verdict* on a record is TLC's: spec/<TRACE>.tla defines Bad(rec), the set of violated clauses.
"""
import hashlib, importlib, json, math, multiprocessing as mp, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VP_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CASE_TIMEOUT = int(os.environ.get("VP_CASE_TIMEOUT", "120"))


class Hang(BaseException):
    pass


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, workers=8, heap="6g", extra=(), timeout=850):
    """Runs TLC in a scratch metadir. Returns (rc, stdout)."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers), "-deadlock", "-config", cfg or module + ".cfg", *extra, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def tlc_counts(out):
    m = RE_STATES.findall(out)
    if not m:
        return 0, 0
    g, d, _ = m[-1]
    return int(g), int(d)


def check_model(module, cfg, env=None):
    """Exhaustive check of a design model; any error is an error of the machinery (the model is ours)."""
    rc, out = tlc(module, cfg, env)
    if rc != 0 or "No error has been found" not in out:
        raise MachineryError("model %s (%s) failed in TLC rc=%d:\n%s" % (module, cfg, rc, out[-6000:]))
    return tlc_counts(out)


RE_VIOL = re.compile(r'<<\s*"VIOL",\s*(-?\d+),\s*\{(.*?)\}\s*>>', re.S)


def judge(trace_module, records, heap="8g", depth=0):
    """TLC decides every record. Returns ({record id: [clauses]}, generated, distinct)."""
    if not records:
        return {}, 0, 0
    d = tempfile.mkdtemp(prefix="trace-")
    try:
        path = os.path.join(d, "t.ndjson")
        with open(path, "w") as f:
            for i, r in enumerate(records):
                assert isinstance(r, dict)
                r = dict(r)
                r["id"] = i + 1
                f.write(json.dumps(r) + "\n")
        rc, out = tlc(trace_module, None, {"TRACE": path}, heap=heap)
        if rc != 0 or "No error has been found" not in out:
            # A record the specification cannot evaluate (numbers far outside what its fixed point units were laid out for,
            # missing parts) is reported as such; everything else is judged without it.
            m = re.findall(r"jpos = (\d+)", out)
            if "The error occurred when TLC was evaluating" in out and m and depth < 4 and "Overflow" in out:
                i = int(m[-1]) - 1
                rest = records[:i] + records[i + 1:]
                viol, g, dist = judge(trace_module, rest, heap, depth + 1)
                viol = {k + (k >= i): v for k, v in viol.items()}
                viol[i] = ["outside-the-range-of-the-specification"]
                return viol, g, dist
            if depth == 4:
                return {}, 0, 0
            err = out[out.find("Error:"):] if "Error:" in out else out
            raise MachineryError("trace spec %s failed rc=%d:\n%s" % (trace_module, rc, err[:2500]))
        g, dist = tlc_counts(out)
        viol = {}
        for m in RE_VIOL.finditer(out):
            viol.setdefault(int(m.group(1)) - 1, []).extend(sorted(re.findall(r'"([^"]*)"', m.group(2))))
        n = len(re.findall(r'"VIOL"', out))
        if n != sum(1 for _ in RE_VIOL.finditer(out)):
            raise MachineryError("unparsed verdicts:\n" + out[-3000:])
        return viol, g, dist
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- running cases
_mod = None


def subreaper():
    """orphans (worker processes the code under test leaves behind) become our children, so that they can be ended"""
    try:
        import ctypes
        ctypes.CDLL(None, use_errno=True).prctl(36, 1, 0, 0, 0)
    except Exception:
        pass


def kill_descendants():
    me = os.getpid()
    for _ in range(20):
        par = {}
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    with open("/proc/%s/stat" % d) as f:
                        t = f.read()
                    par[int(d)] = (int(t.rsplit(")", 1)[1].split()[1]), t.rsplit(")", 1)[1].split()[0])
                except (OSError, IndexError, ValueError):
                    pass
        desc, todo = set(), [me]
        while todo:
            x = todo.pop()
            for c, (p, _) in par.items():
                if p == x and c not in desc:
                    desc.add(c)
                    todo.append(c)
        alive = [c for c in desc if par[c][1] != "Z"]
        for c in alive:
            try:
                os.kill(c, signal.SIGKILL)
            except OSError:
                pass
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except OSError:
            pass
        if not alive:
            return
        time.sleep(0.05)


def _init(name, quiet=True):
    global _mod
    if quiet:
        # what the code under test starts must not hold on to our output
        n = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(n, fd)
        os.close(n)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    warnings.simplefilter("ignore")
    _mod = importlib.import_module(name)


def _alarm(*_):
    raise Hang()


_hangs = mp.get_context("fork").Value("i", 0)
MAX_HANGS = 3


def _one(case):
    if _hangs.value >= MAX_HANGS:       # already reported; do not spend the rest of the time waiting
        return case, [], None
    # on a loaded machine only the time really spent counts, up to a point
    sec = int(case.get("timeout", CASE_TIMEOUT))
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, sec)
    signal.alarm(3 * sec)
    try:
        return case, _mod.run(case), None
    except Hang:
        with _hangs.get_lock():
            _hangs.value += 1
        return case, [{"kind": "hang"}], None
    except MachineryError:
        return case, None, traceback.format_exc()
    except Exception:
        return case, None, traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


class NoDaemonProcess(mp.get_context("fork").Process):
    @property
    def daemon(self):
        return False

    @daemon.setter
    def daemon(self, v):
        pass


class NoDaemonContext(type(mp.get_context("fork"))):
    Process = NoDaemonProcess


def run_cases(modname, cases, procs=8, chunk=None):
    cases = list(cases)
    if procs <= 1 or len(cases) <= 1:
        _init(modname, False)
        res = [_one(c) for c in cases]
    else:
        from multiprocessing.pool import Pool
        with Pool(procs, _init, (modname,), context=NoDaemonContext()) as pool:
            res = pool.map(_one, cases, chunk or max(1, min(200, len(cases) // (procs * 8) + 1)))
    return res


# ---------------------------------------------------------------- findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                r = json.loads(line)
                if r["property"] == prop:
                    out.append(r)
    return out


def main(argv=None):
    import argparse, random
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int, default=int(os.environ.get("VP_PROCS", "8")))
    a = ap.parse_args(argv)
    t0 = time.time()
    modname = "vp." + a.prop.lower()
    sys.path.insert(0, REPO)
    mod = importlib.import_module(modname)
    rp = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rp, exist_ok=True)

    states = trans = 0
    models = []
    if not a.replay:
        for m in getattr(mod, "MODELS", []):
            module, cfg, tiers = m[:3]
            if a.tier in tiers:
                g, d = check_model(module, cfg, m[3] if len(m) > 3 else None)
                models.append({"model": module, "cfg": cfg, "generated": g, "distinct": d})
                states += d
                trans += g

    rng = random.Random("%s-%d" % (a.prop, a.seed))
    if a.replay:
        cases = [json.load(open(a.replay))["case"]]
    else:
        cases = list(mod.gen(a.tier, rng))
    from vp.core import GENERATED as gen_stats
    for gs in gen_stats:
        models.append(gs)
        states += gs["distinct"]
        trans += gs["generated"]
    t1 = time.time()
    res = run_cases(modname, cases, a.procs, getattr(mod, "CHUNK", None))
    t2 = time.time()
    errs = [(c, e) for c, r, e in res if e]
    if errs:
        # An exception escaping run() is a defect of the harness, or a code change the harness could not cope with
        # (e.g. a public entry point that is gone): reported as a violation of the observation protocol.
        pass
    records, owner = [], []
    for idx, (c, rs, e) in enumerate(res):
        if e:
            rs = [{"kind": "exc", "what": e.strip().splitlines()[-1][:200]}]
        for r in rs:
            records.append(r)
            owner.append(idx)
    viol, g, d = {}, 0, 0
    CH = getattr(mod, "JUDGE_CHUNK", 15000)
    for s in range(0, len(records), CH):
        v, gg, dd = judge(mod.TRACE, records[s:s + CH])
        viol.update({k + s: x for k, x in v.items()})
        g += gg
        d += dd
    t3 = time.time()
    states += d
    trans += g

    known = known_findings(a.prop)
    bad, kf = {}, []
    for k, clauses in sorted(viol.items()):
        case = res[owner[k]][0]
        hit = [f for f in known if f.get("case") is not None and f["case"] == case and set(clauses) <= set(f["clauses"])]
        if hit:
            kf.append(hit[0])
        else:
            bad.setdefault(owner[k], []).append((k, clauses))
    for f in {json.dumps(x, sort_keys=True) for x in kf}:
        f = json.loads(f)
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f["what"]))
    n = 0
    for o, lst in bad.items():
        case, _, err = res[o]
        h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rp, "%s-%s.json" % (a.prop, h))
        with open(path, "w") as f:
            json.dump({"property": a.prop, "case": case, "clauses": sorted({c for _, cl in lst for c in cl}), "error": err,
                       "records": [records[k] for k, _ in lst][:3]}, f)
        n += 1
        if n <= 10:
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            print("  clauses: %s" % ", ".join(sorted({c for _, cl in lst for c in cl})))
            if err:
                print("  " + err.strip().splitlines()[-1])
    if n > 10:
        print("  ... and %d more violating cases" % (n - 10))
    kinds = {}
    for r in records:
        kinds[r.get("kind", "?")] = kinds.get(r.get("kind", "?"), 0) + 1
    stats = mod.stats(records) if hasattr(mod, "stats") else {}
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "model_checking"),
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": len(records),
                       "samples": [c for c, _, _ in res[:: max(1, len(res) // 3)]][:3] if not a.replay else [],
                       "cases": len(cases), "records_by_kind": kinds, "models": models, "spec": mod.TRACE + ".tla", **stats},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": n}
    if not a.replay:
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d records, %d violating; models %.1fs run %.1fs judge %.1fs; %s %s" % (
        a.prop, a.tier, a.seed, len(cases), len(records), n, t1 - t0, t2 - t1, t3 - t2, kinds, stats))
    return 1 if n else 0


# ---------------------------------------------------------------- quantisation helpers
def q(x, scale):
    """fixed point, saturating well inside 32 bits; NaN/inf map to a sentinel the specs reject as Finite"""
    if x != x or x in (float("inf"), float("-inf")):
        return 2000000000
    v = int(round(x * scale))
    return max(-1900000000, min(1900000000, v))


def cli():
    subreaper()
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    try:
        rc = main()
    except MachineryError as e:
        print("MACHINERY ERROR", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    kill_descendants()
    os._exit(rc)


# ---------------------------------------------------------------- behaviours generated by TLC
def generate(module, constants, invariants=("Emit",), tag="HIST", simulate=None, seed=1, spec="Spec", workers=8):
    """Runs TLC on a generator module (breadth first, or `simulate`=(number, depth)) and returns the emitted JSON values."""
    d = tempfile.mkdtemp(prefix="gen-")
    try:
        cfg = os.path.join(d, "g.cfg")
        with open(cfg, "w") as f:
            f.write("CONSTANTS\n" + "\n".join(" %s = %s" % kv for kv in constants.items()) + "\nSPECIFICATION %s\nINVARIANTS %s\n" % (spec, " ".join(invariants)))
        extra = ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1] + 1), "-seed", str(seed)] if simulate else []
        rc, out = tlc(module, cfg, workers=1 if simulate else workers, extra=extra)
        if rc != 0:
            raise MachineryError("generator %s failed rc=%d:\n%s" % (module, rc, out[-4000:]))
        res = []
        for m in re.finditer(r'<<"%s", ("(?:[^"\\]|\\.)*")>>' % tag, out):
            res.append(json.loads(json.loads(m.group(1))))
        uniq = {json.dumps(x, sort_keys=True): x for x in res}
        g, dist = tlc_counts(out)
        GENERATED.append({"model": module, "cfg": json.dumps(constants), "generated": g, "distinct": dist, "behaviours": min(len(uniq), simulate[0]) if simulate else len(uniq), "simulated": bool(simulate)})
        keys = sorted(uniq)
        if simulate and len(keys) > simulate[0]:
            # TLC evaluates the emitting invariant on all successors of the chosen states: keep as many as were asked for
            import random
            keys = sorted(random.Random(seed).sample(keys, simulate[0]))
        return [uniq[k] for k in keys]
    finally:
        shutil.rmtree(d, ignore_errors=True)


GENERATED = []
