"""Driver shared by all checks: runs TLC, executes cases against the code in /repo, validates the traces."""

import concurrent.futures as cf
import json
import math
import multiprocessing as mp
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIMIT = 1_000_000_000


class Machinery(Exception):
    """Something in the machinery (not in the code under test) failed."""


class Skip(Exception):
    """The case is outside of what the property speaks about."""


class NonFinite(Exception):
    """A recorded number is not finite or outside every plausible range."""


class Timeout(Exception):
    """The code under test did not return in time."""


# ------------------------------------------------------------------ numbers
def fx(value, scale=1_000_000):
    """Encode a (nested) number as integers round(x * scale)."""
    if hasattr(value, "tolist"):
        value = value.detach().cpu().double().tolist() if hasattr(value, "detach") else value.tolist()
    if isinstance(value, (list, tuple)):
        return [fx(v, scale) for v in value]
    if isinstance(value, bool):
        return int(value) * scale
    x = float(value)
    if not math.isfinite(x) or abs(x) * scale > LIMIT:
        raise NonFinite(f"value {x}")
    return int(math.floor(x * scale + 0.5))


def ints(value):
    """Encode a (nested) integer tensor."""
    if hasattr(value, "tolist"):
        value = value.tolist()
    if isinstance(value, (list, tuple)):
        return [ints(v) for v in value]
    if isinstance(value, float) and (not math.isfinite(value) or value != int(value)):
        raise NonFinite(f"not an integer: {value}")
    if abs(int(value)) > LIMIT:
        raise NonFinite(f"value {value}")
    return int(value)


def flat(value):
    if isinstance(value, (list, tuple)):
        for v in value:
            yield from flat(v)
    else:
        yield value


# ---------------------------------------------------------------------- TLC
def build_overrides():
    """Compile java/Fix.java into build/ unless that is up to date."""
    src = os.path.join(VERIF, "java", "Fix.java")
    out = os.path.join(VERIF, "build")
    cls = os.path.join(out, "Fix.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        tmp = tempfile.mkdtemp(prefix="verif_javac_")
        try:
            r = subprocess.run(["javac", "-cp", JARS, "-d", tmp, src], capture_output=True, text=True)
            if r.returncode != 0:
                raise Machinery("javac failed: " + r.stderr)
            os.makedirs(out, exist_ok=True)
            for f in os.listdir(tmp):
                shutil.copy(os.path.join(tmp, f), os.path.join(out, f + f".{os.getpid()}"))
                os.replace(os.path.join(out, f + f".{os.getpid()}"), os.path.join(out, f))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def _errs(out):
    """The part of TLC's output that explains a failure."""
    k = out.find("Error:")
    k2 = out.find("*** Errors")
    k = min([x for x in (k, k2) if x >= 0] or [max(0, len(out) - 2500)])
    txt = re.sub(r"State \d+: <TNext.*?\n.*?\n\n", "", out[k:])
    return txt[:2500]


def tla(value):
    """Python value as a TLA+ expression for a configuration file / definition."""
    if isinstance(value, Raw):
        return str(value)
    if isinstance(value, bool):
        return "TRUE" if value else "FALSE"
    if isinstance(value, int):
        return str(value)
    if isinstance(value, str):
        return f'"{value}"'
    if isinstance(value, (set, frozenset)):
        return "{" + ", ".join(tla(v) for v in sorted(value, key=str)) + "}"
    if isinstance(value, (list, tuple)):
        return "<<" + ", ".join(tla(v) for v in value) + ">>"
    if isinstance(value, dict):
        return "[" + ", ".join(f"{k} |-> {tla(v)}" for k, v in value.items()) + "]"
    raise Machinery(f"no TLA+ form for {value!r}")


class Raw(str):
    """A TLA+ expression given as text."""


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.states = self.distinct = self.depth = 0
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if m:
            self.states, self.distinct = (int(x.replace(",", "")) for x in m[-1])
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            self.depth = int(m.group(1))
        self.ok = "Model checking completed. No error has been found." in out


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        self.rng = random.Random(f"{prop}-{seed}")
        self.classpath = JARS + ":" + build_overrides()
        self.model_states = 0
        self.model_transitions = 0
        self.models = []
        self.notes = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # -- running TLC
    def tlc(self, module, consts=None, init="Init", next_="Next", spec=None, invariants=(), properties=(),
            post=None, constraints=(), view=None, env=None, workers=1, deadlock=False, timeout=600, xmx="2g",
            simulate=None, extra=(), symmetry=None):
        """Run TLC on spec/<module>.tla with a generated configuration."""
        work = tempfile.mkdtemp(prefix="tlc_", dir=self.scratch)
        lines = []
        consts = dict(consts or {})
        simple = {k: v for k, v in consts.items() if not isinstance(v, (list, tuple, dict, Raw))}
        complex_ = {k: v for k, v in consts.items() if isinstance(v, (list, tuple, dict, Raw))}
        top = module
        if complex_:
            top = "MC" + module
            body = [f"---- MODULE {top} ----", f"EXTENDS {module}"]
            body += [f"MC_{k} == {tla(v)}" for k, v in complex_.items()] + ["===="]
            with open(os.path.join(work, top + ".tla"), "w") as f:
                f.write("\n".join(body) + "\n")
        for k, v in simple.items():
            lines.append(f"CONSTANT {k} = {tla(v)}")
        for k in complex_:
            lines.append(f"CONSTANT {k} <- MC_{k}")
        if spec:
            lines.append(f"SPECIFICATION {spec}")
        else:
            lines += [f"INIT {init}", f"NEXT {next_}"]
        lines += [f"INVARIANT {i}" for i in invariants]
        lines += [f"PROPERTY {p}" for p in properties]
        lines += [f"CONSTRAINT {c}" for c in constraints]
        if view:
            lines.append(f"VIEW {view}")
        if symmetry:
            lines.append(f"SYMMETRY {symmetry}")
        if post:
            lines.append(f"POSTCONDITION {post}")
        lines.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        cfg = os.path.join(work, top + ".cfg")
        with open(cfg, "w") as f:
            f.write("\n".join(lines) + "\n")
        path = os.path.join(work if complex_ else SPEC, top + ".tla")
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss64m",
               f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={work}", "-cp", self.classpath,
               "tlc2.TLC", "-noGenerateSpecTE", "-config", cfg, "-metadir", os.path.join(work, "md"),
               "-workers", str(workers), "-seed", str(self.seed), "-fp", "0"]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1])]
        cmd += list(extra) + [path]
        t = time.time()
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=work)
            out, rc = r.stdout + r.stderr, r.returncode
        except subprocess.TimeoutExpired as ex:
            raise Machinery(f"TLC on {module} exceeded {timeout}s") from ex
        return TlcResult(out, rc, time.time() - t)

    def model(self, module, consts=None, **kw):
        """Exhaustively check a design model; it does not depend on the code, so failing is a machinery error."""
        kw.setdefault("workers", 4)
        kw.setdefault("xmx", "6g")
        r = self.tlc(module, consts, **kw)
        if not r.ok and not (kw.get("simulate") and r.rc == 0):
            raise Machinery(f"model {module} {consts}: TLC rc={r.rc}\n" + _errs(r.out))
        self.model_states += r.distinct
        self.model_transitions += r.states
        self.models.append({"module": module, "constants": str(consts or {}), "generated": r.states,
                            "distinct": r.distinct, "depth": r.depth, "wall_s": round(r.wall, 1)})
        return r

    def generate(self, module, consts=None, **kw):
        """Run a generator/model that exports cases to IOEnv.OUT as ndjson; returns them."""
        out = os.path.join(self.scratch, f"gen_{module}_{len(os.listdir(self.scratch))}.ndjson")
        env = dict(kw.pop("env", {}) or {})
        env["OUT"] = out
        self.model(module, consts, env=env, **kw)
        with open(out) as f:
            return [json.loads(line) for line in f if line.strip()]

    def behaviours(self, module, consts=None, **kw):
        """Run a model that prints its histories as lines <<"CASE", json>>; returns the decoded records."""
        kw.setdefault("workers", 1)
        r = self.model(module, consts, **kw)
        res = []
        for m in re.finditer(r'<<"CASE", "(.*?)">>\s*$', r.out, re.M):
            res.append(json.loads(m.group(1).encode().decode("unicode_escape")))
        if not res:
            raise Machinery(f"{module}: no behaviours printed\n" + r.out[-3000:])
        return res

    # -- trace validation
    def validate(self, trace_module, events, consts=None, timeout=700, chunks=None, xmx="2500m"):
        """Validate events against spec/<trace_module>.tla. Returns {event id: clause text}."""
        if not events:
            return {}
        n = chunks or max(1, min(8, len(events) // 4 or 1))
        parts = [events[i::n] for i in range(n)]
        bad, states, trans = {}, 0, 0

        def run(evs):
            p = os.path.join(self.scratch, f"trace_{trace_module}_{evs[0]['id']}_{time.time_ns()}.ndjson")
            with open(p, "w") as f:
                for ev in evs:
                    f.write(json.dumps(ev) + "\n")
            r = self.tlc(trace_module, consts, init="TInit", next_="TNext", post="Accepted",
                         env={"TRACE": p}, workers=1, timeout=timeout, xmx=xmx)
            os.unlink(p)
            return r

        def one(k):
            """The reports on one part; a result on which the specification has no value breaks it as well."""
            evs, runs, undefined = parts[k], [], []
            while evs:
                r = run(evs)
                runs.append(r)
                if r.ok:
                    break
                at = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", r.out, re.M)]
                lost = re.search(r"OutOfMemory|StackOverflow|No space|IOException", r.out)
                if r.rc not in (75, 255) and not re.search(r"evaluating|unexpected exception", r.out) or lost or not at \
                        or "Parsing or semantic analysis failed" in r.out:
                    raise Machinery(f"trace validation {trace_module} failed rc={r.rc}\n" + _errs(r.out))
                undefined.append((evs[max(at) - 1]["id"], re.sub(r"[^\w .:,=+-]", " ", _errs(r.out))[:200]))
                evs = evs[max(at):]
                if len(undefined) >= 4:  # enough to report
                    break
            return runs, undefined

        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            results = list(ex.map(one, range(n)))
        for k, (runs, undefined) in enumerate(results):
            seen = 0
            for r in runs:
                txt = re.sub(r"\s*\n\s+", " ", r.out)
                for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*"(.*?)"\s*>>', txt):
                    bad[int(m.group(1))] = m.group(2).replace('\\"', "'")
                states += r.distinct
                seen += r.distinct
                trans += r.states
            for i, why in undefined:
                bad[i] = "{'undefined'}"
                self.notes["undefined"] = why
            if seen < len(parts[k]) and not undefined:
                raise Machinery(f"{trace_module}: only {seen} states for {len(parts[k])} events")
        self.trace_states = getattr(self, "trace_states", 0) + states
        self.trace_transitions = getattr(self, "trace_transitions", 0) + trans
        return bad


# ---------------------------------------------------------- running the code
_RUN = None


def _worker_init(cwd, mem_gb):
    os.chdir(cwd)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)


def _alarm(signum, frame):
    raise Timeout()


def in_repo(tb):
    """True if the exception passed through the code under test."""
    return any(f.filename.startswith(REPO + "/") for f in traceback.extract_tb(tb))


def execute(case, run, limit):
    """Run one case, always returning an event."""
    ev = {"id": case["id"], "kind": case["kind"], "in": case["in"], "out": {}, "err": ""}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        ev["out"] = run(case)
    except Skip as e:
        ev["err"] = "skip"
        ev["detail"] = str(e)
    except NonFinite as e:
        ev["err"] = "nonfinite"
        ev["detail"] = str(e)
    except Timeout:
        ev["err"] = "timeout"
    except MemoryError:
        ev["err"] = "memory"
    except BaseException as e:  # noqa: BLE001 - anything the code raises is an observation
        signal.setitimer(signal.ITIMER_REAL, 0)
        ev["err"] = type(e).__name__ if in_repo(e.__traceback__) else "machinery"
        ev["detail"] = (str(e)[:300] + " | " + "".join(traceback.format_exception(e)[-4:])[-900:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ev


def _task(args):
    case, limit = args
    return execute(case, _RUN, limit)


def run_cases(ctx, cases, run, limit=30, procs=8, mem_gb=12, budget=420):
    """Execute the cases in forked workers (so a crash or a hang is an event, not the end of the check)."""
    global _RUN
    _RUN = run
    for i, c in enumerate(cases):
        c["id"] = i + 1
    events = {}
    cwd = os.path.join(ctx.scratch, "cwd")
    os.makedirs(cwd, exist_ok=True)
    t0 = time.time()
    slow = 0
    mpctx = mp.get_context("fork")
    todo = list(cases)
    crashes = 0
    while todo:
        ex = cf.ProcessPoolExecutor(procs, mp_context=mpctx, initializer=_worker_init, initargs=(cwd, mem_gb))
        futs = {}
        try:
            it = iter(todo)
            pending = set()
            stop = False
            for c in it:
                f = ex.submit(_task, (c, limit))
                futs[f] = c
                pending.add(f)
                if len(pending) >= 2 * procs:
                    break
            while pending:
                done, pending = cf.wait(pending, timeout=limit + 60, return_when=cf.FIRST_COMPLETED)
                if not done:  # stuck in native code
                    for f in pending:
                        if f.running():
                            events[futs[f]["id"]] = {**{k: futs[f][k] for k in ("id", "kind", "in")}, "out": {}, "err": "timeout"}
                    stop = True
                    for p in list(ex._processes.values()):
                        p.kill()
                    break
                for f in done:
                    ev = f.result()
                    events[ev["id"]] = ev
                    if ev["err"] in ("timeout", "memory"):
                        slow += 1
                    if slow > 12 or time.time() - t0 > budget:
                        stop = True
                    if not stop:
                        c = next(it, None)
                        if c is not None:
                            g = ex.submit(_task, (c, limit))
                            futs[g] = c
                            pending.add(g)
            ex.shutdown(wait=True, cancel_futures=True)
            if stop:
                break
            todo = [c for c in todo if c["id"] not in events]
        except cf.process.BrokenProcessPool:
            crashes += 1
            ex.shutdown(wait=False, cancel_futures=True)
            # run the suspects one by one so that only the one that crashes is blamed
            suspects = [c for f, c in futs.items() if c["id"] not in events]
            for c in suspects:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        _worker_init(cwd, mem_gb)
                        data = json.dumps(execute(c, run, limit)).encode()
                        with os.fdopen(w, "wb") as fh:
                            fh.write(data)
                    finally:
                        os._exit(0)
                os.close(w)
                with os.fdopen(r, "rb") as fh:
                    data = fh.read()
                os.waitpid(pid, 0)
                events[c["id"]] = json.loads(data) if data else {
                    **{k: c[k] for k in ("id", "kind", "in")}, "out": {}, "err": "crash"}
            todo = [c for c in todo if c["id"] not in events]
            if crashes > 4:
                break
    skipped = [c["id"] for c in cases if c["id"] not in events]
    evs = [events[i] for i in sorted(events)]
    mach = [e for e in evs if e["err"] == "machinery"]
    if mach:
        raise Machinery(f"{len(mach)} cases failed in the harness, first: {json.dumps(mach[0])[:3000]}")
    if skipped and not any(e["err"] not in ("", "skip") for e in evs):
        raise Machinery(f"{len(skipped)} cases not run within the budget")
    ctx.notes["cases_not_run"] = len(skipped)
    return evs


# ------------------------------------------------------------ self-check
def corrupt(ev, rng):
    """Return a copy of the event with one recorded leaf changed, or None."""
    ev = json.loads(json.dumps(ev))
    leaves = []

    def walk(o, path):
        if isinstance(o, dict):
            for k, v in o.items():
                walk(v, path + [k])
        elif isinstance(o, list):
            for i, v in enumerate(o):
                walk(v, path + [i])
        else:
            leaves.append((path, o))

    walk(ev["out"], ["out"])
    if not leaves:
        return None
    # first the field, then the place in it: long fields do not crowd out the others
    fields = sorted({tuple(k for k in p if isinstance(k, str)) for p, _ in leaves})
    field = rng.choice(fields)
    path, val = rng.choice([(p, v) for p, v in leaves if tuple(k for k in p if isinstance(k, str)) == field])
    o = ev
    for k in path[:-1]:
        o = o[k]
    if isinstance(val, bool):
        o[path[-1]] = not val
    elif isinstance(val, int):
        o[path[-1]] = val + rng.choice([-1, 1]) * max(1, abs(val) // 2, 50_000 if abs(val) > 2000 else 1)
    else:
        o[path[-1]] = str(val) + "x"
    return ev


# ------------------------------------------------------------------- verdict
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def finding_matches(k, ev, clauses):
    """A listed finding names the kind of event, the broken clause(s) and optionally exact inputs."""
    if k["kind"] != ev["kind"]:
        return False
    names = set(re.findall(r"'([^']*)'", clauses)) or {clauses}
    if not names <= set(k["clauses"]):
        return False
    for key, val in k.get("in", {}).items():
        if ev["in"].get(key) != val:
            return False
    return True


def run_check(prop, module, tier, seed, replay=None):
    ctx = Ctx(prop, tier, seed)
    try:
        if replay:
            with open(replay) as f:
                cases = [json.loads(line) for line in f if line.strip()]
            cases = [{"kind": c["kind"], "in": c["in"]} for c in cases]
        else:
            for m in module.models(ctx):
                args = dict(m)
                ctx.model(args.pop("module"), args.pop("consts", None), **args)
            cases = list(module.cases(ctx))
        if hasattr(module, "run_all"):
            events = module.run_all(ctx, cases)
        else:
            events = run_cases(ctx, cases, module.run_case, limit=getattr(module, "LIMIT", 30),
                               procs=getattr(module, "PROCS", 8))
        live = [e for e in events if e["err"] != "skip"]
        bad = {}
        todo = []
        expected = getattr(module, "EXPECTED_ERRORS", ())
        for e in live:
            if e["err"] and e["err"] not in expected:
                bad[e["id"]] = f"{{'error:{e['err']}'}}"
            else:
                todo.append(e)
        strip = [{k: e[k] for k in ("id", "kind", "in", "out", "err")} for e in todo]
        bad.update(ctx.validate(module.TRACE, strip, getattr(module, "TRACE_CONSTS", None)))
        # binding: corrupted copies of recorded events must be rejected
        ok = [e for e in strip if e["id"] not in bad]
        per_kind = {}
        for e in ok:
            per_kind.setdefault(e["kind"], []).append(e)
        mutants = []
        rng = random.Random(seed)
        for kind, evs in sorted(per_kind.items()):
            for _ in range(ctx.pick(6, 20)):
                src = min(rng.sample(evs, min(3, len(evs))), key=lambda e: len(json.dumps(e)))
                m = corrupt(src, rng)
                if m:
                    m["id"] = len(mutants) + 1
                    mutants.append(m)
        ts, tt = ctx.trace_states, ctx.trace_transitions
        rej = {}
        if mutants and not bad and not replay:
            try:
                rej = ctx.validate(module.TRACE, mutants, getattr(module, "TRACE_CONSTS", None), chunks=min(4, len(mutants)))
            except Machinery as e:
                ctx.notes["corruption_check"] = "stopped: " + str(e)[:200]
        ctx.trace_states, ctx.trace_transitions = ts, tt
        by_id = {e["id"]: e for e in events}
        findings = known_findings(prop)
        violations, hit = [], {}
        for i, clauses in sorted(bad.items()):
            ev = by_id[i]
            k = next((k for k in findings if finding_matches(k, ev, clauses)), None)
            if k:
                hit.setdefault(k["what"], 0)
                hit[k["what"]] += 1
            else:
                violations.append((ev, clauses))
        kinds = {}
        for e in live:
            kinds[e["kind"]] = kinds.get(e["kind"], 0) + 1
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        samples = []
        seen = set()
        for e in live:
            if e["kind"] not in seen and len(json.dumps(e)) < 3000:
                seen.add(e["kind"])
                samples.append({k: e[k] for k in ("kind", "in", "out", "err")})
        samples = samples[:8] or [{"kind": e["kind"], "in": str(e["in"])[:1500]} for e in live[:3]]
        ev_file = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": ctx.model_states + ctx.trace_states,
                "transitions": ctx.model_transitions + ctx.trace_transitions,
                "traces_validated_against_impl": len(live),
                "events_by_kind": kinds,
                "cases_skipped_as_outside_the_property": len(events) - len(live),
                "models": ctx.models,
                "trace_spec": module.TRACE,
                "corrupted_events_rejected": f"{len(rej)} of {len(mutants)}" if not bad else "not run (violations)",
                "notes": ctx.notes,
                "samples": samples,
            },
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - ctx.t0, 1),
            "violations": len(violations),
        }
        if not replay:
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
                json.dump(ev_file, f, indent=1)
        for what, n in hit.items():
            print(f"KNOWN-FINDING: property={prop} {what} ({n} cases)")
        print(f"{prop} {tier} seed={seed}: {len(live)} events {kinds}, model states {ctx.model_states}, "
              f"corrupted rejected {len(rej)}/{len(mutants)}, {time.time() - ctx.t0:.1f}s")
        if violations:
            rp = os.path.join(VERIF, "evidence", f"{prop}.replay.ndjson")
            with open(rp, "w") as f:
                for ev, clauses in violations[:50]:
                    f.write(json.dumps({**ev, "clauses": clauses}) + "\n")
            for ev, clauses in violations[:5]:
                print(f"  event {ev['id']} {ev['kind']}: {clauses} in={json.dumps(ev['in'])[:400]} "
                      f"{ev.get('detail', '')[:600]}")
            print(f"VIOLATION property={prop} replay={rp}")
            return 1
        if not live:
            raise Machinery("no events")
        return 0
    finally:
        ctx.close()
