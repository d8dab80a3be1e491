"""Seeded search: runs many scenarios of one property in forked workers, minimises failures, writes the evidence.

A scenario is identified by (VERIF_SEED, property, configuration, index); it is generated from that alone and executed
under the simulator, so the same four values give the same execution.  Results are merged in index order.
"""
import ctypes
import importlib
import json
import os
import re
import select
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = Path(os.environ.get("VERIF_EVIDENCE", VERIF / "evidence"))
REPLAYS = Path(os.environ.get("VERIF_REPLAYS", VERIF / "replays"))
CPU_LIMIT = 150.0      # CPU seconds one scenario may take (they take about one)
STALL = 400.0          # wall seconds without any answer of a worker
PRIORITY_KINDS = ()


def module(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def scenario_of(mod, base_seed, config, index):
    from dst.base import h64, rng_for
    seed = h64(base_seed, mod.PROP, config, index) & 0x7FFFFFFFFFFF
    sc = mod.generate(config, rng_for("scenario", seed), seed)
    sc = json.loads(json.dumps(sc))
    sc.setdefault("seed", seed)
    sc["config"] = config
    return sc


class _CpuExceeded(BaseException):
    pass


def run_one(mod, sc):
    """-> summary dict; never raises except for KeyboardInterrupt."""
    from dst.base import BudgetExceeded, Result
    sc = json.loads(json.dumps(sc))

    def alarm(*_):
        raise _CpuExceeded
    old = signal.signal(signal.SIGVTALRM, alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    t = time.process_time()
    try:
        out = mod.execute(sc).summary()
    except _CpuExceeded:
        r = Result()
        r.violate(f"{mod.PROP}/no-progress", f"the scenario did not end within {CPU_LIMIT:.0f} s of CPU time (it normally takes about a second)")
        out = r.summary()
    except BudgetExceeded as e:
        r = Result()
        r.violate(f"{mod.PROP}/unbounded", f"the code under test exceeded the budget of {e}")
        out = r.summary()
    except Exception as e:
        r = Result()
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if "/pySC/" in f.filename]
        kind = "unexpected-exception" if inside else "uncheckable-result"
        where = f"{inside[-1].filename.split('/pySC/')[-1]}:{inside[-1].name}" if inside else f"{Path(tb[-1].filename).name}:{tb[-1].lineno}"
        r.violate(f"{mod.PROP}/{kind}", f"{type(e).__name__}: {e} at {where}")
        r.stats["harness-exception"] += 1
        out = r.summary()
        out["traceback"] = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    out["cpu"] = time.process_time() - t
    return out


def _child_io():
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)     # do not outlive the runner
    except Exception:
        pass


class Worker:
    def __init__(self, mod, tasks, base_seed):
        self.tasks = tasks
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                _child_io()
                for config, i in tasks:
                    os.write(w, json.dumps({"start": [config, i]}).encode() + b"\n")
                    sc = scenario_of(mod, base_seed, config, i)
                    s = alone(mod, sc) if getattr(mod, "ISOLATE", False) else run_one(mod, sc)
                    blob = json.dumps({"done": [config, i], "r": s}).encode() + b"\n"
                    while blob:
                        n = os.write(w, blob)
                        blob = blob[n:]
            except BaseException:
                code = 70
                try:
                    os.write(w, json.dumps({"crash": traceback.format_exc()[-3000:]}).encode() + b"\n")
                except Exception:
                    pass
            finally:
                os._exit(code)
        os.close(w)
        self.fd, self.buf, self.inflight, self.last, self.crash = r, b"", None, time.monotonic(), None

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def reap(self):
        try:
            return os.waitpid(self.pid, 0)[1]
        except ChildProcessError:
            return 0
        finally:
            try:
                os.close(self.fd)
            except OSError:
                pass


def alone(mod, sc):
    """One scenario in a process which has executed nothing before -> summary"""
    s = run_isolated(mod, sc, STALL * .8)
    return _dead(mod, "the process executing the scenario: " + s["died"]) if "died" in s else s


def run_isolated(mod, sc, timeout, before=()):
    """One scenario in a child of its own, after the scenarios ``before`` -> summary or {"died": reason}."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _child_io()
            for earlier in before:
                run_one(mod, earlier)
            blob = json.dumps(run_one(mod, sc)).encode()
            while blob:
                n = os.write(w, blob)
                blob = blob[n:]
        finally:
            os._exit(0)
    os.close(w)
    data, end = b"", time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {"died": "timeout"}
        if select.select([r], [], [], min(left, 5))[0]:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            data += chunk
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    try:
        return json.loads(data)
    except ValueError:
        return {"died": f"signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) else f"exit {os.WEXITSTATUS(status)}"}


def order_of(plan):
    tasks, k = [], max(n for _, n in plan)
    for i in range(k):
        for config, n in plan:
            if i < n:
                tasks.append((config, i))
    return tasks


def search(mod, plan, base_seed, wall, nworkers, stop_on_violation=True):
    """-> (results {(config, i): summary}, harness_errors, truncated)"""
    tasks = order_of(plan)
    nworkers = max(1, min(nworkers, len(tasks)))
    workers = [Worker(mod, tasks[w::nworkers], base_seed) for w in range(nworkers)]
    results, errors, end, truncated = {}, [], time.monotonic() + wall, False
    found = None
    while workers:
        ready = select.select([w.fd for w in workers], [], [], 1.0)[0]
        now = time.monotonic()
        for w in list(workers):
            if w.fd in ready:
                chunk = os.read(w.fd, 1 << 20)
                if chunk:
                    w.buf += chunk
                    w.last = now
                    *lines, w.buf = w.buf.split(b"\n")
                    for line in lines:
                        d = json.loads(line)
                        if "start" in d:
                            w.inflight = tuple(d["start"])
                        elif "done" in d:
                            results[tuple(d["done"])] = d["r"]
                            w.inflight = None
                            if d["r"]["violations"] and found is None:
                                found = now
                        else:
                            w.crash = d["crash"]
                    continue
                status = w.reap()
                workers.remove(w)
                if w.crash:
                    errors.append(w.crash)
                elif w.inflight is not None:
                    retry = run_isolated(mod, scenario_of(mod, base_seed, *w.inflight), STALL)
                    if "died" in retry:
                        why = f"the process executing the scenario ended with status {status} and again with {retry['died']}"
                        results[w.inflight] = _dead(mod, why)
                        found = found or now
                    else:
                        results[w.inflight] = retry
                    rest = w.tasks[w.tasks.index(w.inflight) + 1:]
                    if rest and not found:
                        workers.append(Worker(mod, rest, base_seed))
            elif now - w.last > STALL and w.inflight is not None:
                w.kill()
                status = w.reap()
                workers.remove(w)
                retry = run_isolated(mod, scenario_of(mod, base_seed, *w.inflight), STALL)
                results[w.inflight] = retry if "died" not in retry else _dead(mod, "the scenario never ends")
        if stop_on_violation and found is not None and now - found > 1.0:
            for w in workers:
                w.kill()
                w.reap()
            workers = []
        if now > end and workers:
            truncated = True
            for w in workers:
                w.kill()
                w.reap()
            workers = []
    return results, errors, truncated


def _dead(mod, why):
    from dst.base import Result
    r = Result()
    r.violate(f"{mod.PROP}/process-died", why)
    return r.summary()


# ---------------------------------------------------------------- minimisation
def minimise(mod, sc, kind, budget, before=()):
    end = time.monotonic() + budget
    tries = 0

    def fails(cand):
        nonlocal tries
        if time.monotonic() > end:
            return False
        tries += 1
        r = run_isolated(mod, cand, max(5.0, min(60.0, end - time.monotonic() + 5)), before)
        if "died" in r:
            return kind.endswith("process-died")
        return any(v["kind"] == kind for v in r["violations"])

    best = json.loads(json.dumps(sc))
    key = getattr(mod, "SHRINK", "ops")
    if key in best and isinstance(best[key], list):
        items = best[key]
        n = 2
        while len(items) >= 1 and time.monotonic() < end:
            size = max(1, len(items) // n)
            done = False
            for s in range(0, len(items), size):
                cand = dict(best, **{key: items[:s] + items[s + size:]})
                if fails(cand):
                    items = cand[key]
                    best = cand
                    n = max(n - 1, 2)
                    done = True
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        for i, op in enumerate(list(best[key])):         # faults which are not needed
            if isinstance(op, dict) and op.get("fault"):
                cand = json.loads(json.dumps(best))
                cand[key][i].pop("fault")
                if fails(cand):
                    best = cand
    for cand in (mod.simplify(json.loads(json.dumps(best))) if hasattr(mod, "simplify") else ()):
        pass
    if hasattr(mod, "simplify"):
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            for cand in mod.simplify(json.loads(json.dumps(best))):
                if time.monotonic() > end:
                    break
                if cand != best and fails(cand):
                    best = json.loads(json.dumps(cand))
                    progress = True
                    break
    return best, tries


def earlier_scenarios(mod, seed, key, kind, plan, nworkers, budget):
    """A scenario which fails only in a process which has executed others before: which of them are needed -> list"""
    tasks = order_of(plan)
    at = tasks.index(key)
    before = [scenario_of(mod, seed, *t) for t in tasks[at % nworkers:at:nworkers]]
    sc, end = scenario_of(mod, seed, *key), time.monotonic() + budget

    def fails(cand):
        left = end - time.monotonic()
        return left > 0 and any(v["kind"] == kind for v in run_isolated(mod, sc, left + 30, cand).get("violations", []))

    n, best = 1, None
    while best is None and n < 2 * len(before):
        if fails(before[-n:]):
            best = before[-n:]
        n *= 2
    if best is None:
        return []
    size = max(1, len(best) // 2)
    while time.monotonic() < end:
        for s in range(0, len(best), size):
            if fails(best[:s] + best[s + size:]):
                best = best[:s] + best[s + size:]
                break
        else:
            if size == 1:
                break
            size //= 2
    return best


# ---------------------------------------------------------------- known findings
def known_findings():
    out = []
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            m = re.match(r"known: property=(\S+) kind=(\S+) match=/(.*?)/ (.*)", line)
            if m:
                out.append(dict(property=m[1], kind=m[2], match=re.compile(m[3]), what=m[4]))
    return out


def is_known(prop, v, known):
    for k in known:
        if k["property"] == prop and k["kind"] == v["kind"] and k["match"].search(v["msg"]):
            return k
    return None


# ---------------------------------------------------------------- entry points
def replay(prop, path):
    mod = module(prop)
    data = json.loads(Path(path).read_text())
    a = run_isolated(mod, data["scenario"], STALL * 2, data.get("before", ()))
    b = run_isolated(mod, data["scenario"], STALL * 2, data.get("before", ()))
    died = "died" in a
    viol = [dict(kind=f"{prop}/process-died", msg=a["died"], op=None)] if died else a["violations"]
    same = died == ("died" in b) and (died or a["digest"] == b["digest"])
    print(f"replay {path}: {len(viol)} violation(s), repeated execution identical: {same}")
    if not died:
        print(f"digest {a['digest']} (recorded {data.get('digest')})")
    for v in viol[:5]:
        print(f"  {v['kind']} (operation {v['op']}): {v['msg']}")
    if viol:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def check(prop, tier, seed, wall=None, scale=1.0, nworkers=None):
    t0 = time.monotonic()
    mod = module(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    plan = [(c, max(1, int(n * scale))) for c, n in mod.plan(tier)]
    wall = wall or (240.0 if tier == "quick" else 720.0)
    nworkers = nworkers or int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 4))
    results, errors, truncated = search(mod, plan, seed, wall, nworkers)
    known = known_findings()
    order = [(c, i) for c, n in plan for i in range(n) if (c, i) in results]
    bad, seen_known = [], {}
    stats, fired, states, nontrivial_states = Counter(), Counter(), set(), set()
    beam = events = 0.0
    cpu = 0.0
    for key in order:
        r = results[key]
        stats.update(r["stats"])
        fired.update(r["fired"])
        states.update(r["states"])
        if r["nontrivial"]:
            nontrivial_states.update(r["states"])
        beam += r["beam_seconds"]
        events += r["events"]
        cpu += r.get("cpu", 0.0)
        fresh = []
        for v in r["violations"]:
            k = is_known(prop, v, known)
            if k:
                seen_known[k["what"]] = key
            else:
                fresh.append(v)
        if fresh:
            bad.append((key, fresh[0], r))
    search_wall = time.monotonic() - t0

    probes = [k for k in order if not results[k]["violations"]]
    probes = probes[:: max(1, len(probes) // 3)][:3]
    same = 0
    for k in probes:
        again = run_isolated(mod, scenario_of(mod, seed, *k), STALL)
        same += again.get("digest") == results[k]["digest"]

    code = 0
    for what in seen_known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    replays = []
    if bad:
        code = 1
        kinds, picked = set(), []
        for key, v, r in bad:
            if v["kind"] not in kinds and len(picked) < 2:
                kinds.add(v["kind"])
                picked.append((key, v, r))
        for key, v, r in picked:
            sc = scenario_of(mod, seed, *key)
            first = run_isolated(mod, sc, STALL)
            stable = first.get("digest") == r["digest"]
            budget, before = float(os.environ.get("VERIF_MINIMISE_S", 25.0 if tier == "quick" else 90.0)), []
            if budget and "died" not in first and not any(x["kind"] == v["kind"] for x in first["violations"]):
                before = earlier_scenarios(mod, seed, key, v["kind"], plan, max(1, min(nworkers, len(order_of(plan)))), 3 * budget)
                stable = bool(before)
            small, tries = minimise(mod, sc, v["kind"], budget, before)
            final = run_isolated(mod, small, STALL, before)
            REPLAYS.mkdir(parents=True, exist_ok=True)
            path = REPLAYS / f"{prop}-{key[0]}-{sc['seed']:x}.json"
            fv = next((x for x in final.get("violations", []) if x["kind"] == v["kind"]), v)
            path.write_text(json.dumps(dict(property=prop, verif_seed=seed, config=key[0], index=key[1], seed=sc["seed"],
                                            violation=fv, digest=final.get("digest"), minimisation_runs=tries,
                                            operations_before=len(sc.get("ops", [])), operations_after=len(small.get("ops", [])),
                                            scenario=small, before=before), indent=1))
            print(f"{v['kind']} in scenario {key[0]}#{key[1]} (seed {sc['seed']}; re-execution identical: {stable}; "
                  f"{len(sc.get('ops', []))} -> {len(small.get('ops', []))} operations): {fv['msg']}")
            if r.get("traceback"):
                print(r["traceback"])
            print(f"VIOLATION property={prop} replay={path}")
            replays.append(str(path))
            if time.monotonic() - t0 > (400 if tier == "quick" else 840):
                break
    elif errors:
        print("harness error:\n" + errors[0], file=sys.stderr)
        code = 2
    elif not order:
        print("no scenario was executed", file=sys.stderr)
        code = 2

    wall_s = time.monotonic() - t0
    samples = [dict(config=k[0], index=k[1], digest=results[k]["digest"], events=results[k]["events"],
                    operations=[f"{o.get('op')}:{o.get('what', o.get('kind', ''))}".rstrip(":") for o in scenario_of(mod, seed, *k).get("ops", [])][:40])
               for k in probes]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(
            evaluations=len(order), distinct_nontrivial=len(nontrivial_states), rule=mod.RULE, samples=samples,
            scenarios_per_config=dict(Counter(k[0] for k in order)), runs_with_checked_effect=sum(bool(results[k]["nontrivial"]) for k in order),
            simulated_runs_per_hour=round(3600 * len(order) / max(search_wall, 1e-9)), seeds_per_hour=round(3600 * len(order) / max(search_wall, 1e-9)),
            simulated_beam_time_s=beam, events_recorded=int(events), cpu_seconds=round(cpu, 1),
            faults_injected=dict(sorted(fired.items())), distinct_states=len(states), counters=dict(sorted(stats.items())),
            components_real=mod.REAL, components_stubbed=mod.STUB, truncated_by_wall_clock=truncated,
            determinism_probes=dict(executed=len(probes), identical=same), replay_files=replays),
        wall_s=round(wall_s, 2), violations=len(bad), assumptions=list(mod.ASSUMPTIONS))
    EVIDENCE.mkdir(parents=True, exist_ok=True)
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=float))
    print(f"{prop} {tier}: {len(order)} runs, {int(events)} events, {len(states)} states, {sum(fired.values())} faults, "
          f"{beam:.3g} s of beam, {len(bad)} violating runs, determinism {same}/{len(probes)}, {wall_s:.1f} s")
    return code
