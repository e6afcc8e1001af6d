"""A small property-based testing engine.

Every random decision of a case is one ``draw(n)`` -> 0..n (0 is the simplest).
A case is therefore a sequence of integers, which is what is shrunk, saved as
the replay file and replayed.  Case i of segment s of property p under seed S
is a pure function of (S, p, s, i): it does not depend on how the cases are
spread over worker processes.
"""
import hashlib
import json
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

from . import env

WORKERS = max(1, min(8, len(os.sched_getaffinity(0))))
CASE_CPU_S = 20.0
MAX_DRAWS = 20000


class Violation(Exception):
    """The property does not hold on this case."""


class Hang(BaseException):
    """A case used more CPU time than any legitimate case could."""


class Discard(BaseException):
    """The generator produced nothing usable (kept rare; counted)."""


class Data:
    """Source of choices for one case, plus what the case says about itself."""

    __slots__ = ("rng", "prefix", "out", "labels", "shown", "is_nontrivial", "scratch", "spans")

    def __init__(self, rng=None, prefix=()):
        self.rng = rng
        self.prefix = prefix
        self.out = []
        self.labels = []
        self.shown = None
        self.is_nontrivial = False
        self.scratch = {}
        self.spans = []

    # ---- primitive
    def draw(self, n):
        if n <= 0:
            return 0
        i = len(self.out)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v > n:
                v = n
        elif self.rng is not None and i < MAX_DRAWS:
            v = int(self.rng.random() * (n + 1))
        else:
            v = 0
        self.out.append(v)
        return v

    # ---- derived
    def choice(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def chance(self, num, den):
        """True with probability num/den; False is the simple outcome."""
        return self.draw(den - 1) >= den - num

    def weighted(self, pairs):
        """pairs: sequence of (weight, value); the first is the simplest."""
        total = 0
        for w, _ in pairs:
            total += w
        k = self.draw(total - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def size(self, mx, more=2, of=3):
        """A length 0..mx, geometric: each further element with chance more/of."""
        n = 0
        while n < mx and self.chance(more, of):
            n += 1
        return n

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - 1 - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    # ---- reporting
    def label(self, *names):
        self.labels.extend(names)

    def show(self, obj):
        """The case, written out (a string or JSON-able object)."""
        self.shown = obj

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


class Segment:
    """One check function with its number of cases per tier."""

    def __init__(self, name, fn, quick, thorough=None):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25


class Property:
    def __init__(self, pid, rule, segments, assumptions=(), probes=(), setup=None, scale=2):
        for s in segments:
            s.quick *= scale
        self.pid = pid
        self.rule = rule
        self.segments = segments
        self.assumptions = list(assumptions)
        self.probes = list(probes)  # known-finding probes: (key, fn)
        self.setup = setup


def _seed_for(seed, pid, seg, i):
    h = hashlib.blake2b(f"{seed}/{pid}/{seg}/{i}".encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


def _on_prof(signum, frame):
    raise Hang()


def run_case(fn, data, cpu=CASE_CPU_S):
    """None if the case passed, else (kind, message)."""
    signal.signal(signal.SIGPROF, _on_prof)
    try:
        signal.setitimer(signal.ITIMER_PROF, cpu)
        try:
            fn(data)
            return None
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as e:
        return ("violation", str(e))
    except Discard:
        return ("discard", "")
    except Hang:
        return ("hang", f"case still running after {cpu:.0f} s of CPU time")
    except RecursionError as e:
        tb = traceback.extract_tb(e.__traceback__)
        return ("exception", f"RecursionError: {e} (innermost frame {_frame(tb)})")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return ("exception", f"{type(e).__name__}: {e} (raised at {_frame(tb)})")


def _frame(tb):
    if not tb:
        return "?"
    f = tb[-1]
    return f"{f.filename}:{f.lineno} in {f.name}"


# -------------------------------------------------------------------- shrinking
def shrink(fn, choices, first, budget_s=25.0, cpu=CASE_CPU_S, runner=None):
    """Greedy shrinking of the choice sequence; keeps the failure kind."""
    kind = first[0]
    best, best_res, spans = list(choices), first, []
    seen = set()
    deadline = time.monotonic() + budget_s
    attempts = 0
    if kind == "hang":
        cpu = 4.0
        deadline = time.monotonic() + 30

    def over():
        return time.monotonic() > deadline

    def attempt(cand, force=False):
        nonlocal best, best_res, attempts, spans
        key = tuple(cand)
        if (key in seen and not force) or over():
            return False
        seen.add(key)
        attempts += 1
        if runner is not None:
            d, r = runner(cand, cpu)
        else:
            d = Data(None, cand)
            r = run_case(fn, d, cpu)
        if r is None or r[0] != kind:
            return False
        out = d.out
        while out and out[-1] == 0:
            out.pop()
        if (len(out), out) < (len(best), best) or force:
            best, best_res, spans = out, r, d.spans
            return True
        return False

    attempt(best, force=True)
    improved = True
    while improved and not over():
        improved = False
        # drop, zero or hoist whole generator units
        i = 0
        tried = 0
        while i < len(spans) and not over():
            order = sorted(set(spans), key=lambda p: (p[0] - p[1], p[0]))
            if i >= len(order):
                break
            a, b = order[i]
            if a >= len(best):
                i += 1
                continue
            if (a > 0 and attempt(best[:a - 1] + best[b:])) or attempt(best[:a] + best[b:]) or (b - a > 1 and any(best[a:b]) and attempt(best[:a] + [0] * (b - a) + best[b:])) or attempt(best[:a] + [0] + best[b:]):
                improved = True
                continue
            done = False
            if b - a > 3:
                for (x, y) in order:
                    if a < x and y <= b and (y - x) < (b - a):
                        tried += 1
                        if tried > 400:
                            break
                        if attempt(best[:a] + best[x:y] + best[b:]):
                            improved = done = True
                            break
            if not done:
                i += 1
        # delete chunks
        size = max(1, len(best) // 2)
        while size >= 1 and not over():
            i = 0
            while i < len(best) and not over():
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += max(1, size // 2)
            size = size // 2 if size > 8 else size - 1
        # zero chunks
        size = 8
        while size >= 1 and not over():
            i = 0
            while i < len(best):
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                i += size
            size //= 2
        # lower values
        i = 0
        while i < len(best) and not over():
            v = best[i]
            lo = 0
            while lo < v and not over():
                mid = (lo + v) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    if i >= len(best):
                        break
                    v = min(mid, best[i])
                else:
                    lo = mid + 1
            i += 1
        # delete a value and lower an earlier one (lists with a length prefix)
        i = 0
        while i < len(best) and not over():
            if best[i] > 0:
                for j in range(i + 1, min(len(best), i + 12)):
                    cand = list(best)
                    cand[i] -= 1
                    del cand[j]
                    if attempt(cand):
                        improved = True
                        break
            i += 1
    return best, best_res, attempts


# ------------------------------------------------------- failures in a clean process
def _fork_run(seqs, cpu=CASE_CPU_S):
    """Runs (fn, choices or Random) cases one after the other in a forked copy of this
    process, which has run none; (Data of the last, its result)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            except (ValueError, OSError):
                pass
            for fn, c in seqs:
                d = Data(c) if isinstance(c, random.Random) else Data(None, c)
                res = run_case(fn, d, cpu)
            try:
                blob = pickle.dumps((d.out, d.spans, d.shown, res))
            except Exception:
                blob = pickle.dumps((d.out, d.spans, repr(d.shown), res))
            with os.fdopen(w, "wb") as fh:
                fh.write(blob)
        except BaseException:
            os._exit(3)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        blob = fh.read()
    os.waitpid(pid, 0)
    d = Data()
    if not blob:
        return d, ("exception", "the process running the case ended")
    d.out, d.spans, d.shown, res = pickle.loads(blob)
    return d, res


def alone(fn, cpu=CASE_CPU_S):
    """fn() in a forked copy of this process; its (JSON-like) result. A segment that calls the
    library only this way, and comes first, has every call start from a process that has made
    no other call."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 3
        try:
            out = []
            res = run_case(lambda d: out.append(fn()), Data(), cpu)
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps((res, out)))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        blob = fh.read()
    os.waitpid(pid, 0)
    if not blob:
        raise Violation("the process running the case ended")
    res, out = pickle.loads(blob)
    if res is not None:
        if res[0] == "hang":
            raise Hang()
        raise Violation(res[1])
    return out[0]


def confirm(prop, tier, seed, f):
    """Makes the failure one that reproduces from a clean process: the shrunk case, else the
    original one shrunk again, else a history of cases that ends with it."""
    seg = prop.segments[f["seg_index"]]

    def bad(r):
        return r is not None and r[0] != "discard"
    if bad(_fork_run([(seg.fn, f["choices"])])[1]):
        return f
    d, r = _fork_run([(seg.fn, f["original"])])
    if bad(r):
        best, bres, n = shrink(seg.fn, f["original"], r, 40.0, runner=lambda c, cpu: _fork_run([(seg.fn, c)], cpu))
        d, r = _fork_run([(seg.fn, best)])
        if bad(r):
            f.update(kind=r[0], message=r[1], choices=best, case=d.shown)
        return f
    # It takes the cases that went before it in its worker.
    w, step = f["worker"]
    hist = []
    for si in range(f["seg_index"] + 1):
        s = prop.segments[si]
        n = s.quick if tier == "quick" else s.thorough
        hist += [(si, i) for i in range(w, n, step) if si < f["seg_index"] or i < f["index"]]
    deadline = time.monotonic() + 90

    def fails(h):
        seqs = [(prop.segments[si].fn, random.Random(_seed_for(seed, prop.pid, prop.segments[si].name, i))) for si, i in h]
        d, r = _fork_run(seqs + [(seg.fn, f["original"])])
        return (d, r) if bad(r) else None
    last = fails(hist)
    if last is None:
        f["message"] += " (seen once; reproduces neither alone nor after the cases before it)"
        return f
    size = max(1, len(hist) // 2)
    while time.monotonic() < deadline:
        i, any_ = 0, False
        while i < len(hist) and time.monotonic() < deadline:
            h = hist[:i] + hist[i + size:]
            x = fails(h)
            if x is not None:
                hist, last, any_ = h, x, True
            else:
                i += size
        if size == 1 and not any_:
            break
        size = max(1, size // 2)
    f.update(kind=last[1][0], message=last[1][1] + f" (after {len(hist)} earlier case(s) in the same process)", choices=f["original"], case=last[0].shown, history=[[prop.segments[si].name, i] for si, i in hist])
    return f


# -------------------------------------------------------------------- workers
def _worker(prop, tier, seed, w, nworkers, deadline, conn_w):
    res = {"eval": 0, "discard": 0, "hashes": set(), "labels": {}, "samples": [], "fail": None, "inconclusive": False, "per_seg": {}}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass
    try:
        stop = False
        for si, seg in enumerate(prop.segments):
            n = seg.quick if tier == "quick" else seg.thorough
            cnt = 0
            for i in range(w, n, nworkers):
                if time.monotonic() > deadline:
                    res["inconclusive"] = True
                    stop = True
                    break
                d = Data(random.Random(_seed_for(seed, prop.pid, seg.name, i)))
                r = run_case(seg.fn, d)
                if r is not None and r[0] == "discard":
                    res["discard"] += 1
                    continue
                res["eval"] += 1
                cnt += 1
                labels = res["labels"]
                for l in d.labels:
                    labels[l] = labels.get(l, 0) + 1
                if d.is_nontrivial:
                    labels["nontrivial"] = labels.get("nontrivial", 0) + 1
                    s = d.shown if isinstance(d.shown, str) else json.dumps(d.shown, sort_keys=True, default=repr)
                    res["hashes"].add(hashlib.blake2b((seg.name + "\0" + s).encode("utf-8", "surrogatepass"), digest_size=8).digest())
                    if len(res["samples"]) < 2 and len(s) > 20:
                        res["samples"].append({"segment": seg.name, "index": i, "case": d.shown})
                if r is not None:
                    choices = d.out
                    best, bres, attempts = shrink(seg.fn, choices, r)
                    d2 = Data(None, best)
                    r2 = run_case(seg.fn, d2)
                    if r2 is None or r2[0] == "discard":  # did not reproduce from the shrunk form
                        best, bres = choices, r
                        d2 = Data(None, choices)
                        r2 = run_case(seg.fn, d2) or r
                    res["fail"] = {"segment": seg.name, "seg_index": si, "index": i, "kind": r2[0], "message": r2[1], "choices": best, "original": choices, "worker": (w, nworkers), "case": d2.shown, "original_message": r[1], "shrink_attempts": attempts}
                    stop = True
                    break
            res["per_seg"][seg.name] = cnt
            if stop:
                break
    except BaseException as e:  # harness error
        res["harness_error"] = "".join(traceback.format_exception(e))
    with os.fdopen(conn_w, "wb") as fh:
        try:
            blob = pickle.dumps(res)
        except Exception:
            f = res.get("fail")
            if f:
                f["case"] = repr(f["case"])
            res["samples"] = [repr(s) for s in res["samples"]]
            blob = pickle.dumps(res)
        fh.write(blob)


def _jsonable(o):
    try:
        json.dumps(o)
        return o
    except (TypeError, ValueError):
        return repr(o)


def _clean(o, limit=1500):
    o = _jsonable(o)
    s = o if isinstance(o, str) else json.dumps(o, ensure_ascii=False)
    if len(s) > limit:
        return s[:limit] + f"... ({len(s)} characters)"
    return o


def run_property(prop, tier, seed):
    t0 = time.monotonic()
    cap = 240.0 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "700"))
    deadline = t0 + cap
    if prop.setup:
        prop.setup()
    sys.stdout.flush()
    sys.stderr.flush()
    import gc
    gc.collect()
    gc.freeze()
    kids = []
    for w in range(WORKERS):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                _worker(prop, tier, seed, w, WORKERS, deadline, wr)
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    results, errors = [], []
    for pid, r in kids:
        with os.fdopen(r, "rb") as fh:
            blob = fh.read()
        _, status = os.waitpid(pid, 0)
        if not blob:
            errors.append(f"worker {pid} ended with status {status} and no result")
            continue
        res = pickle.loads(blob)
        if "harness_error" in res:
            errors.append(res["harness_error"])
        results.append(res)
    labels, hashes, samples, fails, per_seg = {}, set(), [], [], {}
    evals = discards = 0
    inconclusive = False
    for res in results:
        evals += res["eval"]
        discards += res["discard"]
        hashes |= res["hashes"]
        inconclusive |= res["inconclusive"]
        for k, v in res["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in res["per_seg"].items():
            per_seg[k] = per_seg.get(k, 0) + v
        if len(samples) < 6:
            samples += res["samples"][:1]
        if res["fail"]:
            fails.append(res["fail"])
    fails.sort(key=lambda f: (f["seg_index"], f["index"]))
    return {"labels": labels, "distinct": len(hashes), "samples": samples, "fails": fails, "evals": evals, "discards": discards, "per_seg": per_seg, "inconclusive": inconclusive, "errors": errors, "wall": time.monotonic() - t0}


def evidence(prop, tier, seed, out, violations, known):
    cov = {
        "evaluations": out["evals"],
        "distinct_nontrivial": out["distinct"],
        "rule": prop.rule,
        "samples": [{**s, "case": _clean(s["case"])} if isinstance(s, dict) else s for s in out["samples"]],
        "cases_per_segment": out["per_seg"],
        "discarded": out["discards"],
        "label_counts": dict(sorted(out["labels"].items())),
        "inconclusive_time_cap_hit": out["inconclusive"],
        "known_findings_probed": known,
    }
    doc = {"property": prop.pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": prop.assumptions, "wall_s": round(out["wall"], 3), "violations": violations}
    path = os.path.join(env.VERIF, "evidence", prop.pid + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + f".tmp{os.getpid()}"
    with open(tmp, "w", encoding="utf-8", errors="backslashreplace") as fh:
        json.dump(doc, fh, indent=1, ensure_ascii=True)
        fh.write("\n")
    os.replace(tmp, path)


def load_known():
    path = os.path.join(env.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


def main(prop, tier, seed, replay=None):
    if replay:
        with open(replay) as fh:
            rp = json.load(fh)
        if prop.setup:
            prop.setup()
        by = {s.name: s for s in prop.segments}
        seg = by[rp["segment"]]
        for name, i in rp.get("history", []):  # what the same process did before
            run_case(by[name].fn, Data(random.Random(_seed_for(rp["seed"], prop.pid, name, i))))
        d = Data(None, rp["choices"])
        r = run_case(seg.fn, d)
        print("case:", _clean(d.shown, 6000))
        if r is None:
            print("replay: the property holds on this case")
            return 0
        print(f"replay: {r[0]}: {r[1]}")
        print(f"VIOLATION property={prop.pid} replay={replay}")
        return 1
    known_lines = []
    known_done = []
    for k in load_known():
        if k.get("property") == prop.pid and k.get("status") == "known":
            probe = dict(prop.probes).get(k["key"])
            still = None
            if probe is not None:
                try:
                    still = bool(probe())
                except Exception:
                    still = True
            known_done.append({"key": k["key"], "still_fails": still})
            known_lines.append(f"KNOWN-FINDING: property={prop.pid} {k['what']}" + ("" if still in (True, None) else " (no longer reproduces)"))
    out = run_property(prop, tier, seed)
    nviol = len(out["fails"])
    evidence(prop, tier, seed, out, nviol, known_done)
    for line in known_lines:
        print(line)
    if out["fails"]:
        f = confirm(prop, tier, seed, out["fails"][0])
        rdir = os.path.join(env.VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop.pid}.json")
        with open(path, "w", encoding="utf-8", errors="backslashreplace") as fh:
            json.dump({"property": prop.pid, "segment": f["segment"], "seed": seed, "tier": tier, "case_index": f["index"], "kind": f["kind"], "message": f["message"], "case": _jsonable(f["case"]), "choices": f["choices"], "history": f.get("history", [])}, fh, indent=1, ensure_ascii=True)
            fh.write("\n")
        print(f"{prop.pid} [{f['segment']} #{f['index']}] {f['kind']}: {f['message'][:3000]}")
        print("case:", str(_clean(f["case"], 3000)).encode("utf-8", "backslashreplace").decode())
        print(f"VIOLATION property={prop.pid} replay={os.path.relpath(path, env.VERIF)}")
        return 1
    if out["errors"]:
        for e in out["errors"]:
            print(e, file=sys.stderr)
        return 2
    print(f"{prop.pid}: ok, {out['evals']} cases, {out['distinct']} distinct non-trivial, {out['wall']:.1f} s" + (" (time cap hit: inconclusive beyond that)" if out["inconclusive"] else ""))
    return 0
