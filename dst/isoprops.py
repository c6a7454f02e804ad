"""C01-C06: the properties decided by the isolation engine."""
import collections
import hashlib
import json
import random

from . import gen, iso, seam, sim


def _hash(x):
    return hashlib.sha1(json.dumps(x).encode()).hexdigest()[:12]


def pick_loc(r, prof, hot=True):
    d = prof["hot"] if hot and prof["hot"] else prof["lines"]
    if not d:
        return None
    loc = r.choice(sorted(d))
    n = d[loc]
    return loc, (r.choice([1, 1, 2, n, r.randint(1, n)]) if n > 1 else 1)


def main_op(r, ops_):
    """An operation; preferably one that stores into something that outlives it."""
    if r.random() < 0.6:
        some = [o for o in ops_ if iso.shared(o)]
        if some:
            return r.choice(some)
    return r.choice(ops_)


def stop_seg(r, tid, prof, hot, shared=None):
    if shared and r.random() < 0.7:
        loc = r.choice(sorted(shared[0]))
        n = max(1, min(400, shared[0][loc]))
        return [tid, r.choice(["after", "after", "at"]), loc, r.choice([1, n, r.randint(1, n)])]
    x = pick_loc(r, prof, hot)
    if x is None:
        return [tid, "end"]
    loc, n = x
    return [tid, "after" if (hot and r.random() < 0.8) else "at", loc, max(1, min(n, 400))]


class Prop:
    id = ""
    mode = "isolation"
    level = "exploration"
    runs_per_block = 40
    corpus_size = 12
    bad = 0.15
    keep_inputs = False

    def blocks(self, tier):
        return {"quick": self.quick_blocks, "thorough": self.thorough_blocks}[tier]

    quick_blocks = 120
    thorough_blocks = 2400

    setup = staticmethod(iso.setup)

    def corpus(self, r):
        return iso.corpus(r, self.corpus_size, self.bad)

    def scenario(self, r, ops_):
        raise NotImplementedError

    scribble = None

    def judge(self, scn):
        return iso.judge(scn, self.mode, self.scribble, self.keep_inputs)

    def block(self, seed, b, tier, budget):
        r = iso.rng_of(self.id, seed, b)
        ops_ = self.corpus(r)
        stats = collections.Counter()
        sigs = []
        n = 0
        sample = None
        dg = hashlib.sha1()
        for i in range(self.runs_per_block):
            rr = iso.rng_of(self.id, seed, b, i)
            scn = self.surroundings(rr, self.scenario(rr, ops_))
            bad, obs = self.judge(scn)
            n += 1
            dg.update(json.dumps([scn, obs, bad], sort_keys=True).encode())
            sig, nontrivial = self.measure(scn, obs, stats)
            if nontrivial:
                sigs.append(sig)
            if sample is None and nontrivial:
                sample = self.sample(scn, obs)
            if bad:
                return {"runs": n, "stats": stats, "sigs": sigs, "sample": sample,
                        "violation": bad, "scenario": scn, "run": [b, i]}
            if budget():
                stats["blocks cut by the wall cap"] += 1
                break
        return {"runs": n, "stats": stats, "sigs": sigs, "sample": sample, "violation": None,
                "digest": dg.hexdigest()}

    def surroundings(self, r, scn):
        """What the deployment around the operations does: its clock, entropy and memory habits."""
        scn["clock"] = seam.instant(r)
        scn["entropy"] = r.randrange(1 << 40)
        scn["tick"] = r.choice([0, 1000, 1000000, 1000000, 10 ** 9, 3600 * 10 ** 9])
        if r.random() < 0.4:
            scn["drop"] = True
        if r.random() < 0.4:
            scn["fresh"] = True
        for n in ("before", "after"):
            lst = scn.get(n)
            if lst and r.random() < 0.4:
                lst = list(lst)
                for _ in range(r.choice([1, 2, 4])):
                    lst.insert(r.randrange(len(lst) + 1), {"op": "clock", "jump": r.choice(seam.JUMPS)})
                scn[n] = lst
        if scn.get("plan") and r.random() < 0.3:
            scn["plan"] = list(scn["plan"])
            scn["plan"].insert(r.randrange(len(scn["plan"]) + 1), [0, "jump", r.choice(seam.JUMPS)])
        return scn

    def sample(self, scn, obs):
        return {"clock": scn.get("clock"), "threads": [[brief(o) for o in t] for t in scn.get("threads", [])],
                "before": [brief(o) for o in scn.get("before", [])][:6],
                "after": [brief(o) for o in scn.get("after", [])][:6],
                "plan": scn.get("plan"), "faults": scn.get("faults"),
                "fired": (obs or {}).get("fired")}

    def measure(self, scn, obs, stats):
        if obs is None:
            return "", False
        stats["operations"] += len(obs["seen"])
        stats["preemptions inside an operation"] += obs.get("switches", 0)
        for kind, where in obs.get("fired", []):
            stats["fault %s" % kind] += 1
            stats["faults in hooks" if where.startswith("hook") else "faults at a function entry"] += 1
        for k, v in obs.get("seam", {}).items():
            stats[k] += v
        jumps = sum(o["op"] == "clock" for n in ("before", "after") for o in scn.get(n, [])) + sum(
            seg[1] == "jump" for seg in scn.get("plan", []))
        stats["fault clock jump"] += jumps
        stats["simulated clock moved (s)"] += sum(
            abs(o["jump"]) for n in ("before", "after") for o in scn.get(n, []) if o["op"] == "clock")
        for row in obs["seen"]:
            if row[2][0] == "raised":
                stats["operations that raised"] += 1
        sig = _hash([obs.get("trail"), [brief(o) for t in scn.get("threads", []) for o in t]])
        return sig, bool(obs.get("switches") or obs.get("fired"))

    def shrink(self, scn):
        return iso.shrink_scn(scn)

    rule = ""


def brief(o):
    return "%s %s %s %s" % (o["op"], o.get("res", ""), o.get("kind", ""), _hash(o)[:6])


# ------------------------------------------------------------------ C01
class C01(Prop):
    id = "C01"
    rule = ("a run is 2-4 threads of requests and library calls over one shared deployment, with a "
            "plan of preemption points (after stores into objects, at arbitrary lines, at bytecode "
            "boundaries, random walks); non-trivial: at least one thread was preempted inside an "
            "operation; distinct: hash of the baton trail (thread, operation, source line)")
    quick_blocks = 130

    def partner(self, r, ops_, o):
        x = r.random()
        if x < 0.12:
            return o
        if x < 0.4:
            return gen.twin(r, o)
        if x < 0.65:
            return gen.kin(r, o)
        return r.choice(ops_)

    def scenario(self, r, ops_):
        a = main_op(r, ops_)
        sh = iso.shared(a)
        style = r.choice(["nest", "nest", "nest", "cross", "cross", "line", "walk", "hook"])
        opc = r.random() < 0.12 and style != "walk"
        pa = iso.expect(a)["prof"]
        scn = {"opcodes": opc}
        if style in ("nest", "line", "hook"):
            k = r.choice([1, 2, 3, 4])
            part = [self.partner(r, ops_, a) for _ in range(k)]
            plan = []
            for j in range(k):
                if style == "hook" and pa["hooks"]:
                    plan.append([0, "hook", r.randint(1, max(1, pa["hooks"] // k))])
                else:
                    plan.append(stop_seg(r, 0, pa, style != "line", sh))
                plan.append([1, "end"])
            scn.update(threads=[[a], part], plan=plan)
        elif style == "cross":
            n = r.choice([2, 2, 3])
            os_ = [a] + [self.partner(r, ops_, a) for _ in range(n - 1)]
            profs = [iso.expect(o)["prof"] for o in os_]
            plan = []
            for rounds in range(r.choice([1, 2])):
                order = list(range(n))
                r.shuffle(order)
                plan += [stop_seg(r, t, profs[t], r.random() < 0.8, iso.shared(os_[t]) if sh else None) for t in order]
            order = list(range(n))
            r.shuffle(order)
            plan += [[t, "end"] for t in order]
            scn.update(threads=[[o] for o in os_], plan=plan)
        else:
            n = r.choice([2, 3])
            os_ = [a] + [self.partner(r, ops_, a) for _ in range(n - 1)]
            steps = [max(1, iso.expect(o)["prof"]["steps"]) for o in os_]
            plan = []
            mean = r.choice([30, 200, 1500])
            for _ in range(r.choice([6, 15, 30])):
                t = r.randrange(n)
                plan.append([t, "step", 1 + int(r.expovariate(1.0) * min(mean, steps[t]))])
            scn.update(threads=[[o] for o in os_], plan=plan)
        if pa["hooks"] and r.random() < 0.25:          # the application re-enters the library
            scn["faults"] = [{"tid": 0, "opi": 0, "kind": "reentry", "hook": r.randrange(pa["hooks"]),
                              "op": self.partner(r, ops_, a)}]
        scn["after"] = [r.choice(scn["threads"])[0] if r.random() < 0.5 else r.choice(ops_)
                        for _ in range(r.choice([0, 1, 2]))]
        return scn


# ------------------------------------------------------------------ C02
class C02(Prop):
    id = "C02"
    rule = ("a run is a history of 5-60 (storms: up to 1500) requests, library calls, restarts and "
            "constructions of unrelated objects in one process, with related near-twin operations "
            "and long-lived filters/sorters/checkers; non-trivial: some operation ran after an "
            "earlier one; distinct: hash of the sequence of operations")
    runs_per_block = 24
    corpus_size = 16
    quick_blocks = 150

    def scenario(self, r, ops_):
        x = r.random()
        hist = []
        if x < 0.12:                                    # storm: volume triggers
            n = r.choice([60, 150, 300, 700, 1500])
            base = r.choice(ops_)
            cheap = r.random() < 0.6
            for i in range(n):
                if cheap:
                    hist.append(cheap_op(r))
                else:
                    hist.append(base if r.random() < 0.7 else r.choice(ops_))
            hist = hist if cheap else hist[:max(60, n // 5)]
            scn = {"before": hist, "quiet_before": True,
                   "after": [r.choice(ops_) for _ in range(12)] + r.sample(hist, 12)}
            return scn
        n = r.choice([4, 8, 16, 30, 60])
        recent = []
        for i in range(n):
            y = r.random()
            if y < 0.06:
                hist.append({"op": "construct", "what": r.choice(["world", "extend", "validator"]),
                             "seed": r.randrange(1 << 30)})
            elif y < 0.08:
                hist.append({"op": "restart"})
            elif y < 0.35 and recent:
                o = gen.twin(r, r.choice(recent))
                hist.append(o)
                recent.append(o)
            elif y < 0.5 and recent:
                hist.append(r.choice(recent))
            else:
                o = r.choice(ops_)
                hist.append(o)
                recent.append(o)
            recent = recent[-6:]
        return {"before": hist, "after": []}

    def judge(self, scn):
        if scn.get("quiet_before"):
            from . import pool
            st, obs = pool.in_child(lambda: _tail(scn), timeout=180)
            if st != "ok":
                return {"class": "no-answer", "detail": "the simulated process %s" % st}, None
            return iso.compare(obs, self.mode), obs
        return iso.judge(scn, self.mode)

    def measure(self, scn, obs, stats):
        if obs is None:
            return "", False
        n = len(scn["before"]) + len(scn["after"])
        stats["operations"] += n
        stats["operations compared"] += len(obs["seen"])
        stats["constructions"] += sum(o["op"] == "construct" for o in scn["before"])
        stats["restarts"] += sum(o["op"] == "restart" for o in scn["before"])
        stats["storms"] += bool(scn.get("quiet_before"))
        stats["longest history"] = max(stats["longest history"], n)
        return _hash([brief(o) for o in scn["before"] + scn["after"]]), n > 1

    def sample(self, scn, obs):
        return {"history": [brief(o) for o in scn["before"]][:12], "length": len(scn["before"])}


def _tail(scn):
    obs = iso.execute(scn)
    obs["seen"] = [row for row in obs["seen"] if row[0].startswith("after")]
    return obs


def cheap_op(r):
    from . import spec as S
    res = r.choice(list(S.RESOURCES.values()))
    x = r.random()
    if x < 0.5:
        return {"op": "filter", "exp": '%s eq "%s%d"' % (
            r.choice(["userName", "title", "emails.value", "displayName"]), gen.word(r).replace('"', ""),
            r.randrange(2000))}
    if x < 0.7:
        return {"op": "path", "exp": 'emails[value eq "%d"].%s' % (
            r.randrange(2000), r.choice(["value", "type", "display"]))}
    if x < 0.9:
        return {"op": "parse", "res": res.key, "kind": "get",
                "query": {"attributes": ["a%d" % r.randrange(2000), "userName"]}}
    return {"op": "dump", "res": "*", "kind": "error", "status": 400,
            "body": dict(gen.err_body(r, "400"), detail="d%d" % r.randrange(2000))}


# ------------------------------------------------------------------ C03 / C04
def fault_for(r, prof, tid, opi, async_only=False, shared=None):
    """One fault inside the operation: in a hook of the application, or at a function entry."""
    if shared and shared[1] and r.random() < 0.5:
        return {"tid": tid, "opi": opi, "kind": r.choice(sim.ASYNC_FAULTS),
                "call": r.choice(shared[1]) + r.choice([0, 0, 1, 2, 5])}
    if prof["hooks"] and not async_only and r.random() < 0.45:
        return {"tid": tid, "opi": opi, "kind": r.choice(sim.HOOK_FAULTS),
                "hook": r.randrange(prof["hooks"])}
    if not prof["calls"]:
        return None
    if prof.get("call_lines") and r.random() < 0.25:
        return line_fault(r, prof, tid, opi)
    if r.random() < 0.75 and prof["call_locs"]:
        n = r.choice(prof["call_locs"][r.choice(sorted(prof["call_locs"]))])
    else:
        n = r.randrange(prof["calls"])
    return {"tid": tid, "opi": opi, "kind": r.choice(sim.ASYNC_FAULTS), "call": n}


def line_fault(r, prof, tid, opi):
    """A fault in what a line of the operation calls, also where that is the interpreter's own code."""
    loc = r.choice(prof["tried"] if prof["tried"] and r.random() < 0.5 else sorted(prof["call_lines"]))
    return {"tid": tid, "opi": opi, "kind": r.choice(sim.ASYNC_FAULTS),
            "loc": [loc, r.choice([1, r.randint(1, prof["call_lines"][loc])])]}


class C03(Prop):
    id = "C03"
    mode = "containment"
    rule = ("a run aborts 1-3 operations at an injected point (function entry or a line that calls something: memory or recursion "
            "exhaustion, cancellation, deadline; application hook: any exception) while other "
            "threads are mid-operation, then retries them and runs related operations; non-trivial: "
            "a fault fired; distinct: hash of (fault kind, place, operations)")

    def scenario(self, r, ops_):
        a = main_op(r, ops_)
        pa = iso.expect(a)["prof"]
        seq = [a]
        faults = []
        f = fault_for(r, pa, 0, 0, shared=iso.shared(a))
        if f:
            faults.append(f)
        for j in range(r.choice([0, 0, 1, 2])):
            o = r.choice([a, gen.twin(r, a), r.choice(ops_)])
            f = fault_for(r, iso.expect(o)["prof"], 0, len(seq), shared=iso.shared(o) if iso.shared(a) else None)
            seq.append(o)
            if f:
                faults.append(f)
        scn = {"faults": faults, "plan": []}
        threads = [seq]
        if r.random() < 0.35:
            b = gen.twin(r, a) if r.random() < 0.5 else r.choice(ops_)
            pb = iso.expect(b)["prof"]
            threads.append([b])
            scn["plan"] = [stop_seg(r, 1, pb, True), [0, "end"], [1, "end"]]
        scn["threads"] = threads
        scn["after"] = [a, gen.twin(r, a)] + [r.choice(ops_) for _ in range(r.choice([1, 3]))]
        if r.random() < 0.3:
            scn["before"] = [r.choice(ops_)]
        return scn

    def judge(self, scn):
        bad, obs = super().judge(scn)
        return bad, obs

    def measure(self, scn, obs, stats):
        sig, _ = super().measure(scn, obs, stats)
        fired = (obs or {}).get("fired") or []
        return _hash([fired, [brief(o) for t in scn["threads"] for o in t]]), bool(fired)


class C04(C03):
    id = "C04"
    mode = "fail-closed"
    rule = ("a run injects one fault into one operation (hook of the application: 19 exception "
            "types; function entry or a line that calls something: memory or recursion exhaustion, cancellation, "
            "deadline); non-trivial: the fault fired; distinct: hash of (fault kind, place, operation)")
    bad = 0.4
    runs_per_block = 60

    @staticmethod
    def setup():
        from . import world
        world.Hooks.stamp = True
        iso.setup()

    def scenario(self, r, ops_):
        a = r.choice(ops_)
        pa = iso.expect(a)["prof"]
        f = fault_for(r, pa, 0, 0)
        if pa.get("call_lines") and r.random() < 0.35:
            f = line_fault(r, pa, 0, 0)
        scn = {"faults": [f] if f else [], "plan": [], "threads": [[a]], "after": []}
        if r.random() < 0.15:
            b = r.choice(ops_)
            scn["threads"].append([b])
            scn["plan"] = [stop_seg(r, 1, iso.expect(b)["prof"], True), [0, "end"], [1, "end"]]
        return scn


# ------------------------------------------------------------------ C05
class C05(Prop):
    id = "C05"
    keep_inputs = True
    mode = "containment"
    rule = ("a run delivers the very same caller objects (body, headers, query string, lists, "
            "containers) 2-5 times: one after the other, to several threads at once, and after an "
            "aborted attempt; inputs are compared before and after; non-trivial: an object was "
            "delivered more than once; distinct: hash of trail, faults and operations")

    def scenario(self, r, ops_):
        a = r.choice(ops_)
        if r.random() < 0.3:
            a = containerise(r, a)
        a = dict(a, deliver=0)
        pa = iso.expect(iso.strip(a))["prof"]
        x = r.random()
        scn = {"plan": [], "faults": []}
        if x < 0.35:
            scn["before"] = [a] * r.choice([2, 2, 3, 5])
            if r.random() < 0.5:
                scn["before"].insert(1, r.choice(ops_))
        elif x < 0.65:
            n = r.choice([2, 3])
            scn["threads"] = [[a] for _ in range(n)]
            scn["plan"] = [stop_seg(r, t, pa, r.random() < 0.8) for t in range(n)] + [
                [t, "end"] for t in range(n)]
            scn["after"] = [a]
        else:
            k = r.choice([1, 1, 2])
            scn["threads"] = [[a] * (k + 1)]
            for j in range(k):
                f = fault_for(r, pa, 0, j)
                if f:
                    scn["faults"].append(f)
            scn["after"] = [a]
        return scn

    def measure(self, scn, obs, stats):
        sig, _ = super().measure(scn, obs, stats)
        if obs is None:
            return "", False
        stats["redeliveries of the same objects"] += len(obs["seen"]) - 1
        return _hash([obs.get("trail"), obs.get("fired"), [brief(r[1]) for r in obs["seen"]]]), True


def containerise(r, o):
    """The caller hands over data containers instead of dicts."""
    o = json.loads(json.dumps(o))
    for f in ("body", "data"):
        if isinstance(o.get(f), dict) and o[f]:
            o[f] = {"$c": o[f]}
    return o


# ------------------------------------------------------------------ C06
class C06(Prop):
    id = "C06"
    rule = ("a run performs related operations and lets the application overwrite everything it got "
            "back (bodies, issue reports, schema descriptions, filter descriptions) at once, while "
            "other requests are in flight or before they start; non-trivial: something was "
            "overwritten; distinct: hash of trail and operations")
    bad = 0.35
    keep_inputs = True

    @staticmethod
    def scribble(o, res):
        if o.get("scribble") and res[0] == "ok":
            deface(res[1], o)
            return True
        return False

    def scenario(self, r, ops_):
        a = r.choice(ops_)
        seq = []
        for _ in range(r.choice([2, 4, 8])):
            o = r.choice([a, gen.twin(r, a), r.choice(ops_), r.choice(ops_)])
            if r.random() < 0.6:
                o = dict(o, scribble=True)
            seq.append(o)
        tail = [iso.strip(o) for o in seq]
        scn = {"before": seq, "after": tail + [r.choice(ops_) for _ in range(2)]}
        return scn

    def judge(self, scn):
        bad, obs = super().judge(scn)
        return bad, obs

    def measure(self, scn, obs, stats):
        sig, _ = super().measure(scn, obs, stats)
        n = sum(bool(o.get("scribble")) for o in scn["before"])
        stats["results overwritten by the application"] += n
        return _hash([brief(o) for o in scn["before"]]), n > 0


def deface(v, o, depth=0, seen=None):
    """Overwrite every mutable part of a returned value through its public surface."""
    from src.data.container import SCIMDataContainer
    from src.error import ValidationIssues
    from src.filter import Filter
    from src.request_validators import RequestData, ResponseData

    seen = seen if seen is not None else set()
    if id(v) in seen or depth > 40:
        return
    seen.add(id(v))
    d = depth + 1
    if isinstance(v, tuple):
        for x in v:
            deface(x, o, d, seen)
    elif isinstance(v, (RequestData, ResponseData)):
        passthrough = o["op"] == "parse" and o.get("kind") in ("get", "list", "root", "delete")
        if not passthrough:
            deface(v.body, o, d, seen)
        q = getattr(v, "query_string", None)
        if isinstance(q, dict):
            for k in ("filter", "sorter", "presence_checker", "count", "startIndex"):
                if k in q:
                    deface(q[k], o, d, seen)
    elif isinstance(v, ValidationIssues):
        deface(v.to_dict(msg=True, ctx=True), o, d, seen)
    elif isinstance(v, Filter):
        deface(v.to_dict(), o, d, seen)
    elif isinstance(v, dict):
        for k in list(v):
            deface(v[k], o, d, seen)
            v[k] = "DEFACED"
        v["defaced"] = True
    elif isinstance(v, list):
        for x in v:
            deface(x, o, d, seen)
        v.append("DEFACED")
        v.reverse()
        if len(v) > 2:
            del v[1]
    elif isinstance(v, SCIMDataContainer):
        for k in list(v.to_dict()):
            try:
                deface(v[k], o, d, seen)
                v[k] = "DEFACED"
            except Exception:
                pass
        v["defaced"] = True


ISO = {p.id: p for p in (C01, C02, C03, C04, C05, C06)}
