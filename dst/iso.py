"""The isolation engine: scenarios whose every operation must behave as if it ran alone.

Scenario (JSON):
  before   ops run one after the other first (history)
  threads  per simulated worker thread a list of ops, run under `plan`, `faults`, `opcodes`
  after    ops run one after the other at the end (probes)
Ops may also be events of the deployment itself: {"op": "construct", ...}, {"op": "restart"}.
An op with "same": n is a redelivery of the very same caller objects as op number n of the same
list of the scenario's pool `deliveries`.

The oracle of an operation is the outcome of the same operation performed alone in a process
forked from an image in which the code under test has been imported and the deployment
constructed, but nothing has been processed.
"""
import hashlib
import json
import random

from . import gen, ops, pool, seam, sim, world
from .canon import canon, scrub

BASE = None


def setup():
    """In a worker: load the code under test and build the pristine deployment image."""
    global BASE
    pool.zygote()
    sim.warm()
    BASE = world.World()
    _oracle.clear()
    _shared.clear()


def setup_fresh(order_seed=None):
    global BASE
    pool.zygote(order_seed)
    sim.warm()
    BASE = world.World()
    _oracle.clear()
    _shared.clear()


def rng_of(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def key(o):
    return json.dumps(o, sort_keys=True)


# ------------------------------------------------------------------ outcomes
def settle(res):
    """Observable value of a finished operation (what the caller of the library sees)."""
    tag, v = res
    if tag == "raised":
        return ["raised", type(v).__name__, scrub(str(v))]
    try:
        return ["ok", canon(v)]
    except Exception as e:  # the result itself cannot be read: that is observable too
        return ["unreadable", type(e).__name__, scrub(str(e))]


_oracle = {}


def expect(o, prof=True):
    """Outcome (and profile) of one op alone in a pristine process."""
    k = key(o)
    hit = _oracle.get(k)
    if hit is not None and (not prof or hit["prof"] is not None):
        return hit

    def alone():
        p = ops.Prepared(o)
        if not prof:
            try:
                res = ("ok", ops.run(BASE, p))
            except BaseException as e:  # noqa
                res = ("raised", e)
            return {"out": settle(res), "prof": None}
        pr = sim.Profile()
        try:
            res = ("ok", pr.run(lambda: ops.run(BASE, p)))
        except BaseException as e:  # noqa
            res = ("raised", e)
        return {"out": settle(res), "prof": pr.data()}

    st, v = pool.in_child(alone)
    if st != "ok":
        v = {"out": ["no-answer", st], "prof": {"lines": {}, "hot": {}, "calls": 0, "call_locs": {},
                                                "hooks": 0, "steps": 0}}
    if len(_oracle) > 4000:
        _oracle.clear()
    _oracle[k] = v
    return v


_shared = {}


def shared(o):
    """[{line: times}, [function entries before]] of the stores of this operation into objects that outlive it;
    None when there are none."""
    k = key(o)
    if k not in _shared:
        def look():
            w = sim.SharedStores()
            p = ops.Prepared(o)
            w.run(lambda: ops.run(BASE, p), sim.long_lived([BASE]))
            w.run(lambda: ops.run(BASE, ops.Prepared(o)), sim.long_lived([BASE]))
            return [w.found, w.before] if w.found else None
        st, v = pool.in_child(look)
        if len(_shared) > 4000:
            _shared.clear()
        _shared[k] = v if st == "ok" else None
    return _shared[k]


# ------------------------------------------------------------------ corpora
def corpus(r, size=12, bad=0.15, kinds=None, ops_filter=None):
    """Related operations: a random theme per block (swarm), plus near twins of each."""
    if kinds is None and r.random() < 0.25:      # what is parsed once and used by many
        kinds = ["match", "sort", "presence", "dump_list", "roundtrip"]
    theme = kinds or r.sample(sorted(set(gen.OP_KINDS)), r.choice([3, 5, 8, 20]))
    ress = r.sample(["User", "Group", "Device"], r.choice([1, 2, 3]))
    out = []
    guard = 0
    while len(out) < size and guard < 4000:
        guard += 1
        seed = r.randrange(1 << 60)
        rr = random.Random(seed)
        o = gen.op_of(rr, r.choice(theme), r.choice(ress), bad)
        if ops_filter and not ops_filter(o):
            continue
        out.append(o)
        for _ in range(r.choice([0, 1, 1, 2])):
            t = gen.twin(rr, o)
            if not ops_filter or ops_filter(t):
                out.append(t)
    return out


# ------------------------------------------------------------------ execution
def _construct(o):
    """Deployment events that must not concern anybody else."""
    from src import request_validators as rv
    from src.assets.schemas import group, user
    from src.data.schemas import SchemaExtension

    what = o["what"]
    r = random.Random(o["seed"])
    if what == "world":
        world.World(max_operations=r.choice([1, 2, 100]), max_results=r.choice([1, 7]))
    elif what == "extend":
        s = r.choice([user.User, group.Group, world.device_schema])()
        s.with_extension(SchemaExtension(
            schema="urn:sim:other:%d" % r.randrange(9),
            attrs=[world.build_attr(world.S.A("flavour", "string", "r")),
                   world.build_attr(world.S.A("userName", "integer", "")),
                   world.build_attr(world.S.A("displayName", "integer", "ro"))]))
    elif what == "validator":
        s = r.choice([user.User, group.Group])()
        rv.ResourceObjectPATCH(BASE.config, resource_schema=s)
        rv.BulkOperations(BASE.config, resource_schemas=[s])
        rv.Error()
    return "constructed"


def run_one(w, p):
    o = p.o
    if o["op"] == "construct":
        return _construct(o)
    return ops.run(w, p)


def execute(scn, scribble=None, keep_inputs=False):
    """Run a scenario in this (already forked) process; returns what was observed."""
    w = BASE
    w.keep = not scn.get("fresh")
    seam.enter(scn.get("clock", seam.T0), scn.get("entropy", 0), scn.get("tick", 1000000))
    drop = scn.get("drop")
    seen = []          # [label, op, outcome, late outcome, fault]
    raws = []
    prepared = {}

    def prep(o):
        if o.get("deliver") is not None:        # redelivery of the very same objects
            d = o["deliver"]
            if d not in prepared:
                prepared[d] = ops.Prepared(strip(o))
            return prepared[d]
        return ops.Prepared(o)

    inputs = []        # (label, prepared, snapshot)

    def begin(label, o):
        p = prep(o)
        if keep_inputs and not any(q is p for _, q, _ in inputs):
            if scribble is None:
                p.wrap()
            inputs.append((label, p, snapshot(p)))
        return p

    def note(label, o, res, fault=None):
        out = settle(res)
        seen.append([label, o, out, None, fault])
        raws.append(None if drop else res)
        if scribble is not None:
            if scribble(o, res):
                raws[-1] = None                # defaced on purpose: not compared again

    def sequential(name, lst):
        nonlocal w
        for i, o in enumerate(lst):
            if o["op"] == "restart":
                w = world.World()
                w.keep = not scn.get("fresh")
                continue
            if o["op"] == "clock":
                seam.jump(o["jump"])
                continue
            label = "%s[%d]" % (name, i)
            p = begin(label, o)
            try:
                res = ("ok", run_one(w, p))
            except BaseException as e:  # noqa
                res = ("raised", e)
            note(label, o, res)

    sequential("before", scn.get("before", []))
    s = None
    if scn.get("threads"):
        late = {}
        jobs = []
        preps = {}
        for t, lst in enumerate(scn["threads"]):
            js = []
            for i, o in enumerate(lst):
                p = begin("thread%d[%d]" % (t, i), o)
                preps[t, i] = p
                js.append(lambda p=p: run_one(w, p))
            jobs.append(js)

        def one(o):
            try:
                return "ok", run_one(w, ops.Prepared(o))
            except BaseException as e:  # noqa
                return "raised", e

        def finish(t, i, res):
            late[t, i] = None if drop else res
            return settle(res)

        s = sim.Sim(jobs, scn.get("plan", ()), scn.get("faults", ()), scn.get("opcodes", False),
                    finish=finish, nested=lambda o: (o, one(o))).run()
        faulted = {(f["tid"], f["opi"]): f for f in scn.get("faults", ())}
        for t, lst in enumerate(scn["threads"]):
            for i, o in enumerate(lst):
                seen.append(["thread%d[%d]" % (t, i), o, s.out[t][i], None, faulted.get((t, i))])
                raws.append(late.get((t, i), ("raised", RuntimeError("never ran"))))
                if scribble is not None and late.get((t, i)) and scribble(o, late[t, i]):
                    raws[-1] = None
        for t, i, (o, res) in s.nested:
            seen.append(["thread%d[%d] inside a hook" % (t, i), o, settle(res), None, None])
            raws.append(None if drop else res)
    sequential("after", scn.get("after", []))
    for row, res in zip(seen, raws):
        row[3] = settle(res) if res is not None else row[2]
    obs = {"seen": seen, "seam": seam.counters()}
    if s is not None:
        obs.update(fired=s.fired, trail=s.trail, switches=s.switches, deadlock=s.deadlock)
    if keep_inputs:
        obs["inputs"] = [[label, before, snapshot(p)] for label, p, before in inputs]
    if keep_inputs and scribble is None:         # what was handed over again and again, against new ones
        obs["inputs"] += [["the %s %s" % k, canon(make()), canon(w.pool[k])] for k, make in w.made.items()]
    return obs


def strip(o):
    return {k: v for k, v in o.items() if k not in ("deliver", "scribble")}


def snapshot(p):
    """Deep, typed picture of the caller's objects."""
    return canon(p.inputs())


# ------------------------------------------------------------------ judging
def judge(scn, mode, scribble=None, keep_inputs=False, need_prof=False):
    """Run the scenario in its own child and compare.  Returns (violation | None, observation)."""
    st, obs = pool.in_child(lambda: execute(scn, scribble, keep_inputs), timeout=180)
    if st != "ok":
        return {"class": "no-answer", "detail": "the simulated process %s" % st}, None
    bad = compare(obs, mode)
    return bad, obs


def compare(obs, mode):
    if obs.get("deadlock"):
        return {"class": "deadlock", "detail": "threads wait for each other forever"}
    for label, o, out, late, fault in obs["seen"]:
        if o["op"] == "construct":
            if out[0] == "raised":
                return {"class": "mismatch", "detail": "constructing %s failed: %s" % (o, out),
                        "label": label, "op": o, "got": out, "want": ["ok", "constructed"]}
            continue
        want = expect(strip(o), prof=False)["out"]
        if fault is not None and "op" not in fault:
            if mode == "containment":
                continue                       # judged by the fail-closed property
            if mode == "fail-closed":
                if out[0] == "raised" and out[1] == fault["kind"] and sim.FAULT_TEXT in out[2]:
                    continue
        if out != want:
            return {"class": "mismatch", "label": label, "op": strip(o), "got": out, "want": want,
                    "detail": "the operation did not behave as it does alone"}
        if late != want:
            return {"class": "late-change", "label": label, "op": strip(o), "got": late,
                    "want": want,
                    "detail": "the operation's result changed after it had been returned"}
    for label, before, after in obs.get("inputs", []):
        if before != after:
            return {"class": "input-modified", "label": label, "got": after, "want": before,
                    "detail": "the caller's own objects were modified"}
    return None


# ------------------------------------------------------------------ shrinking
def shrink_lists(scn, names=("after", "before")):
    for n in names:
        lst = scn.get(n) or []
        k = len(lst)
        size = k
        while size >= 1:
            for i in range(0, k, size):
                c = dict(scn)
                c[n] = lst[:i] + lst[i + size:]
                yield c
            size //= 2


def shrink_scn(scn):
    yield from shrink_lists(scn)
    plan = scn.get("plan") or []
    if plan:
        c = dict(scn)
        c["plan"] = []
        yield c
        for i in range(len(plan)):
            c = dict(scn)
            c["plan"] = plan[:i] + plan[i + 1:]
            yield c
    for i in range(len(scn.get("faults") or [])):
        c = dict(scn)
        c["faults"] = scn["faults"][:i] + scn["faults"][i + 1:]
        yield c
    th = scn.get("threads") or []
    for t in range(len(th)):
        for i in range(len(th[t])):
            if any(f["tid"] == t and f["opi"] >= i for f in scn.get("faults") or []):
                continue
            c = dict(scn)
            c["threads"] = th[:t] + [th[t][:i] + th[t][i + 1:]] + th[t + 1:]
            yield c
    if scn.get("opcodes"):
        c = dict(scn)
        c["opcodes"] = False
        yield c
    # simpler operations: shorten bodies
    for name in ("before", "after"):
        for i, o in enumerate(scn.get(name) or []):
            for o2 in shrink_op(o):
                c = dict(scn)
                c[name] = scn[name][:i] + [o2] + scn[name][i + 1:]
                yield c
    for t in range(len(th)):
        for i, o in enumerate(th[t]):
            for o2 in shrink_op(o):
                c = dict(scn)
                c["threads"] = th[:t] + [th[t][:i] + [o2] + th[t][i + 1:]] + th[t + 1:]
                yield c


def shrink_op(o):
    for f in ("body", "data", "items", "query", "headers", "checker", "filter", "sorter"):
        v = o.get(f)
        if v is None:
            continue
        if f in ("query", "headers", "checker", "filter", "sorter"):
            o2 = dict(o)
            o2[f] = None
            yield o2
        for p in sorted(gen.paths(v), key=len):
            if p:
                o2 = dict(o)
                o2[f] = gen.del_at(v, p)
                yield o2
