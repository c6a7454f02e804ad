"""One replica: a separate process with its own environment, answering a script of operations.

python -m dst.replica < {"ops": [...], "env": {...}}  > outcomes (JSON)
"""
import gc
import json
import os
import random
import subprocess
import sys

from . import seam

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def launch(env, script):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "LD_PRELOAD", "PYSCIM_REPO", "HOME")}
    e.update({"PYTHONHASHSEED": str(env["hashseed"]), "TZ": env["tz"], "LC_ALL": env["locale"],
              "PYTHONUTF8": str(env["utf8"]), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": HERE})
    p = subprocess.Popen([sys.executable, "-m", "dst.replica"], cwd=env["cwd"], env=e,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    p.payload = json.dumps({"ops": script, "env": env}).encode()
    return p


def collect(procs):
    out = []
    for p in procs:
        so, se = p.communicate(p.payload, timeout=300)
        try:
            out.append(json.loads(so))
        except ValueError:
            raise RuntimeError("replica failed: %s" % se.decode(errors="replace")[-2000:])
    return out


def main():
    req = json.load(sys.stdin)
    env = req["env"]
    import time
    time.tzset()
    try:
        import locale
        locale.setlocale(locale.LC_ALL, "")
    except Exception:
        pass
    seam.enter(env["clock"], env["entropy"], env["tick"])
    if env["gc"] == "off":
        gc.disable()
    elif env["gc"] == "eager":
        gc.set_threshold(1, 1, 1)
    from . import iso, ops, regprops, world
    try:
        world.load(env["order"])
        w = world.World()
    except Exception as e:
        print(json.dumps([["raised", type(e).__name__, str(e), "while loading"]]))
        return
    w.keep = env["keep"]
    r = random.Random(env["entropy"])
    out = []
    iso.BASE = w
    reg = regprops.State()
    for o in req["ops"]:
        if r.random() < 0.1:
            seam.jump(r.choice(seam.JUMPS) if env["entropy"] else 0)
        if "ev" in o:                            # construction, registration and use of schemas of its own
            out.append(regprops.outcome(reg, o))
            continue
        p = ops.Prepared(o)
        try:
            res = ("ok", ops.run(w, p))
        except BaseException as e:  # noqa
            res = ("raised", e)
        out.append(iso.settle(res))
    sys.stdout.write(json.dumps(out))


if __name__ == "__main__":
    main()
