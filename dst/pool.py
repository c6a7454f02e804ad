"""Processes: zygotes, forked children and the worker pool.  No verdict depends on wall time."""
import gc
import json
import os
import select
import signal
import sys
import time
import traceback

from . import seam


class ChildError(Exception):
    """The harness itself failed in a child (never a verdict)."""


def settle():
    """Same addresses, hash seeds and environment in every process of the simulation."""
    want = {"PYTHONHASHSEED": os.environ.get("DST_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1",
            "TZ": "UTC", "LC_ALL": "C.UTF-8"}
    if os.environ.get("DST_SETTLED") == "1":
        return
    env = dict(os.environ)
    env.update(want)
    env["DST_SETTLED"] = "1"
    so = seam.build()
    if so:
        env["LD_PRELOAD"] = so
    try:
        import ctypes
        libc = ctypes.CDLL(None, use_errno=True)
        libc.personality(0x0040000)          # ADDR_NO_RANDOMIZE, if the sandbox allows it
    except Exception:
        pass
    os.execve(sys.executable, [sys.executable] + sys.orig_argv[1:], env)


def in_child(fn, timeout=120.0):
    """Run fn() in a forked child and return its JSON-able result.
    ("ok", value) | ("died", status) | ("timeout", None); harness errors raise ChildError."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            seam.enter()
            try:
                out = {"v": fn()}
            except BaseException as e:  # noqa
                out = {"err": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())}
            data = json.dumps(out).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "timeout", None
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            c = os.read(r, 1 << 16)
            if not c:
                break
            chunks.append(c)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    raw = b"".join(chunks)
    if not raw:
        return "died", st
    out = json.loads(raw)
    if "err" in out:
        raise ChildError(out["err"])
    return "ok", out["v"]


def zygote(order_seed=None, locks=True):
    """Load the code under test once; children are forked from this image."""
    from . import sim, world
    if locks:
        sim.patch_locks()
    world.load(order_seed)
    gc.collect()
    gc.freeze()


class Pool:
    """Hands block numbers to worker processes and collects one JSON line per block."""

    def __init__(self, blocks, work, workers=None, setup=None, wall=None):
        self.blocks, self.work, self.setup, self.wall = list(blocks), work, setup, wall
        self.workers = workers or int(os.environ.get("DST_WORKERS", "0")) or os.cpu_count() or 4

    def run(self, on_result):
        """on_result(block, result) -> True to stop early.  Returns (done, errors)."""
        t0 = time.monotonic()
        queue = list(self.blocks)
        slots = {}
        errors = []
        done = 0
        stop = False

        def spawn():
            c_r, p_w = os.pipe()
            p_r, c_w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(p_w)
                os.close(p_r)
                for s in slots.values():
                    os.close(s["w"])
                    os.close(s["r"])
                self._worker(c_r, c_w)
            os.close(c_r)
            os.close(c_w)
            slots[pid] = {"r": p_r, "w": p_w, "buf": b"", "block": None}

        def give(s):
            if stop or not queue or (self.wall and time.monotonic() - t0 > self.wall):
                os.write(s["w"], b"-1\n")
                s["block"] = None
                return
            s["block"] = queue.pop(0)
            os.write(s["w"], b"%d\n" % s["block"])

        for _ in range(min(self.workers, len(queue))):
            spawn()
        for s in slots.values():
            give(s)
        while slots:
            fds = {s["r"]: (pid, s) for pid, s in slots.items()}
            ready, _, _ = select.select(list(fds), [], [], 5.0)
            for fd in ready:
                pid, s = fds[fd]
                c = os.read(fd, 1 << 16)
                if not c:
                    _, st = os.waitpid(pid, 0)
                    if s["block"] is not None:
                        errors.append("worker died in block %s (status %s)" % (s["block"], st))
                    os.close(s["r"])
                    os.close(s["w"])
                    del slots[pid]
                    continue
                s["buf"] += c
                while b"\n" in s["buf"]:
                    line, s["buf"] = s["buf"].split(b"\n", 1)
                    res = json.loads(line)
                    b = s["block"]
                    s["block"] = None
                    if "err" in res:
                        errors.append(res["err"])
                        stop = True
                    else:
                        done += 1
                        if on_result(b, res["v"]):
                            stop = True
                    give(s)
            if stop:
                # the others are no longer needed
                for pid, s in list(slots.items()):
                    if s["block"] is not None:
                        try:
                            os.killpg(pid, signal.SIGKILL)
                        except (ProcessLookupError, PermissionError):
                            pass
                        os.waitpid(pid, 0)
                        os.close(s["r"])
                        os.close(s["w"])
                        del slots[pid]
        return done, errors

    def _worker(self, rfd, wfd):
        try:
            os.setpgid(0, 0)
            if self.setup:
                self.setup()
            f = os.fdopen(rfd, "r")
            for line in f:
                b = int(line)
                if b < 0:
                    break
                try:
                    out = {"v": self.work(b)}
                except BaseException as e:  # noqa
                    out = {"err": "block %d: %s: %s\n%s" % (
                        b, type(e).__name__, e, traceback.format_exc())}
                data = json.dumps(out).encode() + b"\n"
                while data:
                    n = os.write(wfd, data)
                    data = data[n:]
        except BaseException:
            traceback.print_exc()
            os._exit(3)
        os._exit(0)
