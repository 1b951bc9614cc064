"""Fault, crash and delay injection for multi-worker code, and a watchdog.

Faults are placed at calls that the code under test makes into the libraries it
depends on (butler, resources, zip files): the k-th such call of a given worker
raises, or takes the whole process down.  Workers are told apart by thread or process name only.
"""
from __future__ import annotations

import errno
import faulthandler
import json
import os
import random
import signal
import sys
import threading
import time
import traceback

import lsst.pipe.base

BASE = os.path.dirname(lsst.pipe.base.__file__) + os.sep
OWN = BASE + "quantum_graph" + os.sep
LIBS = tuple(os.sep + os.path.join("lsst", *p) + os.sep for p in (("daf", "butler"), ("resources",))) + (os.sep + "zipfile" + os.sep, os.sep + "tempfile.py")


class Injected(RuntimeError):
    pass


FAULTS = {"runtime": lambda: Injected("injected"), "space": lambda: OSError(errno.ENOSPC, "injected: no space left on device"),
          "denied": lambda: PermissionError("injected: permission denied"), "memory": lambda: MemoryError("injected"),
          "interrupt": lambda: KeyboardInterrupt("injected")}


def leaving(frame):
    """Whether a frame is (in) the clean-up of a context manager."""
    while frame is not None:
        if frame.f_code.co_name in ("__exit__", "__del__", "close"):
            return True
        frame = frame.f_back
    return False


class Tracer:
    """Counts and disturbs library calls made by the code under test."""

    def __init__(self, fault=None, seed=None, marker=None, main="supervisor"):
        # fault: (worker name, k, action)
        self.fault, self.marker, self.main = fault, marker, main
        self.seed = seed
        self.counts: dict = {}
        self.local = threading.local()
        self.delays = 0

    def name(self):
        t = threading.current_thread()
        return self.main if t is threading.main_thread() else t.name

    def __call__(self, frame, event, arg):
        if event != "call" or frame.f_back is None:
            return None
        callee, caller = frame.f_code.co_filename, frame.f_back.f_code.co_filename
        if self.seed is not None and callee.startswith(OWN):
            rng = getattr(self.local, "rng", None)
            if rng is None:
                rng = self.local.rng = random.Random(f"{self.seed}/{self.name()}")
            if rng.random() < 0.02:
                self.delays += 1
                time.sleep(rng.choice([0, 0.001, 0.005, 0.03]))
        if caller.startswith(OWN) and any(x in callee for x in LIBS) and not leaving(frame.f_back):
            n = self.name()
            k = self.counts[n] = self.counts.get(n, -1) + 1
            if self.fault is not None and self.fault[0] == n and self.fault[1] == k:
                act = self.fault[2]
                self.fault = None
                if self.marker:
                    with open(self.marker, "w") as f:
                        f.write(f"{n} {k} {act}: {frame.f_back.f_code.co_name} called {frame.f_code.co_name}\n")
                if act == "exit":
                    os._exit(9)
                if act == "kill":
                    os.kill(os.getpid(), signal.SIGKILL)
                raise FAULTS[act]()
        return None

    def install(self):
        threading.settrace(self)
        sys.settrace(self)

    def remove(self):
        sys.settrace(None)
        threading.settrace(None)


def process_target(target, fault, seed, marker, name, *args, **kw):
    """Entry point of a disturbed worker process."""
    t = Tracer(fault, seed, marker, main=name)
    t.install()
    try:
        return target(*args, **kw)
    finally:
        t.remove()


def disturb_processes(fault, seed, marker):
    """Make every multiprocessing process started from now on a disturbed one."""
    from multiprocessing.process import BaseProcess
    orig = BaseProcess.__init__

    def init(self, group=None, target=None, name=None, args=(), kwargs={}, **kw):
        if target is not None and name is not None:
            args = (target, fault if fault and fault[0] == name else None, seed, marker, name, *args)
            target = process_target
        orig(self, group, target, name, args, kwargs, **kw)
    BaseProcess.__init__ = init


def disturb_start(n):
    """The n-th thread started from now on cannot be started."""
    orig = threading.Thread.start
    count = [0]

    def start(self):
        count[0] += 1
        if count[0] == n + 1:
            raise RuntimeError("injected: can't start new thread")
        return orig(self)
    threading.Thread.start = start


def watched(fn, deadline, tmp):
    """Run fn in a child process.

    Returns dict(outcome="ok|raised|died|hang", exc, leftover=[threads or processes
    that did not end], stacks).  fn must not leave effects behind in this process.
    """
    out = os.path.join(tmp, f"w{time.monotonic_ns()}")
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            st = open(out + ".stacks", "w")
            faulthandler.register(signal.SIGUSR1, file=st, all_threads=True)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            res = {}
            try:
                res["value"] = fn()
                res["outcome"] = "ok"
            except BaseException as e:
                res["outcome"] = "raised"
                res["exc"] = type(e).__name__ + ": " + str(e)[:300]
                res["tb"] = "".join(traceback.format_exception(e))[-3000:]
            sys.settrace(None)
            end = time.monotonic() + deadline / 2
            import multiprocessing
            res["alive"] = [t.name for t in threading.enumerate() if t is not threading.main_thread() and not t.daemon] + [p.name for p in multiprocessing.active_children()]
            left = []
            for t in list(threading.enumerate()):
                if t is not threading.main_thread() and not t.daemon:
                    t.join(max(0.0, end - time.monotonic()))
                    if t.is_alive():
                        left.append(t.name)
            for p in multiprocessing.active_children():
                p.join(max(0.0, end - time.monotonic()))
                if p.is_alive():
                    left.append(p.name)
                    p.kill()
            res["leftover"] = left
            if left:
                faulthandler.dump_traceback(file=st, all_threads=True)
                st.flush()
            with open(out + ".tmp", "w") as f:
                json.dump(res, f)
            os.rename(out + ".tmp", out)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    end = time.monotonic() + deadline
    status = None
    while time.monotonic() < end:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            status = s
            break
        time.sleep(0.01)
    hang = status is None
    if hang:
        try:
            os.kill(pid, signal.SIGUSR1)
            time.sleep(1.0)
        except ProcessLookupError:
            pass
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    if hang:
        os.waitpid(pid, 0)
    stacks = open(out + ".stacks").read() if os.path.exists(out + ".stacks") else ""
    if hang:
        return dict(outcome="hang", stacks=stacks, leftover=[])
    if os.path.exists(out):
        res = json.load(open(out))
        res["stacks"] = stacks
        return res
    return dict(outcome="died", code=os.waitstatus_to_exitcode(status), leftover=[], stacks=stacks)
