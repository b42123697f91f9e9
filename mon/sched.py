"""Schedule perturbation: makes the interpreter switch threads often and injects short random delays at
lines of the tree under test (wherever they are), in the worker threads started within the context.
The number of delays of one run is bounded, so that long runs stay affordable; the tiny switch interval stays."""
import contextlib
import os
import random
import sys
import threading
import time
from .core import REPO

PREFIX = str(REPO) + os.sep


@contextlib.contextmanager
def perturbed(rng, intensity=0.05, max_delay=3e-4, interval=1e-5, max_count=4000):
    old = sys.getswitchinterval()
    seed = rng.getrandbits(64)
    counter = [0]
    stats = {"delays": 0, "lines": 0}

    def make_tracer():
        counter[0] += 1
        local = random.Random(seed + counter[0])
        rnd = local.random

        def line_tracer(frame, event, arg):
            if event == "line":
                stats["lines"] += 1
                if stats["delays"] > max_count:
                    return None  # long runs: no more tracing of this frame
                if rnd() < intensity:
                    stats["delays"] += 1
                    r = rnd()
                    time.sleep(0 if r < 0.3 else r * r * max_delay)
            return line_tracer

        def tracer(frame, event, arg):
            if stats["delays"] > max_count:
                return None
            if frame.f_code.co_filename.startswith(PREFIX):
                return line_tracer
            return None
        return tracer

    thread_tracers = {}

    def dispatch(frame, event, arg):
        tid = threading.get_ident()
        tracer = thread_tracers.get(tid)
        if tracer is None:
            tracer = thread_tracers[tid] = make_tracer()
        return tracer(frame, event, arg)

    sys.setswitchinterval(interval)
    threading.settrace(dispatch)
    try:
        yield stats
    finally:
        threading.settrace(None)
        sys.setswitchinterval(old)


class Recorder:
    """thread safe event log at the API boundary, with a total order of events"""
    def __init__(self):
        self.lock = threading.Lock()
        self.events = []

    def add(self, *event):
        with self.lock:
            self.events.append((threading.get_ident(), *event))

    def signature(self):
        """interleaving: which logical thread acted on what, in which order"""
        ids = {}
        return tuple((ids.setdefault(e[0], len(ids)), *e[1:]) for e in self.events)

    def threads(self):
        return len({e[0] for e in self.events})
