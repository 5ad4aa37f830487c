"""Controlled scheduler for real threads: every source line (or bytecode instruction) executed inside qmat is a point where the running thread
can be preempted. Preemption points are source lines, bytecode
instructions or function entries. A schedule is a list of segments (thread, number of events); after the last one the current thread runs to its end, then the
others. Each schedule is executed in its own forked copy of a fresh process."""
import sys, os, threading, time, gc, types
from .boot import REPO

PRE = os.path.realpath(os.path.join(REPO, "qmat")) + os.sep
_files = {}


def traced(fn):
    r = _files.get(fn)
    if r is None:
        r = _files[fn] = os.path.realpath(fn).startswith(PRE)
    return r


TOOL = 3
_installed = None


def EVENTS():
    E = sys.monitoring.events
    return dict(line=E.LINE, opcode=E.INSTRUCTION, call=E.PY_START)


def codes():
    """all code objects of qmat reachable from its functions"""
    seen, todo = {}, []
    for o in gc.get_objects():
        c = getattr(o, "__code__", None) if type(o) is types.FunctionType else None
        if c is not None and traced(c.co_filename):
            todo.append(c)
    while todo:
        c = todo.pop()
        if id(c) not in seen:
            seen[id(c)] = c
            todo += [x for x in c.co_consts if type(x) is types.CodeType]
    return list(seen.values())


def install(grain):
    """instrument the code of qmat, once per process and granularity, while no thread runs"""
    global _installed
    if _installed == grain:
        return
    mon = sys.monitoring
    if _installed is None:
        mon.use_tool_id(TOOL, "verif-scheduler")
    gc.unfreeze()
    for c in codes():
        mon.set_local_events(TOOL, c, EVENTS()[grain])
    _installed = grain


class Run:
    def __init__(self, bodies, plan, grain="line", limit=60.):
        self.n, self.plan, self.grain, self.limit = len(bodies), list(plan), grain, limit
        self.bodies = bodies
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * self.n
        self.res = [None] * self.n
        self.tid = [None] * self.n
        self.events = [0] * self.n
        self.seg, self.left, self.segdone = -1, None, []
        self.free, self.blocked = False, False
        self.end = threading.Event()
        self.ready = threading.Semaphore(0)
        self.index = {}
        self.total = 0
        self.cur = None

    # ---- called by the running thread only
    def next_segment(self):
        self.seg += 1
        if self.seg < len(self.plan):
            t, self.left = self.plan[self.seg]
            return t
        self.left = None
        return None

    def event(self, i):
        self.events[i] += 1
        self.total += 1
        if self.left is None or self.free:
            return
        self.left -= 1
        if self.left > 0:
            return
        self.segdone.append(True)
        t = self.next_segment()
        if t is None:            # plan used up: hand over to the other thread(s), to completion
            t = self.other(i)
        if t is None or t == i or self.done[t]:
            return
        self.cur = t
        self.sem[t].release()
        self.sem[i].acquire()

    def other(self, i):
        for d in range(1, self.n + 1):
            t = (i + d) % self.n
            if not self.done[t]:
                return t
        return None

    def finish(self, i):
        self.done[i] = True
        self.total += 1
        if self.left is not None and not self.free:
            self.segdone.append(False)       # the segment was longer than the thread
            self.left = None
        t = self.other(i)
        if t is None:
            self.end.set()
        elif not self.free:
            self.cur = t
            self.sem[t].release()

    def thread(self, i):
        self.tid[i] = threading.get_native_id()
        self.index[threading.get_ident()] = i
        out = []
        self.ready.release()
        self.sem[i].acquire()
        try:
            for f in self.bodies[i]:
                try:
                    out.append(f())
                except Exception as e:
                    out.append(("RAISED", type(e).__name__, str(e)[:200]))
        finally:
            self.res[i] = out
            self.finish(i)

    def sleeping(self, i):
        try:
            with open(f"/proc/self/task/{self.tid[i]}/stat") as f:
                return f.read().rpartition(")")[2].split()[0] == "S"
        except OSError:
            return False

    def go(self):
        """execute; returns (results or None on deadlock, events per thread, which segments were completed, blocked?)"""
        mon = sys.monitoring
        install(self.grain)
        mon.register_callback(TOOL, EVENTS()[self.grain], self.callback)
        try:
            return self.execute()
        finally:
            mon.register_callback(TOOL, EVENTS()[self.grain], None)

    def callback(self, code, where):
        i = self.index.get(threading.get_ident())
        if i is not None and not self.done[i]:
            self.event(i)

    def execute(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
            self.ready.acquire()
        first = self.next_segment()
        self.cur = first if first is not None else 0
        self.sem[self.cur].release()
        t0, last, still = time.time(), -1, 0
        wait = 0.02
        while not self.end.wait(wait):
            if time.time() - t0 > self.limit:
                return None, self.events, self.segdone, self.blocked
            if self.total != last or self.free:
                last, still, wait = self.total, 0, 0.02
                continue
            wait = 0.004
            still = still + 1 if self.sleeping(self.cur) else 0
            if still >= 4 and self.total == last:       # waits for something a paused thread holds: let everybody run
                self.free = self.blocked = True
                for s in self.sem:
                    s.release()
        for t in ts:
            t.join(5)
        return self.res, self.events, self.segdone, self.blocked
