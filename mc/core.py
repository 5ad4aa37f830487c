"""Exploration engine: bounded exhaustive exploration of the *real* code.

A check is a finite set of *roots* (tasks). Each root is explored in its own process, forked from a parent that
has only imported qmat, so every root starts from the same pristine state of the library. Within a root, states,
transitions (calls made on the implementation) and traces (complete call sequences of which every answer was
compared with the reference) are counted as they happen.
"""
import os, sys, json, time, pickle, struct, hashlib, traceback, select, signal, math
from . import boot
from .boot import REPO, VERIF, TIER, SEED, QUICK

MAXSHOW = int(os.environ.get("VERIF_MAXSHOW", "20"))
NPROC = int(os.environ.get("VERIF_NPROC", "0")) or min(8, os.cpu_count() or 1)
TASK_TIMEOUT = float(os.environ.get("VERIF_TASK_TIMEOUT", "600" if QUICK else "7200"))


def digest(x):
    return hashlib.sha1(repr(x).encode()).digest()[:10]


class Stop(Exception):
    """Raised to abandon the rest of a root once enough violations of it are recorded."""


class Rec:
    """What one root explored."""
    MAXV = 4

    def __init__(self):
        self.states, self.transitions, self.traces = set(), 0, 0
        self.samples, self.viol, self.outcomes, self.extra = [], [], set(), {}

    def state(self, key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        self.outcomes.add(digest(key))

    def sample(self, txt):
        if len(self.samples) < 2:
            self.samples.append(txt)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def fail(self, key, what, **detail):
        """key : identifies the specific failing input / history, what : one line for a reader."""
        self.viol.append(dict(key=str(key), what=str(what), detail={k: _show(v) for k, v in detail.items()}))
        if len(self.viol) >= self.MAXV and not getattr(self, "keepall", False):
            raise Stop()

    def expect(self, cond, key, what, **detail):
        if not cond:
            self.fail(key, what, **detail)
        return bool(cond)

    def merge(self, o):
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.transitions += o.transitions
        self.traces += o.traces
        self.viol += o.viol
        if len(self.samples) < 8:
            self.samples += o.samples[:1]
        for k, v in o.extra.items():
            if k.startswith("max_"):
                self.extra[k] = max(self.extra.get(k, v), v)
            elif k.startswith("all_"):
                self.extra[k] = bool(self.extra.get(k, True) and v)
            else:
                self.extra[k] = self.extra.get(k, 0) + v


def _show(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return np.array2string(v, precision=17, threshold=200) if v.size else f"empty{v.shape}"
    if isinstance(v, (list, tuple)):
        return [_show(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _show(x) for k, x in v.items()}
    if isinstance(v, (int, float, bool, str)) or v is None:
        return v
    return repr(v)


def in_qmat(tb):
    """Does the traceback go through the code under test?"""
    pre = os.path.realpath(os.path.join(REPO, "qmat")) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(pre):
            return True
        tb = tb.tb_next
    return False


def run_task(check, task):
    rec = Rec()
    err = None
    try:
        check.run(task, rec)
    except Stop:
        pass
    except Exception as e:
        if in_qmat(e.__traceback__):
            rec.viol.append(dict(key=f"raised {type(e).__name__}: {task}", what=f"unexpected {type(e).__name__}: {e}",
                                 detail=dict(traceback=traceback.format_exc()[-3000:])))
        else:
            err = f"task {task}\n{traceback.format_exc()}"
    return rec, err


def fork_map(fn, items, nproc=None, timeout=None):
    """Yield (index, result) of fn(item), each evaluated in its own forked process, at most nproc at a time."""
    nproc, timeout = nproc or NPROC, timeout or TASK_TIMEOUT
    items = list(items)
    running, nxt = {}, 0     # fd -> [pid, idx, buf, t0]
    sys.stdout.flush(); sys.stderr.flush()
    try:
        while nxt < len(items) or running:
            while nxt < len(items) and len(running) < nproc:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        for fd in running:
                            os.close(fd)
                        os.setpgid(0, 0)
                        out = pickle.dumps(fn(items[nxt]), protocol=4)
                        with os.fdopen(w, "wb") as f:
                            f.write(out)
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    finally:
                        sys.stdout.flush(); sys.stderr.flush()
                        os._exit(code)
                os.close(w)
                running[r] = [pid, nxt, bytearray(), time.time()]
                nxt += 1
            ready, _, _ = select.select(list(running), [], [], 1.0)
            for fd in ready:
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    running[fd][2].extend(chunk)
                    continue
                pid, idx, buf, _ = running.pop(fd)
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                if st == 0 and buf:
                    yield idx, pickle.loads(bytes(buf))
                else:
                    yield idx, ("DIED", st)
            now = time.time()
            for fd in list(running):
                pid, idx, buf, t0 = running[fd]
                if now - t0 > timeout:
                    running.pop(fd)
                    os.close(fd)
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    os.waitpid(pid, 0)
                    yield idx, ("TIMEOUT", now - t0)
    finally:
        for fd, (pid, *_r) in running.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass


def forked(fn, *args):
    """Evaluate fn(*args) in a forked copy of the current process (a snapshot of its complete state)."""
    for _, res in fork_map(lambda _x: fn(*args), [0], nproc=1):
        return res


def load_known():
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        line = line.rstrip("\n")
        if line.startswith("finding: "):
            head, what = line[len("finding: "):].split(" :: ", 1)
            pid, key = head.split(" key=", 1)
            known[(pid.split("=", 1)[1], key)] = what
    return known


def main(check):
    """Run one check: exploration, known findings, evidence, verdict."""
    t0 = time.time()
    pid = check.PROPERTY
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--only", help="only the roots whose description contains this (debugging)")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args(sys.argv[2:])
    if args.replay:
        rep = json.load(open(args.replay))
        tasks = [_tuplify(rep["task"])]
        print("replaying", rep["key"])
    else:
        tasks = list(check.tasks(QUICK))
    if args.only:
        tasks = [t for t in tasks if args.only in repr(t)]
    total, errors, failing, slow = Rec(), [], [], []
    rdir = os.path.join(VERIF, "replay")
    if not args.replay:
        for f in os.listdir(rdir) if os.path.isdir(rdir) else []:
            if f.startswith(pid + "-"):
                os.unlink(os.path.join(rdir, f))

    def job(t):
        s = time.time()
        r = run_task(check, t)
        return r, time.time() - s

    import gc
    gc.collect()
    gc.freeze()              # children share the pages of the imported modules
    nproc = 1 if args.replay else getattr(check, "NPROC", NPROC)
    nviol = 0
    for idx, res in fork_map(job, tasks, nproc=nproc):
        if isinstance(res[0], str):
            kind = res[0]
            rec, err = Rec(), None
            if kind == "TIMEOUT":
                rec.viol.append(dict(key=f"no answer: {tasks[idx]}", what=f"no answer within {res[1]:.0f} s", detail={}))
            else:
                err = f"task {tasks[idx]} died with status {res[1]}"
        else:
            (rec, err), dt = res
            slow.append((dt, tasks[idx]))
        if err:
            errors.append(err)
        for v in rec.viol:
            v["task"] = tasks[idx]
            failing.append((idx, v))
        total.merge(rec)
    failing.sort(key=lambda x: x[0])
    known = load_known()
    news, olds = [], {}
    for idx, v in failing:
        if (pid, v["key"]) in known:
            olds[v["key"]] = known[(pid, v["key"])]
        else:
            news.append(v)
    for k in sorted(olds):
        print(f"KNOWN-FINDING: property={pid} {k} :: {olds[k]}")
    if args.verbose:
        for dt, t in sorted(slow, reverse=True, key=lambda x: x[0])[:8]:
            print(f"   {dt:7.2f}s {t}")
    wall = time.time() - t0
    cov = dict(states=len(total.states), transitions=total.transitions, traces_validated_against_impl=total.traces,
               roots=len(tasks), samples=total.samples[:8] or ["none"], distinct_outcomes=len(total.outcomes),
               exhaustive=bool(getattr(check, "EXHAUSTIVE", True)) and not errors and total.extra.get("all_closed", True),
               bounds=check.BOUNDS[TIER] if isinstance(check.BOUNDS, dict) else check.BOUNDS,
               known_findings_seen=len(olds))
    cov.update(total.extra)
    ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking", coverage=cov,
              assumptions=list(getattr(check, "ASSUMPTIONS", [])), wall_s=round(wall, 3), violations=len(news))
    if not args.replay and not args.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    print(f"{pid} [{TIER}] states={cov['states']} transitions={cov['transitions']} traces={cov['traces_validated_against_impl']}"
          f" roots={len(tasks)} violations={len(news)} known={len(olds)} wall={wall:.1f}s")
    if news:
        os.makedirs(rdir, exist_ok=True)
        for v in news[:MAXSHOW]:
            path = os.path.join(rdir, f"{pid}-{digest(v['key']).hex()[:12]}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, key=v["key"], what=v["what"], task=v["task"], detail=v["detail"],
                               replay_cmd=f"/verif/check {pid} --replay {path}"), f, indent=1, default=str)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"   {v['key']} :: {v['what']}")
        if len(news) > MAXSHOW:
            print(f"   ... and {len(news)-MAXSHOW} more")
        for e in errors[:2]:
            print("also, harness error:", e)
        return 1
    if errors:
        print("HARNESS ERROR", len(errors))
        for e in errors[:5]:
            print(e)
        return 2
    return 0


def _tuplify(x):
    return tuple(_tuplify(y) for y in x) if isinstance(x, list) else x


def scribble(x, v=-77.7):
    """The caller overwrites everything it received (read-only arrays excepted)."""
    import numpy as np
    if isinstance(x, np.ndarray):
        try:
            x[...] = v
        except (ValueError, TypeError):
            pass
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y, v)
        if isinstance(x, list):
            x.clear()
    elif isinstance(x, dict):
        for y in x.values():
            scribble(y, v)
        x.clear()
    elif hasattr(x, "tocsc") and hasattr(x, "data"):
        scribble(x.data, v)
