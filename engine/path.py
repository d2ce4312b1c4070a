"""Exploration by deterministic re-execution: a path is a run under a prefix of decisions."""
import time
import z3
from term import *
import smt
from values import *


class Path:
    def __init__(self, prefix, known_forced=None):
        self.prefix = prefix
        self.pos = 0
        self.trace = []          # (value, forced)
        self.pc = []             # assumed terms
        self.known = {}
        self.pending = []        # alternative prefixes discovered
        self.solver = None
        self.asserted = 0
        self.n = 0
        self.facts = []          # axioms added on the way (terms)
        self.bounded = set()     # labels of bounds relied on
        self.events = []
        self.check_ms = 300
        self.loops = {}
        self.defer = []

    def fresh_id(self):
        self.n += 1
        return self.n

    # -- assumptions
    def learn(self, c):
        if isinstance(c, bool):
            return
        if c.op == "and":
            for x in c.a:
                self.learn(x)
            return
        self.known[c.id] = True
        nc = not_(c)
        if isinstance(nc, T):
            self.known[nc.id] = False

    def assume(self, c):
        """add a path condition / fact"""
        if c is True:
            return
        if c is False:
            raise Infeasible()
        if self.lookup(c) is True:
            return
        self.pc.append(c)
        self.learn(c)

    def lookup(self, c):
        if isinstance(c, bool):
            return c
        k = self.known.get(c.id)
        if k is not None:
            return k
        if c.op == "and":
            r = True
            for x in c.a:
                v = self.lookup(x)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if c.op == "or":
            r = False
            for x in c.a:
                v = self.lookup(x)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if c.op == "not":
            v = self.lookup(c.a[0])
            return None if v is None else not v
        return None

    def feasible(self, c):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.check_ms)
            self.seen_atoms = set()
        new = self.pc[self.asserted:]
        self.asserted = len(self.pc)
        for t in new:
            self._add(t)
        self.solver.push()
        self._add_aux([c])
        self.solver.add(smt.z(c))
        r = self.solver.check()
        self.solver.pop()
        smt.stats["calls"] += 1
        return r != z3.unsat

    def _add(self, t):
        self._add_aux([t])
        self.solver.add(smt.z(t))

    def _add_aux(self, ts):
        # cheap: ranges and definitional facts of the atoms occurring (one level)
        ds = smt.defs(ts)
        full = list(ts) + ds
        for f in ds:
            self.solver.add(smt.z(f))
        for f in smt.ranges(full, False):
            self.solver.add(f)
        for f in smt.strfacts(full):
            self.solver.add(f)

    # -- forking
    def branch(self, c):
        """the truth value of c on this path (forks when both are possible)"""
        if isinstance(c, bool):
            return c
        k = self.lookup(c)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((v, forced))
            if forced:
                self.learn(c if v else not_(c))
            else:
                self.assume(c if v else not_(c))
            return v
        nc = not_(c)
        ft = self.feasible(c)
        ff = self.feasible(nc) if ft else True
        self.pos += 1
        if ft and ff:
            self.pending.append(self.trace + [(False, False)])
            self.trace = self.trace + [(True, False)]
            self.assume(c)
            return True
        v = ft
        self.trace = self.trace + [(v, True)]
        self.learn(c if v else nc)
        return v

    def choose(self, n):
        """nondeterministic choice among n alternatives (not a condition)"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((v, forced))
            return v
        self.pos += 1
        for i in range(1, n):
            self.pending.append(self.trace + [(i, False)])
        self.trace = self.trace + [(0, False)]
        return 0


def explore(run, max_paths=20000, deadline=None, stats=None):
    """run(path) is executed for every feasible path; yields (path, result)"""
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > max_paths:
            raise Unsupported("more than %d paths" % max_paths)
        if deadline and time.time() > deadline:
            raise Unsupported("time limit during exploration (%d paths done, %d waiting)" % (n, len(work)))
        p = Path(prefix)
        try:
            r = run(p)
        except Infeasible:
            r = None
        work.extend(p.pending)
        if r is not None:
            yield p, r


# ---------------------------------------------------------------- parallel exploration
_job = None


def _task(prefixes):
    return _job(prefixes)


def explore_parallel(step, merge, nproc=8, max_paths=20000, deadline=None, stop=None):
    """step(prefix list, budget) runs in worker processes: explores from the prefixes and returns
    (result pack, pending prefixes, paths, error text); merge(pack) runs here. stop() ends early."""
    import multiprocessing as mp
    global _job
    _job = step
    # a first serial part gives the workers something to share
    pack, work, n, err = step(([[]], 6))
    merge(pack)
    if err or not work:
        return n, err
    if nproc <= 1:
        while work:
            pack, more, k, err = step(([work.pop()], 1 << 30))
            merge(pack)
            n += k
            work += more
            if err:
                return n, err
            if n > max_paths:
                return n, "more than %d paths" % max_paths
            if deadline and time.time() > deadline:
                return n, "time limit during exploration (%d paths done, %d waiting)" % (n, len(work))
            if stop and stop():
                return n, ""
        return n, ""
    ctx = mp.get_context("fork")
    err = ""
    pool = ctx.Pool(nproc)
    try:
        running = []
        while work or running:
            while work and len(running) < 2 * nproc:
                running.append(pool.apply_async(_task, (([work.pop()], 8),)))
            done = [r for r in running if r.ready()]
            if not done:
                if deadline and time.time() > deadline:
                    return n, "time limit during exploration (%d paths done, %d waiting)" % (n, len(work) + len(running))
                running[0].wait(0.02)
                continue
            for r in done:
                running.remove(r)
                pack, more, k, e = r.get()
                merge(pack)
                n += k
                work += more
                err = err or e
            if err:
                return n, err
            if n > max_paths:
                return n, "more than %d paths" % max_paths
            if deadline and time.time() > deadline:
                return n, "time limit during exploration (%d paths done, %d waiting)" % (n, len(work))
            if stop and stop():
                return n, ""
    finally:
        pool.terminate()
        pool.join()
    return n, ""
