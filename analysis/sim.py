"""Comparison of code that loops with a specification machine.

Proof: a simulation argument over the loop partitions the interpreter computed.  The code is cut at
its loop heads into segments (function start or loop partition -> loop partition or leaf).  For
every partition the variables of the specification machine are located among the values the code
carries (the phis of the partition); a segment is discharged when the specification, started in the
source's variables, makes a fixed number of steps and arrives exactly in the target's variables, on
every path of the segment and for all values; a leaf is discharged when the specification then
finishes with the same result.

Reports: the same comparison on the first iterations kept apart (Interp.peel), where states are
exact and start at the function's entry; only a mismatch with a concrete valuation is reported.
"""
from core import *
import core
import time
from interp import subst_lin
from o_instr import report, defin

STEPS = (1, 2, 0, 3)


class Spec(object):
    """start(st) and step(st, sigma) return ('next', sigma) or ('done', result); sigma is a dict of
    the machine's variables.  judge(st, out, res) returns None when the leaf agrees with the result,
    else (class, text, code value or None, specified value or None)."""
    vars = ()       # (name, kind), kind in lin / seq / map / str; the driving variable first
    limit = 12      # steps after which a specification run is cut off

    def start(self, st):
        raise NotImplementedError

    def step(self, st, sg):
        raise NotImplementedError

    def judge(self, st, out, res):
        raise NotImplementedError

    def pre(self, st, sg):
        """Facts about reachable specification states that the segment may assume."""
        return True


def descend(v, path):
    for e in path:
        if isinstance(v, Agg):
            if not isinstance(e, tuple) or e[0] != v.var or e[1] >= len(v.fs):
                return None
            v = v.fs[e[1]]
        elif isinstance(v, (IterV, ObjV)):
            if not isinstance(e, tuple) or e[0] != v.kind or e[1] >= len(v.p):
                return None
            v = v.p[e[1]]
        elif isinstance(v, BoxV):
            v = v.v
        else:
            return None
    return v


def walk(v, path, acc, depth=0):
    """All positions inside a value."""
    if depth > 8:
        return
    acc.append((path, v))
    if isinstance(v, Agg):
        for i, x in enumerate(v.fs):
            walk(x, path + ((v.var, i),), acc, depth + 1)
    elif isinstance(v, (IterV, ObjV)):
        for i, x in enumerate(v.p):
            walk(x, path + ((v.kind, i),), acc, depth + 1)
    elif isinstance(v, BoxV):
        walk(v.v, path + ('b',), acc, depth + 1)


def kind_of(v):
    if isinstance(v, SeqV):
        return 'seq'
    if isinstance(v, MapV):
        return 'map'
    if isinstance(v, StrV):
        return 'str'
    if isinstance(v, Lin):
        return 'lin'
    return None


class Role(object):
    """Where a variable of the specification lives at a loop partition."""

    def __init__(self, how, x, y=None):
        self.how = how      # 'const' value / 'lin' expression over the phis / 'cell' (cell, path)
        self.x = x
        self.y = y

    def __repr__(self):
        return "%s:%r" % (self.how, self.x)

    def at_head(self, p):
        if self.how == 'cell':
            v = p.head.cells.get(self.x)
            return None if v is None else descend(v, self.y)
        return self.x

    def at(self, ip, p, s, sub):
        """Value in a state s arriving at partition p."""
        if self.how == 'const':
            return self.x
        if self.how == 'lin':
            return subst_lin(self.x, sub)
        v = s.cells.get(self.x)
        return None if v is None else descend(v, self.y)


class Sim(object):
    def __init__(self, ip, spec, outs):
        self.ip = ip
        self.spec = spec
        self.outs = outs
        self.recs = []
        self.edges = []     # (source partition or None, state, target partition)
        self.leaves = []    # (source, out)
        self.roles = {}     # partition -> {var: Role}
        self.failed = []    # (source, state, target, why)
        self.proved = 0
        self.collect()

    def collect(self):
        seen = set()
        work = []

        def src(st):
            for rec, p in st.tags:
                if id(rec) not in seen:
                    seen.add(id(rec))
                    self.recs.append(rec)
                    work.append(rec)
            return st.tags[-1][1] if st.tags else None
        for o in self.outs:
            self.leaves.append((src(o.st), o))
        while work:
            rec = work.pop(0)
            key0 = self.ip.shape(rec.entry, rec.entry)
            bykey = {p.key: p for p in rec.parts}
            if key0 in bykey:
                self.edges.append((src(rec.entry), rec.entry, bykey[key0]))
            for p in rec.parts:
                for r in p.results:
                    if r[0] == 'back':
                        t = bykey.get(self.ip.shape(r[1], rec.entry))
                        self.edges.append((src(r[1]), r[1], t))

    # -- running the specification along a segment
    def sigma(self, src):
        if src is None:
            return None
        out = {}
        for name, kind in self.spec.vars:
            v = self.roles[src][name].at_head(src)
            if v is None:
                return None
            out[name] = v
        return out

    def runs(self, src, st, k, sg=None):
        """[(state, ('next', sigma) | ('done', res))] after k steps from src (None: start)."""
        if sg is None:
            sg = self.sigma(src)

        def go(s):
            if src is None:
                r = self.spec.start(s)
            else:
                if not self.spec.pre(s, sg):
                    raise Infeasible()
                r = ('next', sg)
            n = k
            while r[0] == 'next' and n > 0:
                r = self.spec.step(s, r[1])
                n -= 1
            return r
        return list(fork(self.ip, st, go))

    def finish(self, src, st, limit=6):
        sg = self.sigma(src)

        def go(s):
            if src is None:
                r = self.spec.start(s)
            else:
                if not self.spec.pre(s, sg):
                    raise Infeasible()
                r = ('next', sg)
            n = limit
            while r[0] == 'next':
                if n == 0:
                    return None
                r = self.spec.step(s, r[1])
                n -= 1
            return r[1]
        return list(fork(self.ip, st, go))

    # -- candidates
    def cands(self, src, st, tgt, runs):
        """{var: [Role]} from one incoming segment (the first run that goes on)."""
        out = {}
        run = None
        for s, r in runs:
            if r[0] == 'next':
                run = (s, r[1])
                break
        if run is None:
            return None
        s, sg = run
        sub = self.ip.phi_values(tgt, s)
        if sub is None:
            sub = {}
        uid = tgt.uid
        spots = []
        for c, v in tgt.head.cells.items():
            acc = []
            walk(v, (), acc)
            for path, x in acc:
                spots.append((c, path, x))
        for name, kind in self.spec.vars:
            want = sg[name]
            cs = []
            if kind == 'lin':
                for a, w in sub.items():
                    if not isinstance(w, Lin):
                        continue
                    d = s.norm(want - w)
                    if not mentions_phi(d, uid):
                        cs.append(Role('lin', L(a) + d))
                    else:
                        d = s.norm(want + w)
                        if not mentions_phi(d, uid):
                            cs.append(Role('lin', d - L(a)))
                        else:
                            # want moved by a known amount while w did
                            d = s.norm(want) - s.norm(w)
                if not mentions_phi(want, uid):
                    cs.append(Role('const', want))
            else:
                for c, path, x in spots:
                    if kind_of(x) != kind or x == want and not mentions_phi(want, uid):
                        continue
                    w = s.cells.get(c)
                    w = None if w is None else descend(w, path)
                    if w is not None and kind_of(w) == kind and same(s, w, want):
                        cs.append(Role('cell', c, path))
                if not mentions_phi(want, uid):
                    cs.append(Role('const', want))
            if not cs:
                return None
            out[name] = cs[:14]
        return out

    def score_edge(self, src, st, tgt, ks=STEPS, detail=None):
        """Fraction of (run, variable) pairs that agree, best over the step counts."""
        sub = self.ip.phi_values(tgt, st)
        best = (-1, None, None)
        for k in ks:
            if src is None and k > 1:
                continue
            try:
                rs = self.runs(src, st, k)
            except (Unsupported, TooComplex):
                continue
            tot = good = 0
            bad = None
            for s, r in rs:
                tot += len(self.spec.vars)
                if r[0] != 'next':
                    bad = bad or (s, 'done', r[1], None)
                    continue
                for name, kind in self.spec.vars:
                    w = self.roles[tgt][name].at(self.ip, tgt, s, self.ip.phi_values(tgt, s) or {})
                    if w is not None and same(s, w, r[1][name]):
                        good += 1
                    else:
                        bad = bad or (s, name, w, r[1][name])
            sc = 1.0 if tot == 0 else float(good) / tot
            if sc > best[0]:
                best = (sc, k, bad)
            if sc == 1.0:
                break
        return best

    def assign(self):
        """Locates the specification's variables at every partition."""
        pend = []
        for rec in self.recs:
            pend.extend(rec.parts)
        pend = list(dict.fromkeys(pend))
        progress = True
        while pend and progress:
            progress = False
            for t in list(pend):
                ins = [(a, s) for a, s, b in self.edges if b is t and (a is None or a in self.roles)]
                if not ins:
                    continue
                pend.remove(t)
                if self.place(t, ins):
                    progress = True
                    break
                self.roles.pop(t, None)
                self.unplaced = t
        return not pend

    def place(self, t, ins):
        selfs = [(a, s) for a, s, b in self.edges if b is t and a is t]
        tried = []
        best = None
        for a, s in ins[:3]:
            for k in ((0, 1) if a is None else STEPS):
                try:
                    rs = self.runs(a, s, k)
                    cs = self.cands(a, s, t, rs)
                except (Unsupported, TooComplex):
                    cs = None
                if cs is None:
                    continue
                sc = self.climb(t, cs, ins, selfs)
                if best is None or sc[0] > best[0]:
                    best = sc
                if best[0] >= 0.9999:
                    break
            if best is not None and best[0] >= 0.9999:
                break
        if best is None:
            return False
        self.roles[t] = best[1]
        return True

    def climb(self, t, cs, ins, selfs):
        names = [n for n, _ in self.spec.vars]
        cur = {n: cs[n][0] for n in names}

        def total(roles):
            self.roles[t] = roles
            if selfs and all(c.how == 'const' for c in roles.values()):
                return 0.0
            es = ins + selfs
            x = 0.0
            for a, s in es:
                x += self.score_edge(a, s, t)[0]
            return x / max(1, len(es))
        best = total(cur)
        cache = {}
        # the driving variable with every candidate, the others greedily for each
        top = (best, dict(cur))
        for d in cs[names[0]]:
            cur = {n: cs[n][0] for n in names}
            cur[names[0]] = d
            sc = total(cur)
            for rnd in range(2):
                for n in names[1:]:
                    if sc >= 0.9999:
                        break
                    for c in cs[n][1:] if rnd == 0 else cs[n]:
                        new = dict(cur)
                        new[n] = c
                        v = total(new)
                        if v > sc + 1e-9:
                            sc, cur = v, new
                if sc >= 0.9999:
                    break
            if sc > top[0] + 1e-9:
                top = (sc, dict(cur))
            if top[0] >= 0.9999:
                break
        self.roles[t] = top[1]
        return top

    def prove(self, r, where):
        """Discharges segments and leaves in r; returns True when everything is proved."""
        spec = self.spec
        if not self.assign():
            r.open("simulation: specification variables not found at the loop in %s (line %s)" %
                   (self.unplaced.rec.fn.name, line_of(self.unplaced.rec)), where)
            return False
        ok = True
        for a, s, t in self.edges:
            if t is None:
                r.open("simulation: segment leads to an unknown partition", where)
                ok = False
                continue
            sc, k, bad = self.score_edge(a, s, t)
            if sc == 1.0:
                r.good()
            else:
                ok = False
                self.failed.append((a, s, t, bad))
                r.open("simulation: %s at the loop in %s (line %s)" % (
                    "variable `%s` is %s, specified %s" % (bad[1], short(bad[2]), short(bad[3])) if bad and bad[1] != 'done' else
                    "the code goes on where the specification ends (%s)" % short(bad[2] if bad else None),
                    t.rec.fn.name, line_of(t.rec)), where)
        for a, o in self.leaves:
            if o.kind == 'stuck':
                r.open("%s" % (o.info,), where)
                ok = False
                continue
            try:
                fs = self.finish(a, o.st)
            except (Unsupported, TooComplex) as e:
                r.open("specification: %s" % e, where)
                ok = False
                continue
            for s, res in fs:
                if res is None:
                    r.open("simulation: the code returns where the specification goes on", where)
                    ok = False
                    continue
                m = spec.judge(s, o, res)
                if m is None:
                    r.good()
                    r.sample("leaf %s ~ %s" % (short(o.val), short(res)))
                else:
                    ok = False
                    r.open("simulation leaf: %s" % m[1], where)
        return ok


def line_of(rec):
    try:
        return rec.fn.blocks[rec.head]["term"]["sp"][1]
    except Exception:
        return rec.head


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


def find(r, ip, spec, outs, where, finish=None):
    """Counterexamples on peeled paths."""
    n = 0
    for o in outs:
        if o.kind in ('stuck', 'cut'):
            continue

        def go(s):
            x = spec.start(s)
            k = spec.limit
            while x[0] == 'next':
                if k == 0:
                    return None
                x = spec.step(s, x[1])
                k -= 1
            return x[1]
        try:
            for s, res in fork(ip, o.st, go):
                if res is None:
                    continue
                n += 1
                m = spec.judge(s, o, res)
                if m is None:
                    continue
                cls, what, got, want = m
                tmp = ObResult("tmp")
                w = where
                if o.kind == 'panic':
                    w = span_str(o.info[1])
                differ = None
                extra = tuple(x for x in (got, want) if x is not None)
                if got is not None and want is not None:
                    differ = lambda v: defin(v.conc(got)) and defin(v.conc(want)) and v.conc(got) != v.conc(want)
                if report(tmp, ip, o, None, cls, what, w, s, differ, extra):
                    r.findings.extend(f for f in rename(tmp, r) if not any(g.key() == f.key() for g in r.findings))
        except (Unsupported, TooComplex):
            continue
    return n


def rename(tmp, r):
    for f in tmp.findings:
        f.ob = r.ob
    return tmp.findings


def compare(ctx, r, make, where, peel=9, always_peel=False):
    """make(ip) -> (spec, outs).  Proves by simulation; when that is incomplete, looks for exact
    counterexamples with the first `peel` iterations of every loop kept apart."""
    ip = ctx.interp()
    t = ObResult(r.ob)
    ok = False
    err = None
    try:
        spec, outs = make(ip)
        ok = Sim(ip, spec, outs).prove(t, where)
        r.fns |= ip.visited_fns
        r.count(leaves=len(outs), call_sites=ip.callsites)
    except (Unsupported, TooComplex) as e:
        t.open("%s: %s" % (type(e).__name__, e), where)
    merge(r, t)
    if ok and not always_peel:
        return True
    n = 0
    budget = 30 if ctx.tier == "quick" else 240
    t0 = time.time()
    last = 0.0
    for d in range(1, peel + 1):
        t1 = time.time()
        if d > 1 and (t1 - t0) + 2 * last > budget:
            break
        ip = ctx.interp()
        ip.peel = d
        try:
            spec, outs = make(ip)
            n = find(r, ip, spec, outs, where)
            r.fns |= ip.visited_fns
        except (Unsupported, TooComplex) as e:
            r.open("peeled: %s: %s" % (type(e).__name__, e), where)
            break
        r.analysed["peeled_paths"] = n
        r.analysed["peeled_iterations"] = d
        last = time.time() - t1
        if ip.cuts == 0:
            break
        if r.findings:
            break
    return ok


def merge(r, t):
    r.total += t.total
    r.discharged += t.discharged
    r.findings.extend(t.findings)
    for u in t.undecided:
        if u not in r.undecided and len(r.undecided) < 60:
            r.undecided.append(u)
    for s in t.samples:
        r.sample(s)
