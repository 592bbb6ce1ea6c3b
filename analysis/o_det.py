"""Determinism: information flow from sources that differ between runs to what the program shows.

Flow-insensitive taint over the MIR of the functions reachable from main, interprocedural, one node per local
(field-insensitive).  Three kinds of taint:
  value  a result that differs between runs (clock, environment, randomness, process ids, addresses);
         flows through data and through the branches it decides
  order  a sequence or iterator whose order differs between runs (iteration over a hash map or set)
  elem   an element taken from such a sequence
order and elem end where the order no longer matters: sorting, collecting into a map or set, counting, any/all,
arithmetic (a sum does not depend on the order); they do not flow through branches (a search for "some element
such that" does not depend on the order either).  A violation is a chain of flows from a source to output, exit
status or a file name.
"""
import re
from core import *
import mir
import o_depth

VALUE = re.compile(r"^(std::time::(SystemTime|Instant)::now|std::env::(var|vars|var_os|vars_os|current_dir|current_exe|temp_dir|home_dir)$"
                   r"|std::process::id$|std::thread::(current|available_parallelism)|rand::|getrandom::|fastrand::|std::io::stdin$|std::io::Stdin"
                   r"|std::random::|.*RandomState.*::(build_hasher|hash_one)$|std::hash::BuildHasher::(build_hasher|hash_one)$"
                   r"|core::fmt::rt::Argument::<'_>::new_pointer$|.*IsTerminal.*::is_terminal$|std::os::unix::process::parent_id)")
ADDR = re.compile(r"<\*(const|mut) .*as std::fmt::|(\*const|\*mut) T>::(addr|expose_provenance)$")
HASHED = re.compile(r"^(&(mut )?)*std::collections::(hash_map::|hash_set::|hash::map::|hash::set::)?Hash(Map|Set)<")
ITER = re.compile(r"::(iter|iter_mut|keys|values|values_mut|drain|into_iter|into_keys|into_values|retain|extract_if|union|difference|intersection|symmetric_difference)$")
CLEAN = re.compile(r"::(count|len|any|all|sum|product|is_empty|contains|contains_key|size_hint|is_disjoint|is_subset|is_superset|capacity|max|min|binary_search\w*)$")
SORT = re.compile(r"::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$")
UNORDERED = re.compile(r"^(&(mut )?)*std::collections::(\w+::)*(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)<")
PICK = re.compile(r"::(next|next_back|nth|last|find|find_map|peek|position|next_if|min_by|max_by|min_by_key|max_by_key|reduce|first|get|index|pop|remove)$")
SINK = re.compile(r"^(std::io::(_print|_eprint)|std::process::exit|std::fs::(File::(create|open|create_new|options)|write|OpenOptions::open|rename|remove_file|copy))$"
                  r"|std::io::Write(>)?::(write|write_all|write_fmt)$")


class Flow(object):
    def __init__(self, ctx):
        self.ctx, self.prog, self.types = ctx, ctx.prog, ctx.prog.types
        local, edges = o_depth.graph(self.prog)
        mains = [f.id for f in local.values() if f.name == "c8s::main"]
        if not mains:
            raise Missing("main")
        seen = set(mains)
        work = list(mains)
        while work:
            for g in edges.get(work.pop(), ()):
                if g not in seen:
                    seen.add(g)
                    work.append(g)
        self.fns = {i: local[i] for i in seen}
        self.main = mains[0]
        self.out = {}       # node -> [(node, kinds, site)]
        self.seeds = []     # (node, kind, what, site)
        self.sinks = {}     # node -> (what, site)
        self.sorted = set()
        self.calls = 0
        for f in self.fns.values():
            self.function(f)

    def ty(self, f, l):
        return self.types[f.locals[l]] if l < len(f.locals) and isinstance(f.locals[l], int) else {"k": "?", "s": "?"}

    def edge(self, a, b, kinds, site):
        if a != b:
            self.out.setdefault(a, []).append((b, kinds, site))

    def function(self, f):
        ctl = self.control(f)
        for k, b in enumerate(f.blocks):
            for s in b["s"]:
                if s[0] != "=":
                    continue
                site = s[-1] if isinstance(s[-1], list) else None
                d = (f.id, s[1][0])
                us = set()
                mir._uses(s[2], us)
                arith = s[2].get("r") in ("bin", "cbin", "un")
                for u in us:
                    self.edge((f.id, u), d, "v" if arith else "voe", site)
                if s[2].get("r") in ("ref", "addr", "rawptr") and s[2].get("mut") in (True, 1) or self.aliases(f, s):
                    for u in us:
                        self.edge(d, (f.id, u), "voe", site)
                if "expose" in repr(s[2]).lower() and "cast" in repr(s[2].get("r")):
                    self.seeds.append((d, "v", "the address of a value", site))
                for c in ctl.get(k, ()):
                    self.edge((f.id, c), d, "v", site)
            t = b["t"]
            if t["t"] == "call":
                self.call(f, t, ctl.get(k, ()))
            elif t["t"] == "return":
                for c in ctl.get(k, ()):
                    self.edge((f.id, c), (f.id, 0), "v", None)
        if f.id == self.main:
            self.sinks.setdefault((f.id, 0), ("the result of main", f.span))

    def aliases(self, f, s):
        """A copy of a mutable reference: writes through it reach the original."""
        t = self.ty(f, s[1][0])
        return s[2].get("r") == "use" and not s[1][1] and (t["k"] == "ref" and t.get("mut") or t["k"] == "closure")

    def call(self, f, t, ctl):
        self.calls += 1
        site = t.get("sp")
        d = (f.id, t["dest"][0])
        args = []
        for a in t["args"]:
            us = set()
            mir._uses(a, us)
            args.append([(f.id, u) for u in us])
        name = t.get("def") or ""
        callee = self.prog.fns.get(t.get("fn")) if isinstance(t.get("fn"), int) else None
        full = callee.name if callee is not None else name
        t0 = self.ty(f, args[0][0][1])["s"] if args and args[0] else ""
        for c in ctl:
            self.edge((f.id, c), d, "v", site)
            for a in args[:1]:
                for x in a:
                    xt = self.ty(f, x[1])
                    if xt["k"] == "ref" and xt.get("mut"):
                        self.edge((f.id, c), x, "v", site)
        if SINK.search(name) or SINK.search(full):
            for a in args:
                for x in a:
                    self.sinks[x] = (name, site)
            for c in ctl:
                self.sinks.setdefault((f.id, c), ("a branch before " + name, site))
        if callee is not None and callee.id in self.fns and len(args) == callee.argc:
            g = callee
            for i, a in enumerate(args):
                for x in a:
                    self.edge(x, (g.id, i + 1), "voe", site)
                    pt = self.ty(g, i + 1)
                    if pt["k"] == "ref" and pt.get("mut"):
                        self.edge((g.id, i + 1), x, "voe", site)
            self.edge((g.id, 0), d, "voe", site)
            return
        if VALUE.search(name) or VALUE.search(full) or ADDR.search(full):
            self.seeds.append((d, "v", name, site))
        if HASHED.search(t0) and ITER.search(name):
            self.seeds.append((d, "o", "%s of %s" % (name.split("::")[-1], re.sub(r"^&(mut )?", "", t0).split("<")[0]), site))
            kinds = "ve"
        elif name.endswith("Argument::<'_>::new_debug") and HASHED.search(t0):
            self.seeds.append((d, "v", "the debug text of a hash map", site))
            kinds = "ve"
        elif SORT.search(name):
            self.sorted |= set(args[0] if args else ())
            kinds = ""
        elif UNORDERED.search(t0) or UNORDERED.search(self.types[t["dty"]]["s"] if isinstance(t.get("dty"), int) else "") or CLEAN.search(name):
            kinds = "v"
        elif PICK.search(name):
            kinds = "v>e"       # an element taken out
        else:
            kinds = "voe"
        if isinstance(t.get("dty"), int) and self.types[t["dty"]]["s"] == "bool" and kinds != "":
            kinds = "v"
        for a in args:
            for x in a:
                self.edge(x, d, kinds, site)
        # what a mutable argument receives
        for i, a in enumerate(args):
            for x in a:
                xt = self.ty(f, x[1])
                if xt["k"] == "ref" and xt.get("mut") and kinds != "":
                    for j, b in enumerate(args):
                        if j != i:
                            for y in b:
                                self.edge(y, x, "v" if UNORDERED.search(xt["s"]) else "voe" if not PICK.search(name) else "v", site)
        # closures given to a library function: its other arguments reach the closure's, its result comes out
        for i, a in enumerate(args):
            for x in a:
                xt = self.ty(f, x[1])
                while xt["k"] == "ref":
                    xt = self.types[xt["elem"]]
                if xt["k"] != "closure":
                    continue
                for gid in set(v for v in (xt.get("inst") or {}).values() if isinstance(v, int)):
                    if gid not in self.fns:
                        continue
                    g = self.fns[gid]
                    self.edge(x, (gid, 1), "voe", site)
                    self.edge((gid, 1), x, "voe", site)
                    for j, b in enumerate(args):
                        if j != i:
                            for y in b:
                                for p in range(2, g.argc + 1):
                                    self.edge(y, (gid, p), "v>e", site)
                    if kinds:
                        self.edge((gid, 0), d, "v" if kinds == "v" or self.ty(g, 0)["s"] == "bool" else "voe", site)

    def control(self, f):
        """block -> locals whose branch decides whether the block runs (control dependence)."""
        n = len(f.blocks)
        exits = n
        succ = {i: [s for s in f.succ(i) if s is not None and 0 <= s < n] or [exits] for i in range(n)}
        pd = {i: None for i in range(n)}
        pd[exits] = {exits}
        change = True
        order = list(range(n - 1, -1, -1))
        while change:
            change = False
            for i in order:
                acc = None
                for s in succ[i]:
                    if pd[s] is None:
                        continue
                    acc = set(pd[s]) if acc is None else acc & pd[s]
                if acc is None:
                    continue
                acc.add(i)
                if acc != pd[i]:
                    pd[i] = acc
                    change = True
        out = {}
        for i in range(n):
            t = f.blocks[i]["t"]
            if t["t"] != "switch" or pd[i] is None:
                continue
            us = set()
            mir._uses(t["d"], us)
            for s in succ[i]:
                if s == exits or pd[s] is None:
                    continue
                for b in pd[s]:
                    if b != exits and (b not in pd[i] or b == i):
                        out.setdefault(b, set()).update(us)
        return out

    def run(self):
        """{(node, kind): (previous (node, kind) or seed, site)}"""
        came = {}
        work = []
        for k, (n, kind, what, site) in enumerate(self.seeds):
            if (n, kind) not in came:
                came[(n, kind)] = (None, k)
                work.append((n, kind))
        killed = self.sorted_nodes()
        while work:
            n, kind = work.pop(0)
            if kind in "oe" and n in killed:
                continue
            for m, kinds, site in self.out.get(n, ()):
                if kinds == "v>e":
                    new = "v" if kind == "v" else "e"
                elif kind in kinds:
                    new = kind
                else:
                    continue
                if (m, new) not in came:
                    came[(m, new)] = ((n, kind), site)
                    work.append((m, new))
        return came

    def sorted_nodes(self):
        """Locals that are sorted somewhere, with what they alias."""
        back = {}
        for a, es in self.out.items():
            for b, kinds, _ in es:
                if "o" in kinds:
                    back.setdefault(b, set()).add(a)
        out = set(self.sorted)
        # references lead back to the sorted sequence: follow as long as the types are references to it
        work = list(out)
        while work:
            n = work.pop()
            for m in back.get(n, ()):
                f = self.fns.get(n[0])
                t = self.ty(f, n[1])
                if t["k"] in ("ref", "ptr") and m not in out:
                    out.add(m)
                    work.append(m)
        return out

    def chain(self, came, end):
        steps = []
        cur = end
        while cur is not None:
            prev, site = came[cur]
            if prev is None:
                return steps[::-1], self.seeds[site]
            if isinstance(site, (list, tuple)):
                steps.append((self.fns[cur[0][0]].name, span_str(site)))
            cur = prev
        return steps[::-1], None


@timed
def o_det(ctx):
    """No flow from the clock, environment, randomness, addresses or hash order to anything the program shows."""
    r = ObResult("O-DET")
    fl = Flow(ctx)
    came = fl.run()
    r.fns |= set(fl.fns)
    for n in fl.sinks:
        hit = [k for k in "voe" if (n, k) in came]
        if not hit:
            r.good()
            continue
        what, site = fl.sinks[n]
        steps, seed = fl.chain(came, (n, hit[0]))
        places = []
        for fn, sp in steps:
            if not sp.startswith("/") and (not places or places[-1] != sp):
                places.append(sp)
        r.bad("order" if hit[0] in "oe" else "value", "%s (%s) reaches %s: %s" % (
            seed[2], span_str(seed[3]), what, " -> ".join(places[:2] + ["..."] + places[-3:] if len(places) > 6 else places)), span_str(site) if site else "", {})
    if not r.total:
        r.open("no output found")
    r.analysed.update(functions=len(fl.fns), call_sites=fl.calls, flows=sum(len(x) for x in fl.out.values()), sources=len(fl.seeds), sinks=len(fl.sinks))
    return r
