"""Loading of the MIR dump (see /verif/mirdump) and basic CFG facts."""
import json


class Fn(object):
    __slots__ = ("id", "name", "def_", "crate", "kind", "targs", "argc", "spread", "locals", "names",
                 "span", "blocks", "heads", "rpo", "loops", "backedges", "raw", "prom", "keep")

    def __init__(self, d):
        self.raw = d
        self.id = d["id"]
        self.name = d["name"]
        self.def_ = d["def"]
        self.crate = d["crate"]
        self.kind = d["kind"]
        self.targs = d.get("targs", [])
        self.argc = d.get("argc", 0)
        self.spread = d.get("spread")
        self.locals = d.get("locals", [])
        self.names = {}
        for n in d.get("names", []):
            self.names.setdefault(n[0], n[1])
        self.span = d.get("span")
        self.blocks = d.get("blocks")
        self.heads = None

    def has_body(self):
        return bool(self.blocks)

    def cfg(self):
        if self.heads is None:
            self._cfg()
        return self.heads

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t["t"]
        if k == "goto":
            return [t["to"]]
        if k == "switch":
            return [x[1] for x in t["arms"]] + [t["else"]]
        if k == "py":
            return list(t["succ"])
        if k in ("drop", "assert"):
            return [t["to"]]
        if k == "call":
            return [t["to"]] if t.get("to") is not None else []
        return []

    def _cfg(self):
        """Natural-loop heads by DFS (normal edges only; unwind edges are not followed)."""
        color = {}
        order = []
        heads = set()
        back = []
        stack = [(0, iter(self.succ(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succ(s))))
                    adv = True
                    break
                elif c == 1:
                    heads.add(s)
                    back.append((b, s))
            if not adv:
                color[b] = 2
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.heads = heads
        self.backedges = back
        preds = {}
        for b in order:
            for s in self.succ(b):
                preds.setdefault(s, []).append(b)
        self.loops = {}
        for (b, h) in back:
            body = self.loops.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds.get(x, []))


def _uses(x, acc):
    """Locals mentioned in places inside a JSON term."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "p" and isinstance(v, list) and len(v) == 2 and isinstance(v[0], int):
                acc.add(v[0])
                for e in v[1]:
                    if isinstance(e, list) and e[0] == 'i':
                        acc.add(e[1])
            else:
                _uses(v, acc)
    elif isinstance(x, list):
        for y in x:
            _uses(y, acc)


def keep_at(fn, head):
    """Locals of fn whose value may still matter at block head: live ones, and address-taken ones
    whose storage may be live. None: unknown (keep all)."""
    if getattr(fn, "keep", None) is None:
        fn.keep = _keep(fn)
    if fn.keep is False:
        return None
    return fn.keep[head]


def _keep(fn):
    n = len(fn.blocks)
    if any(b["t"]["t"] == "py" for b in fn.blocks):
        return False
    taken = set()
    storage = set()
    for b in fn.blocks:
        for s in b["s"]:
            if s[0] in ("live", "dead"):
                storage.add(s[1])
            elif s[0] == "=" and s[2]["r"] in ("ref", "addr"):
                p = s[2]["p"]
                if "*" not in p[1]:
                    taken.add(p[0])
    # backward liveness
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            out = set()
            for t in fn.succ(b):
                out |= live[t]
            cur = out
            t = fn.blocks[b]["t"]
            if t["t"] == "return":
                cur.add(0)
            d = t.get("dest")
            if d is not None:
                if not d[1]:
                    cur.discard(d[0])
                else:
                    cur.add(d[0])
                    for e in d[1]:
                        if isinstance(e, list) and e[0] == 'i':
                            cur.add(e[1])
            acc = set()
            _uses({k: v for k, v in t.items() if k != "dest"}, acc)
            cur |= acc
            for s in reversed(fn.blocks[b]["s"]):
                if s[0] in ("live", "dead"):
                    cur.discard(s[1])
                elif s[0] == "=":
                    if not s[1][1]:
                        cur.discard(s[1][0])
                    else:
                        cur.add(s[1][0])
                        for e in s[1][1]:
                            if isinstance(e, list) and e[0] == 'i':
                                cur.add(e[1])
                    acc = set()
                    _uses(s[2], acc)
                    cur |= acc
                else:
                    acc = set()
                    _uses(s, acc)
                    cur |= acc
            if cur != live[b]:
                live[b] = cur
                ch = True
    # forward: storage that may be live (only address-taken locals)
    stor = [None] * n
    stor[0] = set(x for x in taken if x not in storage)
    work = [0]
    while work:
        b = work.pop()
        cur = set(stor[b])
        for s in fn.blocks[b]["s"]:
            if s[0] == "live" and s[1] in taken:
                cur.add(s[1])
            elif s[0] == "dead":
                cur.discard(s[1])
        for t in fn.succ(b):
            if stor[t] is None:
                stor[t] = set(cur)
                work.append(t)
            elif not cur <= stor[t]:
                stor[t] |= cur
                work.append(t)
    return [live[b] | (stor[b] or set()) for b in range(n)]


class Program(object):
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        for t in self.types:
            # negative discriminants are dumped as unsigned bits
            if t["k"] == "enum" and t["name"].endswith("cmp::Ordering"):
                for v in t["variants"]:
                    if v["d"] == "255":
                        v["d"] = "-1"
        self.fns = {}
        for f in d["fns"]:
            fn = Fn(f)
            self.fns[fn.id] = fn
        self.main = d.get("main")
        self.roots = d.get("roots", [])
        self.items = d.get("items", [])
        self.statics = d.get("statics", {})
        self.by_name = {}
        for fn in self.fns.values():
            self.by_name.setdefault(fn.name, []).append(fn)

    def local_fns(self):
        return [f for f in self.fns.values() if f.crate == "c8s"]

    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]


def loc(sp):
    if not sp:
        return "?"
    return str(sp)
