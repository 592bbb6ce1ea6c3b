"""Call-stack use: no recursion reachable from main, or recursion whose depth grows with the input."""
from core import *
import mir
import o_scan
import o_parse
import o_prog
import o_out
from o_instr import report


def fn_refs(x, types, acc, d=0):
    """Function ids mentioned in a MIR term: callees, function constants and closures built."""
    if isinstance(x, dict):
        if isinstance(x.get("fn"), int):
            acc.add(x["fn"])
        for k, v in x.items():
            if k in ("t", "dty", "dt") and isinstance(v, int) and not isinstance(v, bool):
                ty = types[v]
                if ty["k"] in ("fndef", "closure") and isinstance(ty.get("fn"), int):
                    acc.add(ty["fn"])
            elif isinstance(v, (dict, list)):
                fn_refs(v, types, acc, d + 1)
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (dict, list)):
                fn_refs(y, types, acc, d + 1)


def local_types(types, i, acc, seen):
    """Names of the program's own types inside type i."""
    if i is None or i in seen:
        return
    seen.add(i)
    t = types[i]
    if t["k"] in ("struct", "enum") and (t.get("name") or "").startswith("c8s::"):
        acc.add(t["name"])
    for k in ("args", "elems"):
        for a in t.get(k) or ():
            if isinstance(a, int):
                local_types(types, a, acc, seen)
    if isinstance(t.get("elem"), int):
        local_types(types, t["elem"], acc, seen)


def graph(prog):
    """Calls between the program's functions.  A library function is taken to call every trait method of the
    program's types it is instantiated with, besides the closures and functions it is given."""
    types = prog.types
    local = {f.id: f for f in prog.local_fns() if f.has_body()}
    impls = {}
    for f in local.values():
        if f.name.startswith("<c8s::") and " as " in f.name:
            n = strip_generics(f.name[1:f.name.index(" as ")])
            impls.setdefault(n, set()).add(f.id)
    edges = {}
    for f in local.values():
        refs = set()
        for b in f.blocks:
            fn_refs(b, types, refs)
        for t in f.locals:
            if isinstance(t, int) and types[t]["k"] in ("closure", "fndef") and f.id not in (types[t].get("inst") or {}).values():
                refs |= set(x for x in (types[t].get("inst") or {}).values() if isinstance(x, int))
                if isinstance(types[t].get("fn"), int):
                    refs.add(types[t]["fn"])
        out = set()
        for i in refs:
            g = prog.fns.get(i)
            if g is None:
                continue
            if i in local:
                out.add(i)
                continue
            names = set()
            for a in g.targs or ():
                if isinstance(a, int):
                    local_types(types, a, names, set())
            for n in names:
                out |= impls.get(strip_generics(n), set())
        edges[f.id] = out
    return local, edges


def cycles(edges, roots):
    """Strongly connected components with a cycle, reachable from the roots (Tarjan)."""
    idx, low, on, st, out = {}, {}, set(), [], []
    n = [0]

    def visit(v):
        work = [(v, iter(sorted(edges.get(v, ()))))]
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(edges.get(w, ())))))
                    break
                if w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == u:
                            break
                    if len(c) > 1 or u in edges.get(u, ()):
                        out.append(c)
    for r in roots:
        if r not in idx:
            visit(r)
    return out, set(idx)


SCAN = ["s", "n", "g", "d", "2", ",", ("%", "e", ""), (";", "x", ""), ('"', "g", '"'), ('"', "n", '"'), "gs", "gn", ";n", ("$a", "n", "")]
PARSE = ["n", "c", "f1n", ".f1n", "f:", "cn", ("i", "1,", "n"), (".i", "1,", "n"), (".i", "s,", "n"), ("i", "f,", "n"), "fn"]
PROG = ["label", "cls", ".db n", ".org n", ".db str", "jp label", ".equ n"]


def families():
    out = []
    for x in SCAN:
        a, b, c = x if isinstance(x, tuple) else ("", x, "")
        out.append(("scan", "text", lambda k, a=a, b=b, c=c: (o_scan, a + b * k + c)))
    for x in PARSE:
        a, b, c = x if isinstance(x, tuple) else ("", x, "")
        out.append(("parse", "tokens", lambda k, a=a, b=b, c=c: (o_parse, o_parse.wild(a + b * k + c))))
    for x in PROG:
        pre = ("label",) if x == ".equ n" else ()
        out.append(("prog", "statements", lambda k, x=x, pre=pre: (o_prog, (pre + (x,)) * k)))
    for k0 in range(2):
        out.append(("ranges", "ranges", lambda k, k0=k0: (o_out, ("ovl" if k0 else "hex", k))))
    return out


def depths(ctx, m, item):
    """Most simultaneous activations per recursive function while the item is analysed."""
    seen = []
    mk = ctx.interp

    def interp():
        ip = mk()
        seen.append(ip)
        return ip
    ctx.interp = interp
    try:
        if m is o_out:
            o_out.depth_case(ctx, *item)
        else:
            m.case(ctx, item)
    finally:
        ctx.interp = mk
    out = {}
    for ip in seen:
        for f, n in ip.active.items():
            out[f] = max(n, out.get(f, 0))
    return out


@timed
def o_depth(ctx):
    """The calls of the program form no cycle; where they do, the depth reached on growing inputs."""
    r = ObResult("O-DEPTH")
    local, edges = graph(ctx.prog)
    main = ctx.fn("c8s::main", need=False) or [f for f in local.values() if f.name == "c8s::main"][0]
    cs, reached = cycles(edges, [main.id])
    r.fns |= reached
    r.count(functions=len(reached), calls=sum(len(edges.get(i, ())) for i in reached))
    rec = {f for c in cs for f in c}
    for i in reached:
        if i not in rec:
            r.good()
    if not cs:
        return r
    ks = (10, 20, 40)
    got = {}
    for name, what, mk in families():
        ds = []
        for k in ks:
            m, item = mk(k)
            try:
                ds.append(depths(ctx, m, item))
            except (Unsupported, TooComplex, RecursionError) as e:
                break
        else:
            for f in rec:
                d = [x.get(f, 0) for x in ds]
                if d[1] - d[0] >= 5 and d[2] - d[1] >= 2 * (d[1] - d[0]) - 2 and f not in got:
                    m, item = mk(ks[-1])
                    got[f] = (what, (m.show(item) if hasattr(m, "show") else str(item))[:80], d)
        if len(got) == len(rec):
            break
    for c in cs:
        hit = [f for f in c if f in got]
        if hit:
            f = hit[0]
            what, item, d = got[f]
            r.bad("stack", "%s calls itself once per element of its input: %s activations at once for %s %s (`%s`), so a long enough source exhausts the call stack" % (
                local[f].name, "/".join(map(str, d)), "/".join(map(str, ks)), what, item), ctx.where(local[f]), {"activations": dict(zip(map(str, ks), d))})
        else:
            r.open("recursive functions: %s" % ", ".join(local[f].name for f in c), ctx.where(local[c[0]]))
    return r
