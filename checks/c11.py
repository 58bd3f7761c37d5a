"""Breadth-first search over all histories up to the depth bound of closing, reopening and removing roads, locations
and borders (one-way and two-way, parallel and one-way roads, unknown names): after each operation the set of open
and closed roads with their properties against an independent record.  Small networks are searched to the fixpoint,
so that every reachable closure state is covered."""
from mc import world as w
from mc import bfs

COUNTRY = {"Kab": "Su", "Ka": "Su", "KabKa": "Sud", "KaKab": "SudSud"}


class Ref:
    """road id -> open / closed / gone"""

    def __init__(self, roads):
        self.st = {r: "open" for r in roads}


def rid(k):
    return (k.startpoint.name, k.endpoint.name, k.get_distance(), bool(k.forced_redirection), tuple(sorted(k.attributes.items())))


def observe(e):
    op, cl = [], []
    for l in e.locations:
        for k in l.links:
            op.append((l.name, rid(k), bool(k.closed)))
        for k in l.closed_links:
            cl.append((l.name, rid(k), bool(k.closed)))
    return sorted(op, key=repr), sorted(cl, key=repr)


def build(m, roads):
    e = w.build([dict(name=n, location_type="town", country=COUNTRY[n]) for n in sorted({x for r in roads for x in r[:2]})], [])
    for a, b, d, one, red in roads:
        n = len(w.loc(e, b).links)
        e.linkUp(a, b, d, red, {"kind": "%s%s%g" % (a, b, d)})
        if one:
            del w.loc(e, b).links[n:]
    return e


def ops_for(pairs, locs, borders, remove):
    F = w.fresh

    def setter(sel, frm, to):
        def f(ref, s):
            for r in ref.st:
                if sel(r) and ref.st[r] in frm:
                    ref.st[r] = to
        return f

    def pair(a, b, two):
        return lambda r: (r[0], r[1]) == (a, b) or (two and (r[0], r[1]) == (b, a))

    def place(a, two):
        return lambda r: r[1] == a or (two and r[0] == a)

    def border(a, b, two):
        return lambda r: (COUNTRY[r[0]], COUNTRY[r[1]]) == (a, b) or (two and (COUNTRY[r[0]], COUNTRY[r[1]]) == (b, a))
    out = []
    for two in (True, False):
        for a, b in pairs:
            out.append(("close_link %s %s %s" % (a, b, two), lambda e, a=a, b=b, t=two: e.close_link(F(a), F(b), t),
                        setter(pair(a, b, two), ("open",), "closed")))
            out.append(("reopen_link %s %s %s" % (a, b, two), lambda e, a=a, b=b, t=two: e.reopen_link(F(a), F(b), t),
                        setter(pair(a, b, two), ("closed",), "open")))
        for a, b in remove:
            out.append(("remove_link %s %s %s" % (a, b, two), lambda e, a=a, b=b, t=two: e.remove_link(F(a), F(b), t),
                        setter(pair(a, b, two), ("open",), "gone")))
        for a in locs:
            out.append(("close_location %s %s" % (a, two), lambda e, a=a, t=two: e.close_location(F(a), t),
                        setter(place(a, two), ("open",), "closed")))
            out.append(("reopen_location %s %s" % (a, two), lambda e, a=a, t=two: e.reopen_location(F(a), t),
                        setter(place(a, two), ("closed",), "open")))
        for a, b in borders:
            out.append(("close_border %s %s %s" % (a, b, two), lambda e, a=a, b=b, t=two: e.close_border(F(a), F(b), t),
                        setter(border(a, b, two), ("open",), "closed")))
            out.append(("reopen_border %s %s %s" % (a, b, two), lambda e, a=a, b=b, t=two: e.reopen_border(F(a), F(b), t),
                        setter(border(a, b, two), ("closed",), "open")))
    return out


def run(ctx, roads, ops, depth, tag, first=None, hub=None):
    m = w.mods()
    w.settings()
    e = build(m, roads)
    ref = Ref([rid(k) for l in e.locations for k in l.links])
    assert len(ref.st) == sum(len(l.links) for l in e.locations)

    def check(e, ref, hist):
        want_o = sorted([(r[0], r, False) for r, s in ref.st.items() if s == "open"], key=repr)
        want_c = sorted([(r[0], r, True) for r, s in ref.st.items() if s == "closed"], key=repr)
        o, c = observe(e)
        if o != want_o or c != want_c:
            d = [x for x in o if x not in want_o], [x for x in want_o if x not in o], [x for x in c if x not in want_c], \
                [x for x in want_c if x not in c]
            ctx.fail("after %r: wrongly open %r, wrongly not open %r, wrongly closed %r, wrongly not closed %r; open roads %r"
                     % ([h[0] for h in hist], d[0], d[1], d[2], d[3], o))

    def key(s, r):
        # the order of the lists is part of the state of the code
        return tuple((tuple(rid(k) for k in l.links), tuple(rid(k) for k in l.closed_links)) for l in s.locations)
    init = (e, ref)
    if first is not None:
        op = ops[first]
        op[1](e)
        op[2](ref, e)
        check(e, ref, ((op[0], ()),))
        depth -= 1
    n = bfs.search(ctx, init, ops, depth, check, key, tag=tag)
    return n


def misc(ctx):
    """Return values, unknown names, roads between equally named ends, zero-degree places."""
    m = w.mods()
    w.settings()
    roads = (("Kab", "Ka", 10.0, False, False), ("Ka", "KabKa", 20.0, False, True))
    # without the optional arguments, and what the operations report
    F = w.fresh
    both = (("Kab", "Ka"), ("Ka", "Kab"))
    e = build(m, roads)
    ids = {(l.name, k.endpoint.name): rid(k) for l in e.locations for k in l.links}
    for n, (f, args, state, good) in enumerate((
            ("close_link", ("Ka", "Kab"), "closed", True), ("close_link", ("Ka", "Kab"), "closed", False), ("reopen_link", ("Kab", "Ka"), "open", True),
            ("reopen_link", ("Kab", "Ka"), "open", False), ("close_location", ("Kab",), "closed", True), ("reopen_location", ("Kab",), "open", True),
            ("close_border", ("Su", "Su"), "closed", None), ("reopen_border", ("Su", "Su"), "open", None), ("remove_link", ("Ka", "Kab"), "gone", True),
            ("remove_link", ("Ka", "Kab"), "gone", False), ("reopen_link", ("Ka", "Kab"), "gone", False))):
        r = getattr(e, f)(*[F(x) for x in args])
        ctx.transitions += 1
        ctx.state(("default arguments", n))
        o, c = observe(e)
        wo = [(k[0], v, False) for k, v in ids.items() if k not in both or state == "open"]
        wc = [(k[0], v, True) for k, v in ids.items() if k in both and state == "closed"]
        ctx.eq((o, c), (sorted(wo, key=repr), sorted(wc, key=repr)), "%s%r in step %d" % (f, args, n))
        if good is not None and bool(r) != good:
            ctx.fail("%s%r in step %d reports %r although it %s" % (f, args, n, r, "did its work" if good else "had nothing to do"))
    for name in ("nowhere", "ka", "Ka ", "K", ""):
        for f in ("close_link", "reopen_link", "remove_link"):
            for a, b in ((name, "Ka"), ("Ka", name), (name, name)):
                e = build(m, roads)
                before = observe(e)
                if getattr(e, f)(a, b):
                    ctx.fail("%s(%r, %r) reports success" % (f, a, b))
                ctx.transitions += 1
                ctx.eq(observe(e), before, "%s(%r, %r) must change nothing" % (f, a, b))
        for f in ("close_location", "reopen_location"):
            e = build(m, roads)
            before = observe(e)
            if getattr(e, f)(name):
                ctx.fail("%s(%r) reports success" % (f, name))
            ctx.eq(observe(e), before, "%s(%r) must change nothing" % (f, name))
        for f in ("close_border", "reopen_border"):
            e = build(m, roads)
            before = observe(e)
            getattr(e, f)("Su", name)
            getattr(e, f)(name, "Sud")
            ctx.eq(observe(e), before, "%s with unknown country must change nothing" % f)


def check(ctx):
    base = (("Kab", "Ka", 10.0, False, False), ("Ka", "KabKa", 20.0, False, True), ("Ka", "KabKa", 30.0, False, False),
            ("Kab", "KabKa", 40.0, False, False))
    full = base + (("KabKa", "KaKab", 50.0, False, False), ("KaKab", "Kab", 60.0, True, False))
    small = (("Kab", "Ka", 10.0, False, True), ("Ka", "KabKa", 20.0, False, False))
    opsA = ops_for([("Kab", "Ka"), ("Ka", "KabKa"), ("KabKa", "Ka")], ["Kab", "Ka", "KabKa"], [("Su", "Sud"), ("Sud", "Su"), ("Su", "Su")], [("Kab", "Ka"), ("Ka", "KabKa")])
    opsF = ops_for([("Kab", "Ka"), ("Ka", "KabKa"), ("KaKab", "Kab"), ("Kab", "KaKab")], ["Kab", "KabKa", "KaKab"], [("Su", "Sud"), ("Sud", "SudSud"), ("SudSud", "Su")], [("Ka", "KabKa")])
    items = [("fixpoint small", lambda c: run(c, small, opsA, 40, "small"))]
    D = 5 if ctx.thorough else 4
    for i in range(len(opsA)):
        items.append(("base first=%s" % opsA[i][0], lambda c, i=i: run(c, base, opsA, D, "base%d" % i, i)))
    for i in range(len(opsF)):
        items.append(("full first=%s" % opsF[i][0], lambda c, i=i: run(c, full, opsF, D - 1, "full%d" % i, i)))
    items.append(("unknown names", misc))
    ctx.cases(items)
    ctx.bounds = dict(history_depth=D, small_network="fixpoint (all histories of any length)", roads=len(full))
