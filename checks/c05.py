"""Every directed graph on up to 4 labelled places (5 undirected in thorough), every marker placement,
every awareness level: the candidate routes of the real code are compared, as a multiset, with an
independent enumeration of loop-free road sequences.  Awareness zero by exact outcome distribution."""
from collections import Counter
from itertools import combinations, product
from mc import world as w
from mc.chance import distribution, Explorer


def oracle(adj, origin, markers, aware):
    """adj: place -> list of endpoints (one entry per open road). Multiset of name sequences."""
    out = Counter()
    stack = [((origin,), 0)]
    while stack:
        path, used = stack.pop()
        for b in adj[path[-1]]:
            if b in path:
                continue
            u = used + (b not in markers)
            if u > aware:
                continue
            p = path + (b,)
            if b not in markers:
                out[p] += 1
            # further places may only follow while awareness allows another settlement
            if b in markers or u < aware:
                stack.append((p, u))
    return out


def real(m, a):
    ws, rs = m.moving.selectRoute(a, time=0, return_all_routes=True)
    return ws, Counter(tuple(r) for r in rs)


def setup(n, markers, mult=1):
    m = w.mods()
    names = ("Kab", "Ka", "KabKa", "KaKab", "KaKa")[:n]
    locs = [dict(name=x, location_type="marker" if x in markers else ("conflict_zone" if x == "Kab" else
                                                                      ("camp" if x == "KabKa" else "town"))) for x in names]
    e = w.build(locs, [])
    for x, y in combinations(names, 2):
        for i in range(mult):
            e.linkUp(x, y, 10.0 + 7 * i)
    a = w.add(e, "Kab")
    L = {(k.startpoint.name, k.endpoint.name, i): k for l in e.locations
         for j, k in enumerate(l.links) for i in [sum(1 for q in l.links[:j] if q.endpoint is k.endpoint)]}
    return m, e, a, names, L


def digraphs(ctx, n, markers, awares, undirected=False, mult=1, part=(0, 1)):
    w.settings()
    m, e, a, names, L = setup(n, markers, mult)
    if undirected:
        units = [[(x, y, 0), (y, x, 0)] for x, y in combinations(names, 2)]
    else:
        # roads back into the origin matter only as loops; keep them all
        units = [[k] for k in sorted(L)]
    S = m.S
    for code in range(part[0], 2 ** len(units), part[1]):
        adj = {x: [] for x in names}
        lst = {x: [] for x in names}
        for i, u in enumerate(units):
            if code >> i & 1:
                for k in u:
                    adj[k[0]].append(k[1])
                    lst[k[0]].append(L[k])
        for l in e.locations:
            l.links = lst[l.name]
        for aware in awares:
            S.move_rules["AwarenessLevel"] = aware
            want = oracle(adj, "Kab", markers, aware)
            ws, got = real(m, a)
            ctx.transitions += 1
            ctx.nstates += 1
            if got != want:
                ctx.fail("roads %r, markers %r, awareness %d: routes %r, expected %r"
                         % ({k: v for k, v in adj.items() if v}, markers, aware, sorted(got.elements()), sorted(want.elements())))
            ctx.expect(len(ws) == sum(got.values()), "%d weights for %d routes", len(ws), sum(got.values()))
    ctx.traces += 1


def long(ctx, edges, markers, aware):
    """Seven places, up to six roads deep; from every place."""
    w.settings()
    m = w.mods()
    m.S.move_rules["AwarenessLevel"] = aware
    names = ("Kab", "Ka", "KabKa", "KaKab", "KaKa", "KabKab", "Kabul")
    adj = {x: [] for x in names}
    for x, y in edges:
        adj[x].append(y)
        adj[y].append(x)
    e = w.build([dict(name=x, location_type="marker" if x in markers else "town") for x in names], [(x, y, 10.0) for x, y in edges])
    for o in names:
        if o in markers:
            continue
        a = w.add(e, o)
        want = oracle(adj, o, markers, aware)
        ws, got = real(m, a)
        ctx.transitions += 1
        ctx.state(("long", edges, markers, aware, o))
        if got != want:
            ctx.fail("roads %r, markers %r, awareness %d, from %s: routes %r, expected %r" % (edges, markers, aware, o, sorted(got.elements()), sorted(want.elements())))
        ctx.expect(len(ws) == sum(got.values()), "%d weights for %d routes", len(ws), sum(got.values()))
    ctx.traces += 1


def closed(ctx, markers, part):
    """Every open/closed/absent state of the roads of a triangle, closed through the real API."""
    w.settings()
    m = w.mods()
    names = ("Kab", "Ka", "KabKa")
    pairs = [(x, y) for x in names for y in names if x != y]
    for i, st in enumerate(product((0, 1, 2), repeat=len(pairs))):
        if i % part[1] != part[0]:
            continue
        m, e, a, _, L = setup(3, markers)
        adj = {x: [] for x in names}
        for l in e.locations:
            l.links = [k for k in l.links if st[pairs.index((l.name, k.endpoint.name))] > 0]
        for (x, y), s in zip(pairs, st):
            if s == 1:
                adj[x].append(y)
            elif s == 2:
                e.close_link(w.fresh(x), w.fresh(y), twoway=False)
        for aware in (1, 2, 3):
            m.S.move_rules["AwarenessLevel"] = aware
            want = oracle(adj, "Kab", markers, aware)
            ws, got = real(m, a)
            ctx.transitions += 1
            ctx.state(("closed", markers, st, aware))
            if got != want:
                ctx.fail("roads %r, markers %r, awareness %d: routes %r, expected %r"
                         % (adj, markers, aware, sorted(got.elements()), sorted(want.elements())))


def chosen(ctx, n, markers, aware, part):
    """What an agent actually takes: exactly the candidates (minus the origin), never a marker at the end."""
    w.settings()
    m, e, a, names, L = setup(n, markers)
    m.S.move_rules["AwarenessLevel"] = aware
    units = [[(x, y, 0), (y, x, 0)] for x, y in combinations(names, 2)]
    for code in range(part[0], 2 ** len(units), part[1]):
        adj = {x: [] for x in names}
        lst = {x: [] for x in names}
        for i, u in enumerate(units):
            if code >> i & 1:
                for k in u:
                    adj[k[0]].append(k[1])
                    lst[k[0]].append(L[k])
        for l in e.locations:
            l.links = lst[l.name]
        ex = Explorer()
        got = set()
        for p, r, _ in ex.explore(lambda: m.moving.selectRoute(a, time=0)):
            got.add(tuple(r) if r is not None else None)
        want = {p[1:] for p in oracle(adj, "Kab", markers, aware)} or {None}
        ctx.transitions += ex.paths
        ctx.nstates += 1
        if got != want:
            ctx.fail("roads %r, markers %r, awareness %d: agent takes one of %r, expected one of %r"
                     % (adj, markers, aware, got, want))


def road_only(ctx, ends, markers, days):
    """Awareness zero: uniformly one of the adjacent roads."""
    w.settings(move_rules=dict(awareness_level=0, camp_weight=100.0))
    m = w.mods()
    names = sorted(set(ends))

    def go():
        e = w.build([dict(name="Kab", location_type="conflict_zone")] +
                    [dict(name=x, location_type="marker" if x in markers else "camp") for x in names],
                    [("Kab", x, 1000 * (1 + i)) for i, x in enumerate(ends)])
        a = w.add(e, "Kab")
        for _ in range(days):
            e.evolve()
        return a.location.name
    got, ex = distribution(go)
    want = {}
    for x in ends:
        want["L:Kab:" + x] = want.get("L:Kab:" + x, 0) + 1.0 / len(ends)
    if not ends:
        want = {"Kab": 1.0}
    ctx.transitions += ex.paths
    ctx.traces += ex.paths
    ctx.state((ends, markers))
    ctx.same_dist(got, want, "roads to %r, markers %r" % (ends, markers))


def check(ctx):
    items = []
    for n in (2, 3, 4):
        others = ("Ka", "KabKa", "KaKab", "KaKa")[: n - 1]
        for r in range(len(others) + 1):
            for mk in combinations(others, r):
                parts = 8 if n == 4 else 1
                for p in range(parts):
                    items.append(("digraphs %d %s %d" % (n, "".join(mk), p), digraphs, n, mk,
                                  tuple(range(1, n + 1)), False, 1, (p, parts)))
    if ctx.thorough:
        for r in range(5):
            for mk in combinations(("Ka", "KabKa", "KaKab", "KaKa"), r):
                items.append(("graphs 5 %s" % "".join(mk), digraphs, 5, mk, (1, 2, 3, 4), True))
        for mk in ((), ("Ka",), ("Ka", "KaKab")):
            for p in range(32):
                items.append(("digraphs 5 %s %d" % (mk, p), digraphs, 5, mk, (2, 3, 4), False, 1, (p, 32)))
        for mk in ((), ("Ka",)):
            for p in range(8):
                items.append(("multi 3 %s %d" % (mk, p), digraphs, 3, mk, (1, 2, 3), False, 2, (p, 8)))
    else:
        for mk in ((), ("Ka",)):
            items.append(("multi 3 %s" % (mk,), digraphs, 3, mk, (1, 2), False, 2, (0, 8)))
    for mk in ((), ("Ka",), ("KabKa",)):
        for p in range(2 if not ctx.thorough else 1):
            items.append(("closed %s %d" % (mk, p), closed, mk, (p, 2 if not ctx.thorough else 1)))
    for mk in ((), ("Ka",), ("Ka", "KabKa"), ("KaKab",)):
        for aw in (1, 2, 3):
            items.append(("chosen %s %d" % (mk, aw), chosen, 4, mk, aw, (0, 1)))
    N7 = ("Kab", "Ka", "KabKa", "KaKab", "KaKa", "KabKab", "Kabul")
    chain = tuple(zip(N7, N7[1:]))
    for tag, edges in (("chain", chain), ("reverse", tuple((N7[6 - i], N7[5 - i]) for i in range(6))), ("ring", chain + ((N7[0], N7[6]),)), ("ladder", chain + ((N7[0], N7[3]), (N7[2], N7[6]))),
                       ("tree", ((N7[0], N7[1]), (N7[0], N7[2]), (N7[1], N7[3]), (N7[1], N7[4]), (N7[4], N7[5]), (N7[5], N7[6]))),
                       ("five", ((N7[0], N7[1]), (N7[1], N7[2]), (N7[2], N7[3]), (N7[3], N7[4]), (N7[4], N7[0]), (N7[4], N7[5]), (N7[5], N7[6])))):
        for mk in [c for r in range(4) for c in combinations(N7, r)]:
            if len(mk) == 3 and not ctx.thorough and mk[1] != "KaKab":
                continue
            for aw in range(1, 8):
                items.append(("long %s %s %d" % (tag, " ".join(mk), aw), long, edges, mk, aw))
    for ends in ((), ("Ka",), ("Ka", "KabKa"), ("Ka", "KabKa", "KaKab"), ("Ka", "Ka", "KabKa"), ("Ka", "KabKa", "KaKab", "KaKa")):
        for mk in ((), ("Ka",)):
            for days in (1, 2):
                items.append(("road only %s %s %d" % (ends, mk, days), road_only, ends, mk, days))
    ctx.cases(items)
    ctx.bounds = dict(directed_graph_nodes=4, undirected_graph_nodes=5 if ctx.thorough else 4, awareness=4)
