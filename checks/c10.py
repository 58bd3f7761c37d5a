"""Every undirected graph on 4 places (5 in thorough) with every placement of a marker, several road lengths, kinds
and orders of creation: after each time step the routes every settlement holds against a brute-force best route
per reachable destination, computed from the attractiveness of that step.  Histories with type changes, closures
and reopenings between steps; agents' first roads; major routes."""
from itertools import combinations, permutations, product
from mc import world as w
from mc.chance import distribution
from checks.c05 import oracle

BASE = {"camp": 4.0, "idpcamp": 4.0, "town": 1.0, "conflict_zone": 0.25, "forwarding_hub": 1.0, "marker": 1.0}
MR = dict(camp_weight=4.0, conflict_weight=0.25, foreign_weight=1.0, fixed_routes=True, camp_movechance=0.01,
          idpcamp_movechance=0.01)


def best(adj, dist, kinds, origin, aware, ws, ds, dp, wp, flood=None):
    """destination -> (weight, set of best paths)"""
    markers = {n for n, k in kinds.items() if k == "marker"}
    out = {}
    for p in oracle(adj, origin, markers, aware):
        d = sum(dist[p[i], p[i + 1]] for i in range(len(p) - 1))
        s = BASE[kinds[p[-1]]]
        if flood:
            s *= flood.get(p[-1], 1.0)
        x = ((ws + s) / (ds + d) ** dp) ** wp
        if x <= 0:
            continue
        o = out.setdefault(p[-1], [0.0, set()])
        if x > o[0] * (1 + 1e-12):
            o[0], o[1] = x, {p[1:]}
        elif x >= o[0] * (1 - 1e-12):
            o[1].add(p[1:])
    return out


def compare(ctx, e, adj, dist, kinds, aware, prm, what, flood=None):
    for l in e.locations:
        if kinds[l.name] == "marker":
            continue
        want = best(adj, dist, kinds, l.name, aware, *prm, flood=flood)
        got = l.routes
        if set(got) != set(want):
            ctx.fail("%s: %s holds routes to %r, expected %r" % (what, l.name, sorted(got), sorted(want)))
        for d, r in got.items():
            if tuple(r[1]) not in want[d][1]:
                ctx.fail("%s: %s -> %s uses %r, best is %r" % (what, l.name, d, r[1], sorted(want[d][1])))
            if abs(r[0] - want[d][0]) > 1e-9 * want[d][0]:
                ctx.fail("%s: route %s -> %s has weight %r, expected %r" % (what, l.name, d, r[0], want[d][0]))
            if r[2].name != d:
                ctx.fail("%s: route %s -> %s ends at %s" % (what, l.name, d, r[2].name))


def net(edges, lens):
    adj, dist = {}, {}
    for (a, b), d in zip(edges, lens):
        adj.setdefault(a, []).append(b)
        adj.setdefault(b, []).append(a)
        dist[a, b] = dist[b, a] = d
    return adj, dist


def graph(ctx, names, edges, lens, kinds, aware, prm, order, flood=None):
    m = w.mods()
    ws, ds, dp, wp = prm
    rules = dict(flood_rules=dict(flood_movechances=[0.0, 0.5, 1.0], flood_loc_weights=[1.0, 0.5, 0.125])) if flood else {}
    w.settings(move_rules=dict(MR, awareness_level=aware, weight_softening=ws, softening=ds, distance_power=dp, weight_power=wp, **rules))
    adj, dist = net(edges, lens)
    for n in names:
        adj.setdefault(n, [])
    e = w.build([dict(name=n, location_type=kinds[n]) for n in order], [(a, b, d) for (a, b), d in zip(edges, lens)])
    for levels in flood or ({},):
        for n, x in levels.items():
            w.loc(e, n).attributes["flood_level"] = x
        e.evolve()
        compare(ctx, e, adj, dist, kinds, aware, prm, "roads %r lengths %r kinds %r awareness %d order %s flood levels %r"
                % (edges, lens, kinds, aware, order, levels), flood={n: (1.0, 0.5, 0.125)[x] for n, x in levels.items()})
        ctx.transitions += 1
        ctx.state((edges, lens, sorted(kinds.items()), aware, prm, order, str(levels)))


def history(ctx, names, edges, lens, kinds, aware, ops, order):
    """Changes between steps must show in the next step's routes."""
    m = w.mods()
    prm = (0.0, 10.0, 1.0, 1.0)
    w.settings(move_rules=dict(MR, awareness_level=aware, softening=10.0, weight_softening=0.0))
    kinds = dict(kinds)
    open_ = list(edges)
    e = w.build([dict(name=n, location_type=kinds[n]) for n in order], [(a, b, d) for (a, b), d in zip(edges, lens)])
    L = dict(zip(edges, lens))
    for op in ops:
        if op[0] == "type":
            e.change_location_type(op[1], op[2])
            kinds[op[1]] = op[2]
        elif op[0] == "close":
            e.close_link(*op[1])
            open_ = [x for x in open_ if x != op[1]]
        elif op[0] == "reopen":
            e.reopen_link(*op[1])
            if op[1] not in open_:
                open_.append(op[1])
        e.evolve()
        adj, dist = net(open_, [L[x] for x in open_])
        for n in names:
            adj.setdefault(n, [])
        compare(ctx, e, adj, dist, kinds, aware, prm, "after %r" % (ops,))
        ctx.transitions += 1
    ctx.traces += 1
    ctx.state((edges, lens, sorted(kinds.items()), aware, ops, order))


def follow(ctx, edges, lens, kinds, aware):
    """An agent that plans at A takes one of A's routes and follows it."""
    m = w.mods()
    w.settings(move_rules=dict(MR, awareness_level=aware, softening=10.0, default_movechance=1.0, camp_movechance=0.0))
    names = ("Kab", "Ka", "KabKa", "KaKab")
    adj, dist = net(edges, lens)
    for n in names:
        adj.setdefault(n, [])
    want = best(adj, dist, kinds, "Kab", aware, 0.0, 10.0, 1.0, 1.0)
    paths = {q for d, (x, ps) in want.items() for q in ps}

    def go():
        e = w.build([dict(name=n, location_type=kinds[n]) for n in names], [(a, b, d) for (a, b), d in zip(edges, lens)])
        a = w.add(e, "Kab")
        e.evolve()
        return a.location.name, tuple(a.route), {d: tuple(r[1]) for d, r in w.loc(e, "Kab").routes.items()}
    held = None
    got, ex = distribution(go, key=lambda r: (r[0], r[1], tuple(sorted(r[2].items()))))
    ctx.transitions += ex.paths
    ctx.traces += 1
    ctx.state(("follow", edges, lens, sorted(kinds.items()), aware))
    for (pl, rest, routes), p in got.items():
        if not want:
            ctx.expect(pl == "Kab", "without routes the agent should stay, is at %s", pl)
            continue
        ctx.expect(pl.startswith("L:Kab:"), "agent stays at %s although routes exist: %r", pl, routes)
        full = (pl.split(":")[2],) + rest
        ctx.expect(full in {r for d, r in routes} and full in paths, "agent takes %r; held routes are %r", full, routes)
    if want:
        taken = {(pl.split(":")[2],) + rest for (pl, rest, routes) in got}
        ctx.expect(len(taken) == len(want), "routes taken %r do not cover the destinations %r", sorted(taken), sorted(want))


def major(ctx, kinds, aware, mr, lens, hub="Kab"):
    """A - B - D - E and A - C - D; major route from A or from its neighbour."""
    m = w.mods()
    prm = (0.0, 10.0, 1.0, 1.0)
    w.settings(move_rules=dict(MR, awareness_level=aware, softening=10.0))
    edges = (("Kab", "Ka"), ("Kab", "KabKa"), ("Ka", "KaKab"), ("KabKa", "KaKab"), ("KaKab", "KaKa"))
    adj, dist = net(edges, lens)
    e = w.build([dict(name=n, location_type=kinds[n]) for n in ("Kab", "Ka", "KabKa", "KaKab", "KaKa")], [(a, b, d) for (a, b), d in zip(edges, lens)])
    w.loc(e, hub).major_routes.append(list(mr))
    if hub != "Kab":
        mr = (hub,) + tuple(mr)
    e.evolve()
    ctx.transitions += 1
    ctx.state(("major", sorted(kinds.items()), aware, mr, lens))
    for l in e.locations:
        want = best(adj, dist, kinds, l.name, aware, *prm)
        got = l.routes
        for d in want:
            ctx.expect(d in got, "%s lost its route to %s", l.name, d)
            if tuple(got[d][1]) not in want[d][1]:
                ctx.fail("regular route %s -> %s changed to %r" % (l.name, d, got[d][1]))
        extra = set(got) - set(want)
        if l.name == "Kab":
            exp = {mr[-1]} - set(want)
            ctx.eq(extra, exp, "destinations added at A by major route %r" % (mr,))
            for d in exp:
                p = ("Kab",) + tuple(mr)
                dd = (10.0 + sum(dist[p[i], p[i + 1]] for i in range(len(p) - 1))) / 4.0
                ctx.close(got[d][0], BASE[kinds[d]] / dd, "weight of major route")
                if tuple(got[d][1]) != tuple(mr):
                    known = tuple(got[d][1]) == tuple(mr[1:])
                    ctx.fail("major route A -> %s is held as %r, not %r" % (d, got[d][1], mr),
                             "major route lacks its first waypoint" if known else None)


def check(ctx):
    items = []
    K4 = list(combinations(("Kab", "Ka", "KabKa", "KaKab"), 2))
    lensets = ((100.0, 250.0, 120.0, 80.0, 300.0, 90.0), (100.0,) * 6, (500.0, 60.0, 70.0, 400.0, 50.0, 30.0))
    kindsets = []
    for k in (("town", "camp", "conflict_zone", "town"), ("town", "marker", "camp", "town"), ("conflict_zone", "marker", "marker", "camp"),
              ("camp", "town", "town", "marker")):
        kindsets.append(dict(zip(("Kab", "Ka", "KabKa", "KaKab"), k)))
    prms = ((0.0, 10.0, 1.0, 1.0), (0.5, 0.0, 2.0, 0.5), (0.0, 100.0, 0.5, 2.0))
    for code in range(64):
        edges = tuple(x for i, x in enumerate(K4) if code >> i & 1)
        for lens in lensets:
            ln = lens[:len(edges)]
            for kinds in kindsets:
                for aware in (1, 2, 3) + ((4,) if ctx.thorough else ()):
                    for prm in prms:
                        items.append((("graph", edges, ln, tuple(kinds.values()), aware, prm), graph, ("Kab", "Ka", "KabKa", "KaKab"), edges, ln, kinds,
                                      aware, prm, ("Kab", "Ka", "KabKa", "KaKab")))
                    for order in (permutations(("Kab", "Ka", "KabKa", "KaKab")) if ctx.thorough else (("KaKab", "KabKa", "Ka", "Kab"), ("Ka", "Kab", "KaKab", "KabKa"), ("KabKa", "KaKab", "Kab", "Ka"))):
                        order = tuple(order)
                        items.append((("order", edges, ln, tuple(kinds.values()), aware, order), graph, ("Kab", "Ka", "KabKa", "KaKab"), edges, ln, kinds,
                                      aware, prms[0], order))
    if ctx.thorough:
        K5 = list(combinations(("Kab", "Ka", "KabKa", "KaKab", "KaKa"), 2))
        l5 = (100.0, 250.0, 120.0, 80.0, 300.0, 90.0, 75.0, 410.0, 66.0, 133.0)
        for code in range(1024):
            edges = tuple(x for i, x in enumerate(K5) if code >> i & 1)
            ln = tuple(l for i, l in enumerate(l5) if code >> i & 1)
            for k in (("town", "marker", "camp", "town", "town"), ("town", "camp", "marker", "conflict_zone", "marker"),
                      ("camp", "town", "conflict_zone", "camp", "town")):
                for aware in (1, 2, 3):
                    items.append((("graph5", edges, k, aware), graph, ("Kab", "Ka", "KabKa", "KaKab", "KaKa"), edges, ln, dict(zip(("Kab", "Ka", "KabKa", "KaKab", "KaKa"), k)), aware, prms[0],
                                  ("KaKa", "Ka", "KaKab", "Kab", "KabKa")))
    # long chains, trees and rings: routes of up to six roads and every awareness level up to seven
    N7 = ("Kab", "Ka", "KabKa", "KaKab", "KaKa", "KabKab", "Kabul")
    chain = tuple(zip(N7, N7[1:]))
    for tag, edges in (("chain", chain), ("ring", chain + ((N7[0], N7[6]),)), ("ladder", chain + ((N7[0], N7[3]), (N7[2], N7[6]))),
                       ("tree", ((N7[0], N7[1]), (N7[0], N7[2]), (N7[1], N7[3]), (N7[1], N7[4]), (N7[4], N7[5]), (N7[5], N7[6])))):
        for lens in ((100.0,) * 9, (100.0, 30.0, 250.0, 45.0, 170.0, 80.0, 900.0, 60.0, 310.0)):
            for k in (("town",) * 7, ("conflict_zone", "town", "town", "town", "town", "town", "camp"), ("town", "marker", "town", "marker", "marker", "town", "camp"),
                      ("camp", "town", "conflict_zone", "town", "camp", "marker", "town")):
                for aware in range(8 if ctx.thorough else 7):
                    if not aware:
                        continue
                    for order in (N7, N7[::-1]):
                        items.append((("long", tag, lens[:len(edges)], k, aware, order), graph, N7, edges, lens[:len(edges)], dict(zip(N7, k)), aware, prms[0], order))
    for code in range(64):
        edges = tuple(x for i, x in enumerate(K4) if code >> i & 1)
        for kinds in kindsets:
            for aware in (1, 2, 3):
                for flood in (({"Kab": 1, "Ka": 2, "KabKa": 0, "KaKab": 1}, {"Kab": 0, "Ka": 0, "KabKa": 2, "KaKab": 2}), ({"Ka": 2}, {"Ka": 1}, {"Ka": 0, "KabKa": 1})):
                    items.append((("flood", edges, tuple(kinds.values()), aware, str(flood)), graph, ("Kab", "Ka", "KabKa", "KaKab"), edges, lensets[0][:len(edges)], kinds, aware, prms[0],
                                  ("Kab", "Ka", "KabKa", "KaKab"), flood))
    ring = (("Kab", "Ka"), ("Ka", "KabKa"), ("KabKa", "KaKab"), ("Kab", "KaKab"), ("Kab", "KabKa"))
    for lens in ((100.0, 100.0, 150.0, 320.0, 260.0), (50.0, 300.0, 40.0, 90.0, 500.0)):
        alph = [("type", "KabKa", "camp"), ("type", "KabKa", "town"), ("type", "Ka", "conflict_zone"), ("type", "Ka", "marker"), ("type", "Ka", "town"),
                ("close", ("Kab", "Ka")), ("reopen", ("Kab", "Ka")), ("close", ("KabKa", "KaKab"))]
        for ops in product(alph, repeat=3 if not ctx.thorough else 4):
            for aware in (2,):
                for order in (("Kab", "Ka", "KabKa", "KaKab"), ("KaKab", "KabKa", "Ka", "Kab")):
                    items.append((("history", lens, ops, order), history, ("Kab", "Ka", "KabKa", "KaKab"), ring, lens, dict(zip(("Kab", "Ka", "KabKa", "KaKab"), ("town", "town", "camp", "town"))),
                                  aware, ops, order))
    for code in range(64):
        edges = tuple(x for i, x in enumerate(K4) if code >> i & 1)
        ln = tuple(1000 + x for x in lensets[0][:len(edges)])
        for kinds in kindsets[:2]:
            kinds = {n: ("camp" if n != "Kab" and k == "town" else k) for n, k in kinds.items()}
            for aware in (1, 2, 3):
                items.append((("follow", edges, ln, tuple(kinds.values()), aware), follow, edges, ln, kinds, aware))
    for aware in (1, 2, 3):
        for mr in (("Ka", "KaKab", "KaKa"), ("KabKa", "KaKab", "KaKa"), ("Ka", "KaKab"), ("Ka",)):
            for lens in ((100.0, 200.0, 100.0, 100.0, 100.0), (300.0, 50.0, 500.0, 100.0, 20.0)):
                for k in ("town", "camp"):
                    items.append((("major", aware, mr, lens, k), major, dict(zip(("Kab", "Ka", "KabKa", "KaKab", "KaKa"), ("town", "town", "camp", "town", k))),
                                  aware, mr, lens))

    for aware in (1, 2, 3):
        for hub, mr in (("Ka", ("KaKab", "KaKa")), ("KabKa", ("KaKab", "KaKa")), ("KabKa", ("KaKab",))):
            for lens in ((100.0, 200.0, 100.0, 100.0, 100.0), (100.0, 50.0, 500.0, 100.0, 20.0)):
                items.append((("major", aware, hub, mr, lens), major, dict(zip(("Kab", "Ka", "KabKa", "KaKab", "KaKa"), ("town", "town", "camp", "town", "camp"))),
                              aware, mr, lens, hub))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(places=5 if ctx.thorough else 4, awareness=4 if ctx.thorough else 3, history=4 if ctx.thorough else 3)
