"""Every random outcome of small histories of agents added on different days who travel through and into camps (with camp
closures and reopenings, one and more processes): the recorded arrivals and journey times of every step against a monitor
that only follows where the agents are."""
from itertools import combinations_with_replacement as cwr, product
from mc import world as w, fakempi
from mc.chance import Explorer
from checks.c26 import where

LAYOUTS = {
    # one-way trees: [(from, to, km)]
    "two camps in a row": ([("Kab", "conflict_zone"), ("KabKa", "camp"), ("Ka", "town"), ("KaKab", "camp")], [("Kab", "KabKa", 100.0), ("KabKa", "Ka", 70.0), ("Ka", "KaKab", 110.0)]),
    "far camps": ([("Kab", "conflict_zone"), ("Ka", "town"), ("KabKa", "camp"), ("KaKab", "idpcamp")], [("Kab", "Ka", 500.0), ("Ka", "KabKa", 410.0), ("Kab", "KaKab", 800.0)]),
    "camp behind camp": ([("Kab", "conflict_zone"), ("KabKa", "idpcamp"), ("KaKab", "camp")], [("Kab", "KabKa", 250.0), ("KabKa", "KaKab", 90.0)]),
    "no camp": ([("Kab", "conflict_zone"), ("Ka", "town")], [("Kab", "Ka", 100.0)]),
}
CAMPS = {"KabKa": True, "KaKab": True}


def done(roads, old, new):
    """Roads completed going from one place of the tree to another."""
    par = {b: a for a, b, _ in roads}
    if new == old:
        return []
    end = new[0] if isinstance(new, tuple) else new
    stop = old[1] if isinstance(old, tuple) else old
    mid = []
    while end != stop:
        mid.append((par[end], end))
        end = par[end]
    return ([old] if isinstance(old, tuple) else []) + mid[::-1]


def run(ctx, what, layout, adds, closures, size, days, log, town):
    places, roads = LAYOUTS[layout]
    yml = dict(log_levels=dict(camp=log), move_rules=dict(conflict_movechance=1.0, default_movechance=town, camp_movechance=0.5, idpcamp_movechance=0.5, max_move_speed=360.0))
    W = fakempi.World(size) if size > 1 else None
    (W.settings if W else w.settings)(**yml)
    locs = [dict(name=n, location_type=t) for n, t in places]
    links = [(a, b, d, {"oneway": True}) for a, b, d in roads]

    def go():
        ecos = W.build(locs, links) if W else [w.build(locs, links)]
        for e in ecos:
            e.closures = [list(c) for c in closures]
        born, old = {}, {}
        want = []
        for t in range(days):
            if W:
                W.run(lambda e: e.enact_border_closures(t))
            else:
                ecos[0].enact_border_closures(t)
            for day, name in adds:
                if day == t:
                    if W:
                        W.run(lambda e: e.addAgent(w.loc(e, name), {}))
                    else:
                        ecos[0].addAgent(w.loc(ecos[0], name), {})
            for r, e in enumerate(ecos):
                for k, a in enumerate(e.agents):
                    if (r, k) not in born:
                        born[r, k], old[r, k] = t, where(a)
            camps = {l.name for l in ecos[0].locations if l.camp}
            if W:
                W.evolve()
            else:
                ecos[0].evolve()
            j = []
            for r, e in enumerate(ecos):
                for k, a in enumerate(e.agents):
                    new = where(a)
                    j += [t - born[r, k] for _, b in done(roads, old[r, k], new) if b in camps]
                    old[r, k] = new
            want.append(j)
            ctx.transitions += 1
            if log:
                n = [e.num_arrivals for e in ecos]
                d = [e.travel_durations for e in ecos]
                if any(len(x) != t + 1 for x in n + d):
                    ctx.fail("%s: after step %d there are %r entries" % (what, t, [len(x) for x in n + d]))
                if sum(x[t] for x in n) != len(j):
                    ctx.fail("%s: step %d records %r arrivals, journey times %r ended in camps" % (what, t, [int(x[t]) for x in n], j))
                if abs(sum(x[t] * y[t] for x, y in zip(n, d)) - sum(j)) > 1e-9:
                    ctx.fail("%s: step %d records average journey times %r, they were %r" % (what, t, [float(y[t]) for y in d], j))
                for x, y in zip(n, d):
                    if x[t] == 0 and y[t] != 0.0:
                        ctx.fail("%s: step %d records the journey time %r without arrivals" % (what, t, y[t]))
        if log:
            for e in ecos:
                if len(e.num_arrivals) != days:
                    ctx.fail("%s: %d entries" % (what, len(e.num_arrivals)))
            tot = [int(sum(e.num_arrivals[t] for e in ecos)) for t in range(days)]
            if tot != [len(x) for x in want]:
                ctx.fail("%s: recorded arrivals changed later: %r, were %r" % (what, tot, want))
        return tuple(map(tuple, want))
    for p, res, tr in Explorer().explore(go):
        ctx.state((what, res, tuple(tr)))
        ctx.traces += 1


def check(ctx):
    items = []
    closures = [[], [["camp", "KabKa", "", 1, 2]], [["idpcamp", "KaKab", "", 0, 2]], [["camp", "KaKab", "", 2, -1], ["camp", "KabKa", "", 1, 3]]]
    for layout, sc, size in product(LAYOUTS, closures, (1, 2, 3) if ctx.thorough else (1, 2)):
        names = [n for n, t in LAYOUTS[layout][0]]
        if sc and any(c[1] not in names for c in sc):
            continue
        spots = [(d, n) for d in range(3) for n in names]
        for k in (0, 1, 2, 3):
            for adds in cwr(spots, k):
                if k == 2 and (adds[0][1] != "Kab" or adds[1][1] == "Ka"):
                    continue
                if k == 3 and not (ctx.thorough and all(n == "Kab" for _, n in adds) or adds in (((0, "Kab"),) * 3, ((0, "Kab"), (0, "Kab"), (1, "Kab")))):
                    continue
                if size > 1 and k < 2:
                    continue
                town = 0.5 if k < 2 else 1.0
                days = 5 if k < 2 else 4 if k == 2 and (ctx.thorough or size == 1) else 3
                what = "%s, agents %r, closures %r, %d process(es)" % (layout, adds, sc, size)
                items.append((what, run, what, layout, adds, sc, size, days, 1, town))
    items.append(("logging off", run, "logging off", "far camps", ((0, "Kab"),), [], 1, 4, 0, 0.5))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(x[0], x[1], c, *x[2:])
    ctx.batches(batch, 64)
    ctx.bounds = dict(layouts=list(LAYOUTS), agents="0..3 added on days 0..2", days="3-5", closures=len(closures))
