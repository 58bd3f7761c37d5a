"""Every (capacity, scaling, buffer, occupancy) of the grid: the factor by which occupancy changes a route's
weight against the documented piecewise-linear factor, and its monotony.  Exact distributions of the roads
taken when destinations are full, by agents planning afresh (own and location-generated routes).  Agents under
way at every combination of camp occupancy and steps left: exact outcome at each settlement on the way."""
from itertools import product
from mc import world as w
from mc.chance import distribution, Explorer
from checks.c06 import capf


def still(e):
    """Towns whose residents do not leave (a declared move chance of zero would make them camps)."""
    for l in e.locations:
        if l.town:
            l.movechance = 0.0
    return e


def factor(ctx, part, parts):
    m = w.mods()
    grid = list(product(("camp", "town", "idpcamp", "conflict_zone"), (-1, 0, 1, 2, 7, 10), (0.1, 0.5, 1.0, 1.5, 3.0),
                        (0.0, 0.5, 0.75, 0.9, 0.99, 1.0)))
    for i, (kind, cap, scale, buf) in enumerate(grid):
        if i % parts != part:
            continue
        ctx.case("factor %s %s %s %s" % (kind, cap, scale, buf), factor1, ctx, m, kind, cap, scale, buf)


def factor1(ctx, m, kind, cap, scale, buf):
    w.settings(move_rules=dict(awareness_level=1, capacity_buffer=buf, capacity_scaling=scale, softening=0.0))
    top = max(3, int(max(cap, 0) * scale) + 3)
    prev = None
    e = w.build([dict(name="Kab", location_type="town"), dict(name="Ka", location_type=kind, capacity=cap)], [("Kab", "Ka", 300)])
    a = w.add(e, "Kab")
    base = None
    for n in range(top + 1):
        if n:
            w.add(e, "Ka")
        ws, rs = m.moving.selectRoute(a, time=0, return_all_routes=True)
        ctx.transitions += 1
        ctx.state((kind, cap, scale, buf, n))
        if len(ws) != 1:
            ctx.fail("%d routes on a single road" % len(ws))
        if base is None:
            base = ws[0]
        if base <= 0:
            ctx.fail("an empty place has weight %r (capacity %r scaling %r buffer %r)" % (base, cap, scale, buf))
        want = capf(n, cap, scale, buf)
        ctx.close(ws[0] / base, want, "factor at %d agents, capacity %r, scaling %r, buffer %r" % (n, cap, scale, buf))
        if prev is not None and ws[0] > prev + 1e-12:
            ctx.fail("more attractive when fuller: %r -> %r at %d agents (capacity %r)" % (prev, ws[0], n, cap))
        prev = ws[0]
    ctx.traces += 1


def plan(ctx, fixed, aware, occ, caps, kinds):
    """A - B - C, A - C, A - D ; occupancy around capacity; the first road and route a new agent picks."""
    m = w.mods()
    w.settings(move_rules=dict(awareness_level=aware, camp_movechance=0.0, idpcamp_movechance=0.0, fixed_routes=fixed, softening=0.0, capacity_buffer=0.5))
    names = ("Ka", "KabKa", "KaKab")

    def go():
        e = w.build([dict(name="Kab", location_type="forwarding_hub")] +
                    [dict(name=n, location_type=k, capacity=c) for n, k, c in zip(names, kinds, caps)],
                    [("Kab", "Ka", 1000), ("Ka", "KabKa", 1500), ("Kab", "KabKa", 1200), ("Kab", "KaKab", 2000)])
        for n, o in zip(names, occ):
            w.add(e, n, o)
        still(e)
        a = w.add(e, "Kab")
        e.evolve()
        return (a.location.name, tuple(a.route))
    got, ex = distribution(go)
    ctx.transitions += ex.paths
    ctx.traces += 1
    ctx.state((fixed, aware, occ, caps, kinds))
    full = {n: capf(o, c, 1.0, 0.5) <= 0.0 for n, o, c in zip(names, occ, caps)}
    if all(full.values()):
        ctx.expect(abs(sum(got.values()) - 1.0) < 1e-9, "probabilities %r", got)
        return
    for (place, rest), p in got.items():
        if not place.startswith("L:"):
            if p > 1e-9:
                # dropped at once: a camp more than half way into the buffer
                ok = any(k == "camp" and capf(o, c, 1.0, 0.5) < 0.5 and not full[n]
                         for n, o, c, k in zip(names, occ, caps, kinds))
                ctx.expect(ok, "with alternatives the agent stays with probability %r; occupancy %r capacity %r", p, occ, caps)
            continue
        dest = rest[-1] if rest else place.split(":")[2]
        ctx.expect(not full[dest], "route to %s is picked with probability %r although it is full: occupancy %r capacity %r",
                   dest, p, occ, caps)
    for n in names:
        if full[n]:
            continue
        if n == "Ka" or aware > 0:
            k = kinds[names.index(n)]
            f = capf(occ[names.index(n)], caps[names.index(n)], 1.0, 0.5)
            if k == "camp" and f < 0.5:
                continue
            ctx.expect(any((r[-1] if r else pl.split(":")[2]) == n for (pl, r), p in got.items() if pl.startswith("L:")),
                       "no route to %s although it has room: occupancy %r capacity %r", n, occ, caps)


def underway(ctx, kind, cap, buf, scale, occ, left, dup):
    """Agent at B with the rest of its route ahead; C is the end of it."""
    m = w.mods()
    w.settings(move_rules=dict(awareness_level=1, camp_movechance=0.0, idpcamp_movechance=0.0, softening=0.0, capacity_buffer=buf,
                               capacity_scaling=scale, max_move_speed=100))
    names = ["Ka", "X", "Y", "KabKa"]
    path = names[:1] + names[4 - left:]

    def go():
        e = w.build([dict(name="Kab", location_type="forwarding_hub")] +
                    [dict(name=n, location_type="forwarding_hub") for n in path[:-1]] +
                    [dict(name="KabKa", location_type=kind, capacity=cap)],
                    [("Kab", "Ka", 150)] + [(path[i], path[i + 1], 1000) for i in range(len(path) - 1)] +
                    ([(path[0], path[1], 1100)] if dup else []))
        a = w.add(e, "Kab")
        # en route to B, C still ahead
        a.route = list(path[1:])
        a.handle_travel(w.loc(e, "Kab").links[0], travelling=True)
        w.add(e, "KabKa", occ)
        still(e)
        e.evolve()
        mid = (a.location.name, tuple(a.route))
        e.evolve()
        return mid, (a.location.name, a.location.name == "Ka" and len(a.route) == 0, a.travelling)
    got, ex = distribution(go)
    ctx.transitions += ex.paths
    ctx.traces += 1
    ctx.state((kind, cap, buf, scale, occ, left, dup))
    f = capf(occ, cap, scale, buf)
    drop = kind != "town" and f < 0.5
    for (mid, last), p in got.items():
        ctx.eq(mid, ("L:Kab:Ka", tuple(path[1:])), "first day")
        if drop:
            ctx.expect(last == ("Ka", True, False), "camp C holds %d of %d (buffer %r, scaling %r): agent at B should drop its "
                       "route but is %r", occ, cap, buf, scale, last)
        else:
            ctx.expect(last[0] == "L:Ka:%s" % path[1], "C holds %d of %d (buffer %r, scaling %r): agent should go on from B "
                       "towards %s but is %r", occ, cap, buf, scale, path[1], last)


def replan(ctx, cap, occ):
    """After dropping, the agent plans afresh and avoids the full camp."""
    m = w.mods()
    w.settings(move_rules=dict(awareness_level=1, camp_movechance=0.0, idpcamp_movechance=0.0, softening=0.0, max_move_speed=100))

    def go():
        e = w.build([dict(name="Ka", location_type="forwarding_hub"), dict(name="KabKa", location_type="camp", capacity=cap),
                     dict(name="KaKab", location_type="camp")], [("Ka", "KabKa", 1000), ("Ka", "KaKab", 9000)])
        a = w.add(e, "Ka")
        a.route = ["KabKa"]
        w.add(e, "KabKa", occ)
        still(e)
        e.evolve()
        mid = a.location.name
        e.evolve()
        return mid, a.location.name
    got, ex = distribution(go)
    ctx.transitions += ex.paths
    ctx.traces += 1
    ctx.state((cap, occ))
    f = capf(occ, cap, 1.0, 0.9)
    if f <= 0.0:
        ctx.same_dist(got, {("Ka", "L:Ka:KaKab"): 1.0}, "full camp ahead, then planning afresh")
    elif f >= 0.5:
        ctx.same_dist(got, {("L:Ka:KabKa", "L:Ka:KabKa"): 1.0}, "camp with room ahead")


def check(ctx):
    items = []
    for fixed in (False, True):
        for aware in (1, 2, 3):
            for kinds in product(("camp", "town"), repeat=3):
                for occ in product((0, 5, 7, 8, 9), (0, 8), (0, 7, 8)):
                    items.append((("plan", fixed, aware, occ, kinds), plan, fixed, aware, occ, (8, 8, 8), kinds))
    for kind in ("camp", "idpcamp", "town"):
        for buf, scale in ((0.9, 1.0), (0.5, 1.0), (0.5, 2.0), (0.0, 1.0), (0.75, 0.5)):
            for cap in (-1, 0, 4, 8, 16):
                for occ in range(0, int(max(cap, 1) * scale) + 2):
                    for left in (1, 2, 3):
                        items.append((("underway", kind, cap, buf, scale, occ, left), underway, kind, cap, buf, scale, occ, left, False))
    for cap in (1, 2, 4, 16):
        for occ in range(cap + 2):
            items.append((("replan", cap, occ), replan, cap, occ))

    def batch(c, part, parts):
        factor(c, part, parts)
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 32)
    ctx.bounds = dict(capacity="<= 20", occupancy="up to capacity + 2", steps_left=3, awareness=3)
