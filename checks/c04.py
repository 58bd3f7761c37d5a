"""Exact departure probability of one real time step (all uniform draws refined as intervals) for every
settlement kind, population, capacity, scaling factor and flood level of the grid; pass-through decisions
on short stints; and closed-off or empty surroundings."""
from itertools import product
from mc import world as w
from mc.chance import distribution

TYPES = ["conflict_zone", "camp", "idpcamp", "town", "forwarding_hub", "marker", "flood_zone", None]
MC = dict(conflict_movechance=0.9, camp_movechance=0.01, idpcamp_movechance=0.15, default_movechance=0.25)


def base_chance(t, own, s):
    return {"conflict_zone": s.get("conflict_movechance", 1.0), "camp": s.get("camp_movechance", 0.001),
            "idpcamp": s.get("idpcamp_movechance", 0.1), "town": s.get("default_movechance", 0.3),
            "flood_zone": s.get("default_movechance", 0.3), "forwarding_hub": 1.0, "marker": 1.0, None: own}[t]


def stay(ctx, t, own, pop, cap, moves, flood, take, foreign, n):
    """flood: None or (levels list, level)."""
    m = w.mods()
    mr = dict(moves)
    if flood:
        mr["flood_rules"] = dict(flood_movechances=flood[0], flood_loc_weights=[1.0] * len(flood[0]))
    w.settings(move_rules=mr, spawn_rules=dict(take_from_population=take))

    def go():
        at = {} if flood is None or flood[1] is None else {"flood_level": flood[1]}
        e = w.build([dict(name="Kab", location_type=t, movechance=own, pop=pop, capacity=cap, attributes=at,
                          foreign=foreign),
                     dict(name="Ka", location_type="camp", capacity=-1)], [("Kab", "Ka", 5000)])
        w.add(e, "Kab", n)
        e.evolve()
        return sum(1 for a in e.agents if a.location.name != "Kab")
    got, ex = distribution(go)
    p = base_chance(t, own, mr)
    left = pop - n if take else pop
    f = moves.get("movechance_pop_scale_factor", 0.0)
    p *= (float(max(left, cap)) / moves.get("movechance_pop_base", 10000.0)) ** f
    if flood and flood[1]:
        p = flood[0][flood[1]]
    p = min(1.0, p)
    want = {1: p, 0: 1 - p} if n == 1 else {2: p * p, 1: 2 * p * (1 - p), 0: (1 - p) ** 2}
    ctx.transitions += ex.paths
    ctx.traces += ex.paths
    ctx.state((t, own, pop, cap, str(moves), flood, take, n))
    ctx.same_dist(got, {k: v for k, v in want.items() if v > 0}, "number of departures")


def through(ctx, t, length, speed, stints, default, history, own=None):
    """A->B->C: is B passed on the day of arrival?"""
    m = w.mods()
    w.settings(move_rules=dict(max_move_speed=speed, avoid_short_stints=stints, default_movechance=default,
                               conflict_movechance=0.4, camp_movechance=0.2))

    def go():
        e = w.build([dict(name="Kab", location_type="forwarding_hub"), dict(name="Ka", location_type=t),
                     dict(name="KabKa", location_type="camp")], [])
        at = {} if own is None else {"max_move_speed": own}
        e.linkUp("Kab", "Ka", float(length), attributes=at)
        e.linkUp("Ka", "KabKa", 100000.0)
        for n in ("Ka", "KabKa"):
            w.loc(e, n).links[:] = [k for k in w.loc(e, n).links if n == "Ka" and k.endpoint.name == "KabKa"]
        a = w.add(e, "Kab")
        for t_ in range(60):
            e.evolve()
            if a.location.name == "Ka" and not a.travelling:
                return ("stopped", t_)
            if a.location.name == "L:Ka:KabKa":
                return ("passed", t_)
        return ("never", 0)
    got, ex = distribution(go)
    # reference
    recent, d, day = 0.0, 0.0, 0
    v = speed if own is None else own
    while not d + v > length:
        d += v
        recent = (recent + v / speed) / 2.0
        day += 1
    moved = length - d
    p = {"town": default, "camp": 0.2, "conflict_zone": 0.4, "forwarding_hub": 1.0}[t]
    if moved < v:
        if t == "town" and stints and (recent + moved / speed) / 2.0 < 0.5:
            p = 1.0
    else:
        p = 0.0
    ctx.transitions += ex.paths
    ctx.state((t, length, speed, stints, default))
    ctx.same_dist(got, {k: x for k, x in {("passed", day): p, ("stopped", day): 1 - p}.items() if x > 0},
                  "passing through a %s" % t)


def enclosed(ctx, kind, aware, fixed, prune):
    m = w.mods()
    w.settings(move_rules=dict(awareness_level=aware, fixed_routes=fixed, pruning_threshold=prune,
                               conflict_weight=0.0, camp_weight=0.0))

    def go():
        links = [] if kind in ("nolinks", "alone") else [("Kab", "Ka", 300)]
        locs = [dict(name="Kab", location_type="conflict_zone"), dict(name="Ka", location_type="camp"),
                dict(name="KabKa", location_type="town")]
        if kind == "alone":
            locs = locs[:1]
        if kind == "deadmarker":
            locs[1]["location_type"] = "marker"
        e = w.build(locs, links)
        if kind == "closed":
            e.close_location("Kab")
        if kind == "full":
            w.loc(e, "Ka").capacity = 1
            w.add(e, "Ka", 1)
        if kind == "deadmarker":
            w.loc(e, "Ka").links[:] = []
        a = w.add(e, "Kab", 1)
        for _ in range(3):
            e.evolve()
        if kind in ("nolinks", "alone", "closed") or (kind == "deadmarker" and aware > 0):
            ctx.expect(a.location is w.loc(e, "Kab"), "agent moved to %s from a closed-off settlement", a.location.name)
        return w.place(a)
    got, ex = distribution(go)
    ctx.transitions += 3 * ex.paths
    ctx.state((kind, aware, fixed, prune, str(sorted(got))))


def check(ctx):
    pops = [(0, -1), (1000, -1), (0, 500), (20000, 100), (100, 5000)]
    scal = [{}, dict(movechance_pop_scale_factor=0.5), dict(movechance_pop_scale_factor=1.0, movechance_pop_base=500.0),
            dict(movechance_pop_scale_factor=-0.5, movechance_pop_base=2000.0)]
    floods = [None, ([0.0, 0.35, 0.8, 1.0], None), ([0.0, 0.35, 0.8, 1.0], 0), ([0.0, 0.35, 0.8, 1.0], 1),
              ([0.0, 0.35, 0.8, 1.0], 3), ([0.7, 0.0, 0.45], 1), ([0.7, 0.0, 0.45], 2)]
    for t, (pop, cap), sc, fl, dflt in product(TYPES, pops, scal, floods, (False, True)):
        if max(pop, cap) <= 0 and sc.get("movechance_pop_scale_factor", 0) < 0:
            continue
        mv = dict(sc)
        if not dflt:
            mv.update(MC)
        args = (t, 0.37, pop, cap, mv, fl, False, bool(pop > 100), 1)
        ctx.case("stay %s" % (args,), stay, ctx, *args)
    for own in (0.001, 0.004, 0.5, 1.0, 1.7):
        ctx.case("own %r" % own, stay, ctx, None, own, 10, -1, {}, None, False, False, 1)
    for t, sc in product(("conflict_zone", "town"), scal):
        mv = dict(MC, **sc)
        ctx.case("taking %s" % ((t, sc),), stay, ctx, t, 0.5, 600, -1, mv, None, True, False, 2)
    for t, L, sp, st, df, own in product(("town", "camp", "conflict_zone", "forwarding_hub"),
                                         (10, 40, 99, 100, 101, 140, 150, 160, 199, 220, 260, 290, 330),
                                         (100.0,), (False, True), (0.25, 0.0, 1.0), (None, 50.0)):
        if df < 0.005 and t == "town":
            pass
        args = (t, L, sp, st, df, None, own)
        if t == "town" and df == 0.0:
            continue  # such a town counts as a camp
        ctx.case("through %s" % (args,), through, ctx, *args)
    for k, a, f, p in product(("nolinks", "alone", "closed", "full", "deadmarker"), (0, 1, 2, 3), (False, True), (1.0, 2.0)):
        if a == 0 and f:
            continue
        ctx.case("enclosed %s" % ((k, a, f, p),), enclosed, ctx, k, a, f, p)
    ctx.bounds = dict(types=len(TYPES), floods=len(floods), scalings=len(scal))
