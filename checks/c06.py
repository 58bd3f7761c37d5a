"""Every combination of formula settings, destination kinds, occupancies and agent attributes of the grid
on a graph with a marker and two-step routes: each candidate route's weight from the real code against an
independent evaluation of the documented formula (base attractiveness as held by the settlement, which is
the subject of C09)."""
import math
from itertools import product
from mc import world as w
from checks.c05 import oracle


def gc(a, b):
    la, lb = math.radians(a[1]), math.radians(b[1])
    d = math.sin((lb - la) / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(math.radians(b[0] - a[0]) / 2) ** 2
    return 2 * 6371.0 * math.asin(math.sqrt(d))


def capf(n, cap, scale, buf):
    c = cap * scale
    if c < 1 or n <= buf * c:
        return 1.0
    if n >= c:
        return 0.0
    return (c - n) / (c * (1 - buf))


XY = {"Kab": (10.0, 5.0), "aKa": (11.0, 5.0), "Ka": (10.0, 7.0), "KabKa": (14.0, 4.0), "KaKab": (20.0, -3.0)}


def run(ctx, ws, ds, dp, wp, extra, aware, roads, flood, kinds, home, agent, n_at, small=None):
    m = w.mods()
    mr = dict(weight_softening=ws, softening=ds, distance_power=dp, weight_power=wp, awareness_level=aware,
              camp_weight=2.0, foreign_weight=1.5, conflict_weight=0.3)
    mr.update(extra)
    if flood:
        mr["flood_rules"] = dict(flood_movechances=[0.0, 0.5, 1.0], flood_loc_weights=[1.0, 0.5, 0.125])
    w.settings(move_rules=mr)
    locs = []
    pops = {"Kab": 500, "aKa": 0, "Ka": 1000, "KabKa": 400, "KaKab": 0 if kinds["KaKab"] == "camp" else 1000000}
    pops.update(small or {})
    for n in ("Kab", "aKa", "Ka", "KabKa", "KaKab"):
        at = {"fr": 120.0, "uk": 30.0}
        if flood and n in flood:
            at["flood_level"] = flood[n]
        locs.append(dict(name=n, location_type=kinds[n], x=XY[n][0], y=XY[n][1], pop=pops[n] or (400 if n == "KaKab" else 0),
                         foreign=n in ("KabKa", "KaKab"), capacity=10 if n in n_at else -1, attributes=at))
    pops["KaKab"] = pops["KaKab"] or 400
    e = w.build(locs, [])
    for a, b, d in roads:
        e.linkUp(a, b, d)
    ag = w.add(e, home, 1, agent)
    for n, k in n_at.items():
        w.add(e, n, k)
    if home != "Kab":
        ag.handle_travel(w.loc(e, "Kab"), travelling=False)
    m.spawning.refresh_spawn_weights(e)
    for l in e.locations:
        m.scoring.updateLocationScore(0, l)
    weights, routes = m.moving.selectRoute(ag, time=0, return_all_routes=True)

    def attract(n):
        l = w.loc(e, n)
        s = l.getScore(1)
        if extra.get("ChildrenAvoidHazards"):
            if agent["age"] < 19:
                s = s * s
            if extra.get("BoysTakeRisk") and agent["gender"] == "male" and agent["age"] > 14:
                s = 1.0
        if extra.get("stay_close_to_home"):
            s *= 1.0 / max(1.0, gc(XY[n], XY[home])) ** extra.get("home_distance_power", 0.5)
        if flood and flood.get(n, 0) > 0:
            s *= [1.0, 0.5, 0.125][flood[n]]
        k = kinds[n]
        rule = {"camp": "MatchCampEthnicity", "conflict_zone": "MatchConflictEthnicity"}.get(k, "MatchTownEthnicity")
        if extra.get(rule):
            s *= {"fr": 120.0, "uk": 30.0}[agent["ethnicity"]] / pops[n] * 10.0
        if extra.get("use_pop_for_loc_weight") and k != "camp":
            s *= float(pops[n]) ** extra.get("pop_power_for_loc_weight", 0.1)
        return s
    dist = {}
    for a, b, d in roads:
        dist[a, b] = dist[b, a] = float(d)
    adj = {n: [] for n in ("Kab", "aKa", "Ka", "KabKa", "KaKab")}
    for a, b, d in roads:
        adj[a].append(b)
        adj[b].append(a)
    want = oracle(adj, "Kab", [n for n in kinds if kinds[n] == "marker"], aware)
    ctx.eq(sorted(map(tuple, routes)), sorted(want.elements()), "candidate routes")
    for r, x in zip(routes, weights):
        n = r[-1]
        length = sum(dist[r[i], r[i + 1]] for i in range(len(r) - 1))
        occ = n_at.get(n, 0) + (1 if n == "Kab" else 0)
        cf = capf(occ, 10 if n in n_at else -1, extra.get("capacity_scaling", 1.0), extra.get("capacity_buffer", 0.9))
        y = ((ws + attract(n)) / (ds + length) ** dp * cf) ** wp
        ctx.transitions += 1
        ctx.state((ws, ds, dp, wp, str(extra), aware, str(flood), str(kinds), home, str(agent), tuple(r)))
        ctx.close(x, y, "weight of route %r with %r, flood %r, kinds %r, home %s, agent %r" % (r, mr, flood, kinds, home, agent))
    ctx.traces += 1
    ctx.sample(dict(settings=mr, routes=routes, weights=[float(x) for x in weights]))


def check(ctx):
    roads = [("Kab", "aKa", 30.0), ("aKa", "KabKa", 45.5), ("Kab", "Ka", 100.0), ("Ka", "KaKab", 7.25), ("Ka", "KabKa", 60.0), ("KabKa", "KaKab", 300.0)]
    std = {"Kab": "conflict_zone", "aKa": "marker", "Ka": "town", "KabKa": "conflict_zone", "KaKab": "camp"}
    alt = [std, dict(std, KaKab="town"), dict(std, Ka="camp", KabKa="town"), dict(std, KabKa="forwarding_hub", Ka="flood_zone"),
           dict(std, Ka="marker")]
    boy, girl, man = (dict(age=16, gender="male", ethnicity="fr"), dict(age=12, gender="female", ethnicity="uk"),
                      dict(age=40, gender="male", ethnicity="uk"))
    none = {}
    items = []

    def add(*a):
        items.append(a)
    for ws, ds, dp, wp, aw, k, fl in product((0.0, 0.5), (10.0, 2.5, 0.0), (1.0, 0.5, 2.0, 0.0), (1.0, 2.0, 0.5, 0.0),
                                             (1, 2, 3), alt[:2] if not ctx.thorough else alt, (None, {"Ka": 1, "KabKa": 2, "KaKab": 0})):
        add(ws, ds, dp, wp, {}, aw, roads, fl, k, "Kab", none, {})
    opts = [dict(use_pop_for_loc_weight=True), dict(use_pop_for_loc_weight=True, pop_power_for_loc_weight=0.5),
            dict(stay_close_to_home=True), dict(stay_close_to_home=True, home_distance_power=1.0),
            dict(stay_close_to_home=True, home_distance_power=2.0, use_pop_for_loc_weight=True),
            dict(ChildrenAvoidHazards=True), dict(ChildrenAvoidHazards=True, BoysTakeRisk=True),
            dict(MatchCampEthnicity=True), dict(MatchTownEthnicity=True), dict(MatchConflictEthnicity=True),
            dict(MatchCampEthnicity=True, MatchTownEthnicity=True, MatchConflictEthnicity=True),
            dict(capacity_scaling=0.8, capacity_buffer=0.5), dict(capacity_buffer=0.25), {},
            dict(use_pop_for_loc_weight=True, ChildrenAvoidHazards=True, MatchTownEthnicity=True,
                 stay_close_to_home=True, capacity_buffer=0.3)]
    for ex, k, home, ag, nat, (ws, dp, wp), aw, fl in product(
            opts, alt, ("Kab", "Ka", "KaKab"), (boy, girl, man, dict(boy, age=14), dict(boy, age=15), dict(girl, age=19), dict(girl, age=18)),
            ({}, {"KaKab": 9, "KabKa": 4}, {"KabKa": 6, "KaKab": 11}), ((0.0, 1.0, 1.0), (0.25, 2.0, 0.5)), (1, 3), (None, {"Ka": 2, "KaKab": 1})):
        if not ctx.thorough and aw == 1 and (fl or ws):
            continue
        add(ws, 10.0, dp, wp, ex, aw, roads, fl, k, home, ag, nat)

    for k, p, small in product(alt, (0.1, 1.0, 2.0), ({"Ka": 1}, {"Ka": 2, "KabKa": 1}, {"KabKa": 2, "Ka": 3})):
        add(0.0, 10.0, 1.0, 1.0, dict(use_pop_for_loc_weight=True, pop_power_for_loc_weight=p), 3, roads, None, k, "Kab", man, {}, small)

    def batch(c, part, parts):
        for i in range(part, len(items), parts):
            c.case("%d %s" % (i, items[i][:8]), run, c, *items[i])
    ctx.batches(batch, 32)
    ctx.bounds = dict(configurations=len(items))
