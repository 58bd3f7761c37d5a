"""BFS over histories of the real ecosystem: time steps, additions, insertions, clearings, closures,
reopenings, removals and type changes, with every random draw enumerated.  In every state each agent is
in exactly one known place, each counter equals a recount, and the total equals an external ledger."""
from mc import world as w
from mc.bfs import search

GRAPHS = {
    "pair": ([dict(name="Kab", location_type="conflict_zone", pop=9, country="X"),
              dict(name="Ka", location_type="camp", capacity=50, foreign=True, country="Y")],
             [("Kab", "Ka", 500)]),
    "triangle": ([dict(name="Kab", location_type="conflict_zone", pop=9, country="X"),
                  dict(name="Ka", location_type="town", pop=5, country="X"),
                  dict(name="KabKa", location_type="camp", capacity=50, foreign=True, country="Y")],
                 [("Kab", "Ka", 100), ("Ka", "KabKa", 300), ("Kab", "KabKa", 700)]),
    "marker": ([dict(name="Kab", location_type="conflict_zone", pop=9, country="X"),
                dict(name="aKa", location_type="marker", country="X"),
                dict(name="KabKa", location_type="forwarding_hub", country="Y")],
               [("Kab", "aKa", 100), ("aKa", "KabKa", 300)]),
    "parallel": ([dict(name="Kab", location_type="conflict_zone", pop=9, country="X"),
                  dict(name="Ka", location_type="town", pop=5, country="Y")],
                 [("Kab", "Ka", 100), ("Kab", "Ka", 900)]),
    "isolated": ([dict(name="Kab", location_type="conflict_zone", pop=9, country="X"),
                  dict(name="Ka", location_type="town", pop=9, country="Y"),
                  dict(name="I", location_type="town", pop=9, country="X")],
                 [("Kab", "Ka", 400)]),
}

CONFIGS = {
    "default": {},
    "aware2": dict(move_rules=dict(awareness_level=2)),
    "aware0": dict(move_rules=dict(awareness_level=0)),
    "stints": dict(move_rules=dict(avoid_short_stints=True, start_on_foot=True, max_move_speed=200.0,
                                   default_movechance=0.5)),
    "logs": dict(log_levels=dict(agent=2, link=2, camp=1), spawn_rules=dict(take_from_population=True)),
    "fixed": dict(move_rules=dict(fixed_routes=True, awareness_level=2)),
    "prune": dict(move_rules=dict(pruning_threshold=1.5, awareness_level=3)),
}


class Ref:
    def __init__(self):
        self.total = 0


def ops_for(m, locs, links, conf):
    names = [l["name"] for l in locs]
    a, b = names[0], names[1]
    out = [("step", lambda e: e.evolve())]

    def adder(nm, how, n=1):
        def f(e):
            l = w.loc(e, nm)
            if how == "add":
                e.addAgent(l, {})
            elif how == "insert":
                e.insertAgent(l, {})
            else:
                e.insertAgents(l, n)
        return f

    def plus(n):
        def g(ref, e):
            ref.total += n
        return g
    for nm in names:
        out.append(("add " + nm, adder(nm, "add"), plus(1)))
    out.append(("insert2 " + b, adder(b, "inserts", 2), plus(2)))
    out.append(("insert " + a, adder(a, "insert"), plus(1)))

    def clear(*nms):
        def f(e):
            here = [x for x in e.agents if x.location is not None and x.location.name in nms]
            e._cleared = len(here)
            e.clearLocationsFromAgents([w.fresh(x) for x in nms])

        def g(ref, e):
            ref.total -= e._cleared
            del e._cleared
        return ("clear " + ",".join(nms), f, g)
    out.append(clear(a))
    out.append(clear(b, names[-1]))
    k = links[0]
    out += [
        ("close_link", lambda e: e.close_link(w.fresh(k[0]), w.fresh(k[1]))),
        ("close_link 1way", lambda e: e.close_link(w.fresh(k[0]), w.fresh(k[1]), twoway=False)),
        ("reopen_link", lambda e: e.reopen_link(w.fresh(k[0]), w.fresh(k[1]))),
        ("remove_link 1way", lambda e: e.remove_link(w.fresh(k[1]), w.fresh(k[0]), twoway=False)),
        ("close_location", lambda e: e.close_location(w.fresh(b))),
        ("close_location in", lambda e: e.close_location(w.fresh(b), twoway=False)),
        ("reopen_location", lambda e: e.reopen_location(w.fresh(b))),
        ("close_border", lambda e: e.close_border("X", "Y")),
        ("reopen_border 1way", lambda e: e.reopen_border("X", "Y", twoway=False)),
        ("close_camp", lambda e: e.close_camp(names[-1], IDP=False)),
        ("open_camp", lambda e: e.open_camp(b, IDP=True)),
        ("conflict", lambda e: e.add_conflict_zone(b)),
        ("no conflict", lambda e: e.remove_conflict_zone(a)),
        ("type", lambda e: e.change_location_type(b, "town")),
        ("redirect", lambda e: e.set_forced_redirection(k[0], k[1], True)),
    ]
    return out


def run(ctx, gname, cname, depth, start):
    m = w.mods()
    locs, links = GRAPHS[gname]
    w.settings(**CONFIGS[cname])
    w.reset_globals()
    e = w.build(locs, links)
    e.known_links = [k for l in e.locations for k in l.links]
    nlinks = len(e.known_links)
    ref = Ref()
    for nm, n in start:
        w.add(e, nm, n)
        ref.total += n

    def check(e, ref, hist):
        ag = e.agents
        if len(set(id(a) for a in ag)) != len(ag):
            ctx.fail("an agent is listed twice after %r" % (hist,))
        if len(ag) != ref.total or e.numAgents() != ref.total:
            ctx.fail("%d agents (numAgents %r) instead of %d after %r" % (len(ag), e.numAgents(), ref.total, hist))
        places = {}
        for l in e.locations:
            places[id(l)] = l
        for l in e.locations:
            for k in l.links + l.closed_links:
                places[id(k)] = k
        for k in e.known_links:
            places.setdefault(id(k), k)
        cnt = {}
        for a in ag:
            if a.location is None:
                ctx.fail("an agent is nowhere after %r" % (hist,))
            cnt[id(a.location)] = cnt.get(id(a.location), 0) + 1
            if id(a.location) not in places:
                ctx.fail("an agent is in an unknown place %s after %r" % (a.location.name, hist))
            onlink = hasattr(a.location, "startpoint")
            if bool(a.travelling) != onlink:
                ctx.fail("travelling=%r but at %s after %r" % (a.travelling, a.location.name, hist))
        for i, p in places.items():
            if p.numAgents != cnt.get(i, 0):
                ctx.fail("%s counts %r agents, %d are there, after %r" % (p.name, p.numAgents, cnt.get(i, 0), hist))
        if len(e.locations) != len(locs):
            ctx.fail("number of locations changed after %r" % (hist,))
    n = search(ctx, (e, ref), ops_for(m, locs, links, cname), depth,
               check, lambda e, r: (w.eco_key(e), r.total), enabled=few, tag=(gname, cname, start))
    ctx.sample("%s/%s start %s depth %d: %d states" % (gname, cname, start, depth, n))




def few(name, e, ref):
    return len(e.agents) < 3 or not (name.startswith("add") or name.startswith("insert"))


def check(ctx):
    d = 3 if ctx.thorough else 2
    plan = []
    for g in GRAPHS:
        for c in CONFIGS:
            plan.append((g, c, d, (("Kab", 1),)))
    if ctx.thorough:
        plan += [("pair", "default", 4, (("Kab", 1),)), ("triangle", "aware2", 3, (("Kab", 2),)),
                 ("marker", "stints", 4, (("Kab", 1),))]
    else:
        plan += [("pair", "default", 3, (("Kab", 1),)), ("marker", "stints", 3, (("Kab", 1),)),
                 ("isolated", "aware0", 3, (("Kab", 1),)), ("triangle", "aware2", 2, (("Kab", 2),))]
    plan.reverse()
    ctx.cases([("%s/%s/%d/%s" % (p[0], p[1], p[2], p[3]), run) + p for p in plan])
    ctx.bounds = dict(graphs=len(GRAPHS), configs=len(CONFIGS), depth=d)
