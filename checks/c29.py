"""The real sequential and the real parallel code (1 to 4 processes, both parallel modes) side by side on every small
network: after every step of every history of status changes the score and routes of each place on each process are compared
with those of the sequential code, and so is the exact distribution of moves of an agent and of spawned agents."""
from itertools import product
from mc import world as w, fakempi
from mc.chance import distribution

KINDS = {
    "town": dict(location_type="town"), "conflict": dict(location_type="conflict_zone"), "camp": dict(location_type="camp"),
    "idp": dict(location_type="idpcamp"), "marker": dict(location_type="marker"), "hub": dict(location_type="forwarding_hub"),
    "abroad": dict(location_type="town", foreign=True, country="X"), "flood": dict(location_type="flood_zone"),
}
NAMES = ("Kab", "Ka", "KabKa", "KaKab", "KaKa")
FLOOD = dict(max_flood_level=2, flood_movechances=[0.0, 0.5, 1.0], flood_loc_weights=[1.0, 0.6, 0.3])


def yml(fixed=False, aware=1, flood=True, **mv):
    mr = dict(conflict_movechance=1.0, default_movechance=1.0, camp_movechance=0.0, idpcamp_movechance=0.0, max_move_speed=360.0,
              awareness_level=aware, fixed_routes=fixed, camp_weight=2.0, conflict_weight=0.25, foreign_weight=1.5, **mv)
    if flood:
        mr["flood_rules"] = FLOOD
    return dict(move_rules=mr, spawn_rules=dict(conflict_spawn_decay=[1.0, 0.5], conflict_spawn_decay_interval=1))


def change(op, places):
    """The same status change on any ecosystem."""
    what, i = op
    if what is None:
        return lambda e: None
    n = places[i % len(places)]
    return {
        "conflict": lambda e: e.add_conflict_zone(n),
        "peace": lambda e: e.remove_conflict_zone(n),
        "camp": lambda e: e.change_location_type(n, "camp"),
        "marker": lambda e: e.change_location_type(n, "marker"),
        "close camp": lambda e: e.close_camp(n, False),
        "open camp": lambda e: e.open_camp(n, False),
        "flooded": lambda e: w.loc(e, n).attributes.update(flood_level=2),
        "dry": lambda e: w.loc(e, n).attributes.update(flood_level=0),
        "abroad": lambda e: setattr(w.loc(e, n), "foreign", True),
        "shut": lambda e: e.close_location(n),
        "cut": lambda e: e.close_link(n, places[(i + 1) % len(places)]),
    }[what]


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def routes(l):
    return {k: (float(v[0]), list(v[1]), v[2].name) for k, v in l.routes.items()}


def compare(ctx, what, s, W, fixed):
    for r, e in enumerate(W.e):
        for k, l in enumerate(s.locations):
            q = e.locations[k]
            if q.name != l.name or not near(q.getScore(1), l.getScore(1)) or not near(q.getScore(0), l.getScore(0)):
                ctx.fail("%s: process %d of %d scores %s %r, the sequential code %r" % (what, r, W.size, l.name, (q.getScore(0), q.getScore(1)), (l.getScore(0), l.getScore(1))))
            if fixed:
                a, b = routes(q), routes(l)
                if set(a) != set(b) or any(a[x][1:] != b[x][1:] or not near(a[x][0], b[x][0]) for x in b):
                    ctx.fail("%s: process %d of %d has the routes %r at %s, the sequential code %r" % (what, r, W.size, a, l.name, b))


def links_of(n, ring):
    ls = [(NAMES[k], NAMES[k + 1], 100.0 + 50 * k) for k in range(n - 1)]
    if ring and n > 2:
        ls.append((NAMES[n - 1], NAMES[0], 450.0))
    return ls


def locs_of(kinds):
    return [dict(KINDS[k], name=NAMES[i], x=float(i), y=0.0, pop=1000, attributes={"flood_level": 1} if k == "flood" else {}) for i, k in enumerate(kinds)]


def scores(ctx, what, kinds, size, mode, fixed, ops, again):
    W = fakempi.World(size)
    W.settings(**yml(fixed))
    w.settings(**yml(fixed))
    locs, links = locs_of(kinds), links_of(len(kinds), True)
    if again:
        # an earlier simulation in the same processes
        W.build(locs_of(["camp"] * 3 + ["conflict"]), links_of(4, False), parallel_mode=mode)
        W.evolve()

        def new(m, r):
            e = w.build(locs, links, m=m, e=m.P.Ecosystem())
            e.parallel_mode = mode
            return e
        W.e = W.each(new)
    else:
        W.build(locs, links, parallel_mode=mode)
    s = w.build(locs, links)
    if len(kinds) > 2 and not any(o[0] in ("cut", "shut") for o in ops):
        for e in [s] + W.e:
            w.loc(e, "Kab").major_routes.append([NAMES[1], NAMES[2]])
    for t, op in enumerate(ops):
        f = change(op, [l["name"] for l in locs])
        f(s)
        W.run(f)
        s.evolve()
        W.evolve()
        ctx.transitions += 1
        compare(ctx, "%s, step %d" % (what, t), s, W, fixed)
        ctx.state((what, t, repr([l.getScore(1) for l in s.locations]), repr([routes(l) for l in s.locations]) if fixed else ""))
    ctx.traces += 1


def where(a):
    p = w.place(a)
    return p[1] if p[0] == "loc" else "%s-%s %g" % p[1:4]


def moves(ctx, what, kinds, caps, residents, start, size, mode, fixed, aware, ops, extra, latency="high_latency"):
    locs, links = locs_of(kinds), links_of(len(kinds), True)
    for l, c in zip(locs, caps):
        l["capacity"] = c
    names = [l["name"] for l in locs]

    def go(ecos, run, evolve):
        out = []
        for t, op in enumerate(ops):
            run(change(op, names))
            if t == 0:
                run(lambda e: [e.insertAgent(w.loc(e, n)) for n in residents] and None)
                run(lambda e: e.addAgent(w.loc(e, start), {}))
            evolve()
            out.append(tuple(sorted(where(a) for e in ecos() for a in e.agents)))
        return tuple(out)

    def seq():
        e = w.build(locs, links)
        return go(lambda: [e], lambda f: f(e), e.evolve)
    W = fakempi.World(size)

    def par():
        W.build(locs, links, parallel_mode=mode, latency_mode=latency)
        return go(lambda: W.e, W.run, W.evolve)
    w.settings(**yml(fixed, aware, **extra))
    want, ex = distribution(seq)
    W.settings(**yml(fixed, aware, **extra))
    got, ex2 = distribution(par)
    ctx.traces += ex.paths + ex2.paths
    ctx.transitions += len(ops) * (ex.paths + ex2.paths)
    for k in got:
        ctx.state((what, k))
    ctx.same_dist(got, want, what + ": moves with %d processes compared with the sequential code" % size)


def spawn(ctx, what, kinds, size, n, ops, pop):
    locs, links = locs_of(kinds), links_of(len(kinds), False)
    for i, l in enumerate(locs):
        l["pop"] = 10 * (i + 1)
    names = [l["name"] for l in locs]

    def conf():
        c = yml()
        c["spawn_rules"]["take_from_population"] = pop
        c["move_rules"].update(conflict_movechance=0.0, default_movechance=0.0)
        return c

    def go(ecos, run, evolve):
        out = []
        for op in ops:
            run(change(op, names))
            evolve()
        run(lambda e: ecos_spawn(e, n))
        evolve()
        for e in ecos():
            out.append(tuple(l.pop for l in e.locations))
        if any(x != out[0] for x in out):
            ctx.fail("%s: the processes disagree about the populations: %r" % (what, out))
        return out[0], tuple(sorted(a.home_location.name for e in ecos() for a in e.agents))
    W = fakempi.World(size)
    mods = {}

    def ecos_spawn(e, k):
        mods[id(e)].spawning.spawn_agents(e, k)

    def seq():
        e = w.build(locs, links)
        mods.clear()
        mods[id(e)] = w.mods()
        return go(lambda: [e], lambda f: f(e), e.evolve)

    def par():
        W.build(locs, links)
        mods.clear()
        mods.update({id(e): W.m[r] for r, e in enumerate(W.e)})
        return go(lambda: W.e, W.run, W.evolve)
    w.settings(**conf())
    want, ex = distribution(seq)
    W.settings(**conf())
    got, ex2 = distribution(par)
    ctx.traces += ex.paths + ex2.paths
    ctx.transitions += ex.paths + ex2.paths
    for k in got:
        ctx.state((what, k))
    # which process draws is not observable: outcomes of the other processes are marginalised by the sum
    ctx.same_dist(got, want, what + ": spawning with %d processes compared with the sequential code" % size)


OPS = [(None, 0), ("conflict", 0), ("conflict", 1), ("peace", 0), ("camp", 1), ("close camp", 1), ("open camp", 0), ("flooded", 1), ("dry", 0), ("abroad", 2), ("shut", 1), ("cut", 0), ("marker", 2)]


def check(ctx):
    th = ctx.thorough
    items = []
    sizes = (1, 2, 3, 4) + ((5, 7) if th else ())
    K = list(KINDS)
    nets = [(a,) for a in K] + list(product(K, K)) + [tuple(K[(i + s * j) % len(K)] for j in range(n)) for n in (3, 4, 5) for s in ((1, 3, 5, 2) if th else (1, 3)) for i in range(len(K))]
    j = 0
    for kinds in nets:
        for size in sizes:
            for mode in ("classic", "loc-par"):
                for fixed in (False, True) if th else (j % 2 == 0,):
                    for op in OPS if th else [OPS[(j + q * 5) % len(OPS)] for q in (0, 1)]:
                        again = (j // 3) % 3 == 0
                        items.append(("scores %s, %d processes, %s, fixed routes %r, %s of place %d%s" % ((" ".join(kinds), size, mode, fixed) + op + (", second simulation" if again else "",)),
                                      scores, kinds, size, mode, fixed, [(None, 0), op, (None, 0)], again))
                        j += 1
                j += 1
    MOVES = [
        # kinds, capacities, residents, start
        (("conflict", "town", "camp"), (-1, -1, -1), (), "Kab"),
        (("conflict", "camp", "idp"), (-1, 1, -1), (), "Kab"),
        (("conflict", "camp", "idp"), (-1, 1, -1), ("Ka",), "Kab"),
        (("conflict", "camp", "idp"), (-1, 2, 4), ("Ka", "KabKa", "KabKa"), "Kab"),
        (("town", "idp", "abroad"), (-1, 10, -1), ("Ka",) * 9, "Kab"),
        (("conflict", "camp", "town", "camp"), (-1, 1, -1, 3), ("Ka", "KaKab", "KaKab"), "Kab"),
        (("conflict", "marker", "camp", "town"), (-1, -1, 2, -1), ("KabKa",), "Kab"),
        (("flood", "town", "camp", "conflict"), (-1, -1, -1, -1), (), "Kab"),
        (("conflict", "hub", "camp", "idp"), (-1, -1, -1, -1), (), "Kab"),
    ]
    for q, (kinds, caps, res, start) in enumerate(MOVES):
        for size in sizes[:4]:
            for mode in ("classic", "loc-par"):
                for fixed in (False, True):
                    for aware in ((1, 2) if th else (1,)):
                        # the residents stay where they are
                        ok = [o for o in OPS if o[0] in (None, "abroad", "shut", "cut") or NAMES[o[1]] not in res]
                        for op in (ok if th else [ok[0], ok[(q * 3 + size) % len(ok)]]):
                            items.append(("moves %s, capacities %r, residents %s, %d processes, %s, fixed routes %r, awareness %d, %s of place %d" % ((" ".join(kinds), caps, " ".join(res) or "none", size, mode, fixed, aware) + op),
                                          moves, kinds, caps, res, start, size, mode, fixed, aware, [(None, 0), op], {}, ("high_latency", "low_latency")[(q + size) % 2]))
    # places behind one with several closed roads
    for size in sizes[:4]:
        for kinds, caps, res in ((("conflict", "town", "town", "town", "camp"), (-1, -1, -1, -1, 1), ("KaKa",)), (("conflict", "camp", "town", "idp", "camp"), (-1, 2, -1, -1, 1), ("Ka", "Ka", "KaKab", "KaKa"))):
            for op in (("shut", 2), ("shut", 3)):
                for latency in ("high_latency", "low_latency"):
                    items.append(("moves %s, capacities %r, residents %s, %d processes, %s of place %d, %s" % ((" ".join(kinds), caps, " ".join(res), size) + op + (latency,)),
                                  moves, kinds, caps, res, "Kab", size, "classic", False, 1, [op, (None, 0)], {}, latency))
    for kinds in [("conflict", "town"), ("conflict", "conflict", "town"), ("town", "conflict", "camp", "conflict")]:
        for size in sizes[1:4]:
            for n in (1, 2):
                for op in (OPS if th else [OPS[0], OPS[2]]):
                    for pop in (False, True):
                        items.append(("spawning %d at %s, %d processes, %s of place %d, population %r" % ((n, " ".join(kinds), size) + op + (pop,)), spawn, kinds, size, n, [(None, 0), op], pop))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(x[0], x[1], c, x[0], *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(processes=max(sizes), places=5, networks=len(nets), operations=len(OPS), move_scenarios=len(MOVES), steps=3)
