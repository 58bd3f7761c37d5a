"""Every combination of spawning mode, rate, daily conflict intensities, populations and flood levels in the grid followed
day by day on the real spawner, sequential and parallel; Poisson draws are enumerated and their means checked."""
from itertools import product
from mc import world as w, fakempi, chance
from mc.chance import Explorer

MV = dict(conflict_movechance=0.0, camp_movechance=0.0, idpcamp_movechance=0.0, default_movechance=0.0)


class NoData:
    day0pops = {}

    def get_daily_difference(self, *a, **k):
        raise AssertionError("the registration data must not be used in this mode")


def floor2(x):
    """The integers a truncation of the real number x may give in floating point."""
    return {int(x - 1e-9) if x > 1e-9 else 0, int(x + 1e-9)}


def drive(ctx, m, e, days, setday, rate_of, mode, take, what, sim):
    """Runs the days on one process; sim collects per-day (settlement counts, returned number)."""
    for t in range(days):
        setday(m, e, t)
        before = {l.name: l.pop for l in e.locations}
        del chance.POISSON_LOG[:]
        r = m.spawning.spawn_daily_displaced(e, t, NoData())
        means = list(chance.POISSON_LOG)
        if not (isinstance(r, tuple) and len(r) == 3):
            ctx.fail("%s: spawn_daily_displaced returned %r" % (what, r))
        e.evolve()
        sim.append((before, means, int(r[0]), {l.name: int(l.numAgents) for l in e.locations}, {l.name: l.pop for l in e.locations}, e.numAgents()))


def judge(ctx, sim, rates, mode, take, pops, what):
    """rates[t][name]: number (constant), fraction (pop_ratio) or mean (poisson) of the day."""
    total = {n: 0 for n in pops}
    pop = dict(pops)
    for t, (before, means, ret, there, after, num) in enumerate(sim):
        new = {n: there[n] - total[n] for n in pops}
        for n in pops:
            x = rates[t].get(n, 0)
            if mode == "poisson":
                if x == 0 and new[n] != 0:
                    ctx.fail("%s: day %d: %d agents spawned at %s, expected none" % (what, t, new[n], n))
            else:
                want = floor2(x * pop[n] if mode == "pop_ratio" else x)
                if new[n] not in want:
                    ctx.fail("%s: day %d: %d agents spawned at %s (population %d), expected %r" % (what, t, new[n], n, pop[n], sorted(want)))
            if take:
                pop[n] -= new[n]
            if after[n] != pop[n]:
                ctx.fail("%s: day %d: population of %s is %r, expected %r" % (what, t, n, after[n], pop[n]))
            total[n] = there[n]
        if ret != sum(new.values()):
            ctx.fail("%s: day %d: %d agents reported, %d added" % (what, t, ret, sum(new.values())))
        if num != sum(total.values()):
            ctx.fail("%s: day %d: %d agents in the simulation, %d in settlements" % (what, t, num, sum(total.values())))
        if mode == "poisson" and means is not None:
            want = sorted(x for x in rates[t].values() if x > 0)
            if sorted(x for x in means if x > 0) != want:
                ctx.fail("%s: day %d: Poisson draws with means %r, expected %r" % (what, t, sorted(means), want))


def conflict(ctx, mode, rate, pops, plan, take, size):
    """plan[t] = intensities of A and B on day t; C is a camp and D a town, never in conflict."""
    names = ("Kab", "Ka", "KabKa", "KaKab")
    pops = dict(zip(names, pops))
    rules = dict(take_from_population=take, conflict_driven_spawning=dict(spawn_mode=mode, displaced_per_conflict_day=rate))
    places = [dict(name="KabKa", location_type="camp", pop=pops["KabKa"])] + [dict(name=n, location_type="town", pop=pops[n]) for n in ("Kab", "Ka", "KaKab")]
    links = [("Kab", "Ka", 100), ("Ka", "KabKa", 100), ("KabKa", "KaKab", 100)]
    what = "%s rate %r, plan %r, populations %r, take_from_population %r, processes %d" % (mode, rate, plan, pops, take, size)

    def setday(m, e, t):
        for n, x in zip(("Kab", "Ka"), plan[t]):
            if x > 0:
                e.add_conflict_zone(w.fresh(n), conflict_intensity=x, change_movechance=False)
            else:
                e.remove_conflict_zone(w.fresh(n), change_movechance=False)
    md = "poisson" if mode.lower() == "poisson" else mode
    rates = [{n: rate * x for n, x in zip(("Kab", "Ka"), p)} for p in plan]
    run_all(ctx, places, links, rules, {}, len(plan), setday, rates, md, take, pops, what, size)


def flood(ctx, mode, rate, pops, plan, size):
    names = ("Kab", "Ka", "KabKa", "KaKab")
    pops = dict(zip(names, pops))
    rules = dict(take_from_population=True, conflict_zone_spawning_only=False, flood_zone_spawning_only=True,
                 flood_driven_spawning=dict(spawn_mode=mode, displaced_per_flood_day=list(rate)))
    mv = dict(flood_rules=dict(max_flood_level=len(rate) - 1, flood_movechances=[0.0] * len(rate), flood_loc_weights=[1.0] * len(rate)))
    places = [dict(name="Kab", location_type="flood_zone", pop=pops["Kab"]), dict(name="KabKa", location_type="camp", pop=pops["KabKa"]),
              dict(name="Ka", location_type="flood_zone", pop=pops["Ka"]), dict(name="KaKab", location_type="conflict_zone", pop=pops["KaKab"])]
    links = [("Kab", "Ka", 100), ("Ka", "KabKa", 100), ("KabKa", "KaKab", 100)]
    what = "flood %s %r, plan %r, populations %r, processes %d" % (mode, rate, plan, pops, size)

    def setday(m, e, t):
        for n, x in zip(("Kab", "Ka"), plan[t]):
            w.loc(e, n).attributes["flood_level"] = x
    md = "poisson" if mode.lower() == "poisson" else mode
    rates = [{n: (rate[x] if x > 0 else 0) for n, x in zip(("Kab", "Ka"), p)} for p in plan]
    run_all(ctx, places, links, rules, mv, len(plan), setday, rates, md, True, pops, what, size)


def run_all(ctx, places, links, rules, mv, days, setday, rates, md, take, pops, what, size):
    if size == 0:
        w.settings(spawn_rules=rules, move_rules=dict(MV, **mv))
        m = w.mods()

        def once():
            w.reset_globals()
            e = w.build(places, links)
            sim = []
            drive(ctx, m, e, days, setday, None, md, take, what, sim)
            return sim
    else:
        W = fakempi.World(size)
        W.settings(spawn_rules=rules, move_rules=dict(MV, **mv))

        def once():
            W.build(places, links)
            sims = [[] for _ in range(size)]
            for m in W.m:
                w.reset_globals(m)
            W.each(lambda m, r: drive(ctx, m, W.e[r], days, setday, None, md, take, what, sims[r]))
            for s in sims[1:]:
                for t in range(days):
                    if s[t][2:] != sims[0][t][2:]:
                        ctx.fail("%s: day %d: the processes disagree: %r" % (what, t, [x[t][2:] for x in sims]))
            # what is really there, over all processes
            held = {}
            for e in W.e:
                for a in e.agents:
                    held[a.home_location.name] = held.get(a.home_location.name, 0) + 1
            last = sims[0][-1][3]
            if held != {n: v for n, v in last.items() if v}:
                ctx.fail("%s: counts %r, but the processes hold agents from %r" % (what, last, held))
            return [s[:1] + (None,) + s[2:] for s in sims[0]]
    draws = set()
    for p, sim, tr in Explorer().explore(once):
        judge(ctx, sim, rates, md, take, pops, what)
        draws.add(tuple(tuple(sorted(s[3].items())) for s in sim))
        ctx.transitions += days
        ctx.state((what, draws and tuple(tr)))
    if md == "poisson":
        n = sum(1 for r in rates for x in r.values() if x > 0)
        if len(draws) != (chance.POISSON_MAX + 1) ** n:
            ctx.fail("%s: %d different outcomes of %d Poisson draws of 0..%d" % (what, len(draws), n, chance.POISSON_MAX))
    ctx.traces += len(draws)


def check(ctx):
    T = ctx.thorough
    items = []
    I = (0, 0.25, 0.5, 1.0)
    plans = [(a, b) for a in product(I, repeat=2) for b in product((0, 0.5, 1.0), repeat=2)]
    if T:
        plans += [(a, b, c) for a in product((0, 0.5, 1.0), repeat=2) for b in product((0, 0.25, 1.0), repeat=2) for c in product((0, 1.0), repeat=2)]
    for plan in plans:
        for take in (False, True):
            for rate in (0, 1, 3, 10):
                items.append(("conflict constant %r %r %r" % (rate, plan, take), conflict, "constant", rate, (50, 60, 70, 80), plan, take, 0))
            for rate in (0.125, 0.5, 1.0):
                for pops in ((8, 16, 9, 9), (0, 1, 5, 5), (37, 3, 0, 4)):
                    items.append(("conflict pop_ratio %r %r %r %r" % (rate, plan, take, pops), conflict, "pop_ratio", rate, pops, plan, take, 0))
    for plan in product(product((0, 0.75, 4.0, 0.1), repeat=2), repeat=1):
        for rate, pops in ((0.25, (11, 7, 5, 5)), (0.25, (7, 3, 0, 1)), (0.1, (95, 57, 3, 3)), (0.2, (33, 24, 3, 3))):
            for take in (False, True):
                items.append(("conflict pop_ratio odd %r %r %r %r" % (rate, plan, take, pops), conflict, "pop_ratio", rate, pops, plan + plan[::-1], take, 0))
        for rate in (1, 3, 7):
            items.append(("conflict constant odd %r %r" % (rate, plan), conflict, "constant", rate, (50, 60, 70, 80), plan, True, 0))
    for mode in ("poisson", "Poisson"):
        for plan in [((a, b),) for a, b in product((0, 0.5, 1.0), repeat=2)] + [((1.0, 0), (0.5, 0)), ((0, 0.5), (1.0, 0)), ((1.0, 0.5), (0, 0.25))]:
            for take in (False, True):
                items.append(("conflict %s %r %r" % (mode, plan, take), conflict, mode, 2, (50, 60, 70, 80), plan, take, 0))
    for size in (1, 2, 3):
        for plan in (((1.0, 0.5), (0, 1.0)), ((0.5, 0), (1.0, 1.0))):
            for take in (False, True):
                items.append(("par constant %d %r %r" % (size, plan, take), conflict, "constant", 3, (50, 60, 70, 80), plan, take, size))
                items.append(("par pop_ratio %d %r %r" % (size, plan, take), conflict, "pop_ratio", 0.25, (17, 40, 7, 8), plan, take, size))
        for plan in (((1.0, 0.5),), ((1.0, 0), (0, 1.0))):
            items.append(("par poisson %d %r" % (size, plan), conflict, "poisson", 2, (50, 60, 70, 80), plan, True, size))
    L = (0, 1, 2, 3)
    fplans = [(a, b) for a in product(L, repeat=2) for b in product((0, 1, 3), repeat=2)]
    for plan in fplans:
        items.append(("flood constant %r" % (plan,), flood, "constant", (9, 1, 0, 4), (50, 60, 70, 80), plan, 0))
        for pops in ((16, 40, 9, 9), (1, 0, 5, 5), (37, 3, 0, 4)):
            items.append(("flood pop_ratio %r %r" % (plan, pops), flood, "pop_ratio", (0.5, 0.125, 0.25, 1.0), pops, plan, 0))
    for mode in ("poisson", "Poisson"):
        for plan in (((1, 2),), ((3, 0),), ((0, 0),), ((2, 0), (0, 1)), ((1, 3), (0, 0))):
            items.append(("flood %s %r" % (mode, plan), flood, mode, (7, 1, 2, 3), (50, 60, 70, 80), plan, 0))
    for size in (1, 2, 3):
        for plan in (((1, 3), (2, 0)),):
            items.append(("par flood pop_ratio %d" % size, flood, "pop_ratio", (0.5, 0.125, 0.25, 1.0), (16, 40, 9, 9), plan, size))
        items.append(("par flood poisson %d" % size, flood, "poisson", (7, 1, 2, 3), (50, 60, 70, 80), ((1, 2),), size))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(days=3 if T else 2, poisson_draws="0..%d" % chance.POISSON_MAX, processes=3)
