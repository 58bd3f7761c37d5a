"""Breadth-first search over histories of adding, inserting, stepping, clearing and spawning agents, sequential and
parallel, rule on and off; after each operation every population is compared with a ledger."""
from mc import world as w, fakempi
from mc.bfs import search

LOCS = ("Kab", "Ka", "KabKa")


def locs(pops):
    return [dict(name="Kab", location_type="conflict_zone", pop=pops[0], country="X"),
            dict(name="Ka", location_type="town", pop=pops[1], country="X", movechance=0.3),
            dict(name="KabKa", location_type="camp", pop=pops[2], capacity=10, country="Y")]


LINKS = [("Kab", "Ka", 100), ("Ka", "KabKa", 500)]


class Data:
    """A data table giving one new person a day."""
    day0pops = {}

    def get_daily_difference(self, t, **k):
        return 1

    def get_field(self, *a, **k):
        return 0


def judge(ctx, e, ref, what):
    pops = {l.name: l.pop for l in e.locations}
    if pops != ref["pop"]:
        ctx.fail("%s: populations are %r, expected %r" % (what, pops, ref["pop"]))
    for l in e.locations:
        if l.pop < 0:
            ctx.fail("%s: the population of %s is negative (%r)" % (what, l.name, l.pop))
        if ref["rule"] and ref["exact"] and l.numAgentsSpawned != ref["spawned"][l.name]:
            ctx.fail("%s: %s reports %r agents spawned, expected %r" % (what, l.name, l.numAgentsSpawned, ref["spawned"][l.name]))


def ledger(pops, rule):
    return dict(pop=dict(zip(LOCS, pops)), rule=rule, spawned=dict.fromkeys(LOCS, 0), n=0, exact=True)


def took(ref, name, n=1):
    for _ in range(n):
        ref["n"] += 1
        if not ref["rule"]:
            continue
        if ref["pop"][name] > 0:
            ref["pop"][name] -= 1
            ref["spawned"][name] += 1
        else:
            ref["exact"] = False


def spawn_settings(rule, w_settings, **k):
    w_settings(spawn_rules=dict(take_from_population=rule, **k), move_rules=dict(max_move_speed=200.0))


def day_zero(m, e):
    """People who are displaced already when the simulation begins."""
    w.loc(e, "Ka").attributes["initial_idps"] = "2"
    m.spawning.add_initial_refugees(e, Data(), w.loc(e, "Ka"))


def serial(ctx, pops, rule, depth):
    m = w.mods()
    spawn_settings(rule, w.settings)
    w.reset_globals()
    e = w.build(locs(pops), LINKS)

    def by_place(e):
        out = dict.fromkeys(LOCS, 0)
        for a in e.agents:
            out[a.home_location.name] += 1
        return out

    def spawned_ref(ref, e):
        # the settlement is the picker's choice (C15); exactly that settlement's residents go down by one
        now = by_place(e)
        for n in LOCS:
            if now[n] > ref["homes"][n]:
                took(ref, n, now[n] - ref["homes"][n])

    def keep(f):
        def g(ref, e):
            f(ref, e)
            ref["homes"] = by_place(e)
        return g
    nop = keep(lambda r, e: None)
    ops = [("add %s" % n, lambda e, n=n: e.addAgent(w.loc(e, n), {}), keep(lambda r, e, n=n: took(r, n))) for n in LOCS]
    ops += [("insert %s" % n, lambda e, n=n: e.insertAgent(w.loc(e, n), {}), nop) for n in ("Kab", "KabKa")]
    ops += [("insert two at B", lambda e: e.insertAgents(w.loc(e, "Ka"), 2), nop),
            ("step", lambda e: e.evolve(), nop),
            ("clear A", lambda e: e.clearLocationsFromAgents([w.fresh("Kab")]), nop),
            ("close and reopen", lambda e: (e.close_location(w.fresh("Ka")), e.reopen_location(w.fresh("Ka"))), nop),
            ("calm B", lambda e: e.remove_conflict_zone(w.fresh("Ka")), nop),
            ("fight in B", lambda e: e.add_conflict_zone(w.fresh("Ka")), nop),
            ("spawn", lambda e: m.spawning.spawn_agents(e, 1), keep(spawned_ref)),
            ("daily", lambda e: m.spawning.spawn_daily_displaced(e, 1, Data()), keep(spawned_ref)),
            ("refresh", lambda e: m.spawning.refresh_spawn_weights(e), nop),
            ("day zero", lambda e: day_zero(m, e), nop)]
    ref = ledger(pops, rule)
    ref["homes"] = by_place(e)

    def enabled(name, e, ref):
        if name in ("spawn", "daily"):
            # with nobody left in a conflict there is nowhere to spawn
            return any(l.conflict > 0 and l.pop > 0 for l in e.locations)
        if len(e.agents) >= 3 and name.split()[0] in ("add", "insert", "spawn", "daily", "day"):
            return False
        return True

    def key(e, ref):
        return (tuple((l.pop, l.numAgents, l.conflict) for l in e.locations), tuple(sorted(w.place(a) for a in e.agents)),
                tuple(ref["spawned"].values()), ref["exact"])
    search(ctx, (e, ref), ops, depth, lambda s, r, h: judge(ctx, s, r, "%r %r" % (pops, h)), key, tag=("s", pops, rule), enabled=enabled)


def conflict_driven(ctx, mode, rate, pops, rule):
    """Removals by conflict-driven spawning on consecutive days."""
    m = w.mods()
    w.settings(spawn_rules=dict(take_from_population=rule, conflict_driven_spawning=dict(spawn_mode=mode, displaced_per_conflict_day=rate)),
               move_rules=dict(max_move_speed=200.0))
    w.reset_globals()
    e = w.build(locs(pops), LINKS)
    ref = ledger(pops, rule)
    for day in range(5):
        n = int(rate) if mode == "constant" else int(rate * ref["pop"]["Kab"])
        m.spawning.spawn_daily_displaced(e, day, Data())
        took(ref, "Kab", n)
        judge(ctx, e, ref, "conflict-driven %s %r, day %d" % (mode, rate, day))
        got = sum(1 for a in e.agents if a.home_location.name == "Kab")
        if got != ref["n"]:
            ctx.fail("conflict-driven %s %r: %d agents from A after day %d, expected %d" % (mode, rate, got, day, ref["n"]))
        ctx.state(("cd", mode, rate, pops, rule, day))
        ctx.transitions += 1
    ctx.traces += 1


def parallel(ctx, size, pops, rule, hist):
    W = fakempi.World(size)
    W.settings(spawn_rules=dict(take_from_population=rule),
               move_rules=dict(max_move_speed=200.0, conflict_movechance=0.0, default_movechance=0.0, camp_movechance=0.0))
    W.build(locs(pops), LINKS)
    ref = ledger(pops, rule)

    def add(e, n):
        try:
            e.addAgent(w.loc(e, n), {})
            return "added"
        except AssertionError:
            return "refused"
    for i, op in enumerate(hist):
        if op.startswith("add "):
            n = op[4:]
            r = W.run(lambda e: add(e, n))
            if len(set(r)) != 1:
                ctx.fail("%r: the processes disagree on adding an agent: %r" % (hist[:i + 1], r))
            if r[0] == "refused":
                if not (rule and ref["pop"][n] == 0):
                    ctx.fail("%d processes, populations %r, %r: adding an agent at %s failed though it has residents" % (size, pops, hist[:i + 1], n))
            else:
                took(ref, n)
        elif op.startswith("insert "):
            W.run(lambda e: e.insertAgent(w.loc(e, op[7:]), {}))
            ref["n"] += 1
        elif op == "step":
            W.evolve()
        for r, e in enumerate(W.e):
            judge(ctx, e, ref, "%d processes, process %d, populations %r, %r" % (size, r, pops, hist[:i + 1]))
        if sum(len(e.agents) for e in W.e) != ref["n"]:
            ctx.fail("%d processes, populations %r, %r: %d agents, expected %d" % (size, pops, hist[:i + 1], sum(len(e.agents) for e in W.e), ref["n"]))
        ctx.transitions += 1
        ctx.state((size, pops, rule, hist[:i + 1]))
    ctx.traces += 1


def check(ctx):
    from itertools import product
    T = ctx.thorough
    items = []
    for pops in ((0, 0, 0), (1, 2, 0), (2, 1, 1), (3, 0, 2)):
        for rule in (True, False):
            items.append(("histories %r %r" % (pops, rule), serial, pops, rule, 4 if T else 3))
    for mode, rates in (("constant", (0, 1, 2)), ("pop_ratio", (0.2, 0.5, 1.0))):
        for rate in rates:
            for pa in (0, 1, 3, 7, 12):
                for rule in (True, False):
                    items.append(("conflict-driven %s %r %d %r" % (mode, rate, pa, rule), conflict_driven, mode, rate, (pa, 2, 0), rule))
    ops = ("add Kab", "add Ka", "insert Kab", "step")
    for size in ((1, 2, 3, 4) if T else (1, 2, 3)):
        for pops in ((1, 2, 0), (2, 1, 0), (3, 0, 1)):
            for rule in (True, False):
                for hist in product(ops, repeat=5 if T else 4):
                    items.append(("parallel %d %r %r %s" % (size, pops, rule, hist), parallel, size, pops, rule, hist))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(population=12, agents=3, history=4 if T else 3, parallel_history=5 if T else 4, processes=4 if T else 3)
