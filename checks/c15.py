"""Exact distribution of the real choice of spawn locations: for every assignment of kinds, populations, intensities and
ages from the grid, and in every state reached by every sequence (to the depth bound) of conflict changes, camp openings,
type changes, agent additions taken from the population and time steps."""
from itertools import product
from mc import world as w
from mc import bfs
from mc.chance import distribution

MR = dict(camp_movechance=0.0, idpcamp_movechance=0.0, default_movechance=0.1, conflict_movechance=0.0)


class Ref:
    def __init__(self, locs):
        self.k = {n: [kind, inten if kind == "conflict_zone" else 0.0, -1] for n, kind, pop, inten, *_ in locs}
        self.pop = {n: pop for n, kind, pop, inten, *_ in locs}
        self.time = 0

    def key(self):
        return self.time, tuple(sorted((n, tuple(v)) for n, v in self.k.items())), tuple(sorted(self.pop.items()))

    def weights(self, decay, interval):
        ws = {}
        for n, (kind, inten, start) in self.k.items():
            d = decay[min((self.time - start) // interval, len(decay) - 1)] if decay else 1.0
            ws[n] = self.pop[n] * inten * d if kind == "conflict_zone" else 0.0
        return ws


def compare(ctx, e, ref, decay, interval, what, pair=False):
    m = w.mods()
    ws = ref.weights(decay, interval)
    tot = sum(ws.values())
    try:
        zero = list(e.pick_spawn_locations(0))
    except Exception as ex:
        ctx.fail("%s: asking for zero agents failed with %r" % (what, ex))
    if zero:
        ctx.fail("%s: asking for zero agents gives %r" % (what, zero))
    if tot <= 0:
        return
    got, ex = distribution(lambda: tuple(l.name for l in e.pick_spawn_locations(1)))
    ctx.transitions += ex.paths
    ctx.traces += 1
    ctx.same_dist(got, {(n,): v / tot for n, v in ws.items() if v > 0}, what + ": spawn location")
    if pair:
        got, ex = distribution(lambda: tuple(l.name for l in e.pick_spawn_locations(2)))
        want = {}
        for a, x in ws.items():
            for b, y in ws.items():
                if x * y > 0:
                    want[a, b] = x * y / tot / tot
        ctx.transitions += ex.paths
        ctx.same_dist(got, want, what + ": two spawn locations")

        def agents():
            s = w.clone(e)
            n = len(s.agents)
            m.spawning.spawn_agents(s, 1)
            return tuple(a.location.name for a in s.agents[n:])
        got, ex = distribution(agents)
        ctx.transitions += ex.paths
        ctx.same_dist(got, {(n,): v / tot for n, v in ws.items() if v > 0}, what + ": place of a spawned agent")


def static(ctx, locs, decay, interval, steps):
    w.settings(move_rules=MR, spawn_rules=dict(conflict_spawn_decay=list(decay), conflict_spawn_decay_interval=interval) if decay else {})
    e = w.build([dict(name=n, location_type=k, pop=p, attributes={"conflict_intensity": i, "x": "1"}, **dict(*o)) if k == "conflict_zone" else
                 dict(name=n, location_type=k, pop=p, **dict(*o)) for n, k, p, i, *o in locs], [])
    ref = Ref(locs)
    for t in range(steps + 1):
        compare(ctx, e, ref, decay, interval, "settlements %r decay %r/%r after %d steps" % (locs, decay, interval, t), t == 0)
        ctx.state((locs, decay, interval, t))
        e.evolve()
        ref.time += 1


def ops_for(n):
    def setkind(kind, inten=1.0):
        def f(ref, s):
            ref.k[n] = [kind, inten, ref.time if kind == "conflict_zone" else ref.k[n][2]]
        return f
    out = []
    for i in (1.0, 0.5):
        out.append(("conflict %s %g" % (n, i), lambda e, i=i: e.set_conflict_intensity(n, i), setkind("conflict_zone", i)))
    out.append(("peace " + n, lambda e: e.set_conflict_intensity(n, 0.0), setkind("town")))
    out.append(("open " + n, lambda e: e.open_camp(n, False), setkind("camp")))
    out.append(("close " + n, lambda e: e.close_camp(n, False), setkind("town")))
    for k in ("camp", "conflict_zone"):
        out.append(("type %s %s" % (n, k), lambda e, k=k: e.change_location_type(n, k), setkind(k)))

    def addref(ref, s):
        ref.pop[n] -= 1
    out.append(("add " + n, lambda e: e.addAgent(w.loc(e, n), {}), addref))
    return out


def hist(ctx, locs, decay, interval, depth):
    w.settings(move_rules=MR, spawn_rules=dict(take_from_population=True, **(
        dict(conflict_spawn_decay=list(decay), conflict_spawn_decay_interval=interval) if decay else {})))
    e = w.build([dict(name=n, location_type=k, pop=p) for n, k, p, i in locs], [])
    ref = Ref(locs)

    def step(ref, s):
        ref.time += 1

    def check(e, ref, h):
        compare(ctx, e, ref, decay, interval, "after %r (decay %r/%r)" % ([x[0] for x in h], decay, interval))
    ops = [("step", lambda e: e.evolve(), step)] + ops_for("Kab") + (ops_for("Ka") if depth < 4 else ops_for("Ka")[:3])

    def enabled(name, e, ref):
        p = name.split()
        if p[0] == "peace":
            return ref.k[p[1]][0] == "conflict_zone"
        if p[0] == "add":
            return ref.pop[p[1]] > 0
        return True
    bfs.search(ctx, (e, ref), ops, depth, check, lambda s, r: (r.key(), w.eco_key(s)), enabled=enabled, tag=repr((locs, decay, interval)))


def check(ctx):
    items = []
    one = [("town", 5, 0), ("camp", 3, 0), ("conflict_zone", 0, 1.0), ("conflict_zone", 3, 1.0), ("conflict_zone", 1, 0.5),
           ("conflict_zone", 10, 0.25), ("forwarding_hub", 4, 0),
           ("conflict_zone", 7, 1.0, (("foreign", True), ("country", "Y"))), ("conflict_zone", 2, 0.5, (("capacity", 3), ("region", "r"), ("x", 50.0), ("y", -20.0), ("movechance", 0.2)))]
    decays = ((None, 1), ((1.0, 0.5, 0.1), 1), ((0.5, 1.0), 2), ((1.0, 0.0), 1), ((0.3,), 1))
    for n in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        for ls in product(one, repeat=n):
            locs = tuple((("Kab", "Ka", "KabKa", "KaKab")[i],) + x for i, x in enumerate(ls))
            for d, i in decays if n < 4 else decays[:2]:
                items.append((("static", locs, d, i), static, locs, d, i, 3))
    starts = [(("Kab", "conflict_zone", 2, 1.0), ("Ka", "town", 3, 0), ("KabKa", "conflict_zone", 4, 1.0)),
              (("Kab", "town", 2, 0), ("Ka", "camp", 3, 0), ("KabKa", "conflict_zone", 1, 1.0)),
              (("Kab", "camp", 1, 0), ("Ka", "town", 2, 0), ("KabKa", "town", 1, 0))]
    for s in starts:
        for d, i in ((None, 1), ((1.0, 0.5, 0.1), 1), ((1.0, 0.25), 2)):
            items.insert(0, (("history", s, d, i), hist, s, d, i, 4 if ctx.thorough else 3))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(settlements=4 if ctx.thorough else 3, history_depth=4 if ctx.thorough else 3)
