"""All histories up to the depth bound of conflict, camp and type changes interleaved with time steps, from
settlements of every kind, with several decay lists: after each time step the base attractiveness of every
settlement against the documented product computed from an independent record of the history.  Long single
histories check every day of the decay list up to well past its end."""
from itertools import product
from mc import world as w
from mc import bfs

MR = dict(camp_weight=2.0, conflict_weight=0.25, foreign_weight=3.0, camp_movechance=0.01, idpcamp_movechance=0.1)
KINDS = ("town", "camp", "idpcamp", "conflict_zone", "forwarding_hub", "marker")


class Ref:
    """kind, intensity and start of the conflict per settlement; scored = the score of the last time step."""

    def __init__(self, locs):
        self.k = {n: [kind, 1.0 if kind == "conflict_zone" else 0.0, -1, foreign] for n, kind, foreign in locs}
        self.time = 0
        self.fresh = False

    def key(self):
        return (self.time, self.fresh, tuple(sorted((n, tuple(v)) for n, v in self.k.items())))


def want(ref, n, decay, interval, t):
    kind, inten, start, foreign = ref.k[n]
    s = 3.0 if foreign else 1.0
    if kind in ("camp", "idpcamp"):
        s *= 2.0
    if kind == "conflict_zone" and inten > 0:
        d = 1.0
        if decay:
            d = decay[min((t - start) // interval, len(decay) - 1)]
        s *= 0.25 ** (d * inten)
    return s


def ops_for(n):
    def setkind(kind, inten=1.0):
        def f(ref, s):
            v = ref.k[n]
            v[0], v[1] = kind, inten
            v[2] = ref.time if kind == "conflict_zone" else v[2]
            ref.fresh = False
        return f
    out = []
    for i in (1.0, 0.5, 2.0):
        out.append(("conflict %s %g" % (n, i), lambda e, i=i: e.set_conflict_intensity(n, i), setkind("conflict_zone", i)))
    out.append(("peace " + n, lambda e: e.set_conflict_intensity(n, 0.0), setkind("town")))
    out.append(("open " + n, lambda e: e.open_camp(n, False), setkind("camp")))
    out.append(("openidp " + n, lambda e: e.open_camp(n, True), setkind("idpcamp")))
    out.append(("close " + n, lambda e: e.close_camp(n, False), setkind("town")))
    for k in ("town", "camp", "idpcamp", "conflict_zone", "marker"):
        out.append(("type %s %s" % (n, k), lambda e, k=k: e.change_location_type(n, k), setkind(k)))
    return out


def step(ref, s):
    ref.time += 1
    ref.fresh = True


def run(ctx, kinds, foreign, decay, interval, depth):
    m = w.mods()
    sr = dict(conflict_spawn_decay=list(decay), conflict_spawn_decay_interval=interval) if decay else {}
    w.settings(move_rules=MR, spawn_rules=sr)
    names = ("Kab", "Ka", "KabKa")[:len(kinds)]
    e = w.build([dict(name=n, location_type=k, foreign=f, pop=100) for n, k, f in zip(names, kinds, foreign)],
                [(names[i], names[i + 1], 500) for i in range(len(names) - 1)])
    ref = Ref([(n, k, f) for n, k, f in zip(names, kinds, foreign)])

    def check(e, ref, hist):
        if not ref.fresh:
            return
        for l in e.locations:
            x = want(ref, l.name, decay, interval, ref.time - 1)
            g = float(l.getScore(1))
            if abs(g - x) > 1e-12:
                ctx.fail("%s (%s) has attractiveness %r, expected %r after %r (decay %r / %r)"
                         % (l.name, ref.k[l.name], g, x, [h[0] for h in hist], decay, interval))
    ops = [("step", lambda e: e.evolve(), step)] + ops_for("Kab")
    if len(names) > 1 and depth < 4:
        ops += ops_for("Ka")[:4]

    def enabled(name, e, ref):
        p = name.split()
        return p[0] != "peace" or ref.k[p[1]][0] == "conflict_zone"
    bfs.search(ctx, (e, ref), ops, depth, check, lambda s, r: (r.key(), w.eco_key(s), tuple(l.time_of_conflict for l in s.locations)), enabled=enabled,
               tag=repr((kinds, foreign, decay, interval)))


def long(ctx, kind, at, decay, interval, inten, days):
    """One conflict, followed for many days."""
    m = w.mods()
    w.settings(move_rules=MR, spawn_rules=dict(conflict_spawn_decay=list(decay), conflict_spawn_decay_interval=interval))
    e = w.build([dict(name="Kab", location_type=kind, pop=100), dict(name="Ka", location_type="town")], [("Kab", "Ka", 500)])
    ref = Ref([("Kab", kind, False), ("Ka", "town", False)])
    for t in range(days):
        if t == at:
            e.add_conflict_zone("Kab", inten)
            ref.k["Kab"][0:3] = ["conflict_zone", inten, t]
        e.evolve()
        for n in ("Kab", "Ka"):
            ctx.close(float(w.loc(e, n).getScore(1)), want(ref, n, decay, interval, t),
                      "attractiveness of %s on day %d, conflict since %d, decay %r every %d days" % (n, t, at, decay, interval))
        ctx.transitions += 1
        ctx.state((kind, at, decay, interval, inten, t))
    ctx.traces += 1


def seen(ctx, kinds, aware, fixed):
    """The refreshed score is the one agents use that very day."""
    from mc.chance import distribution
    m = w.mods()
    w.settings(move_rules=dict(MR, awareness_level=aware, softening=0.0, fixed_routes=fixed, default_movechance=0.0))

    def go():
        e = w.build([dict(name="Kab", location_type="forwarding_hub"), dict(name="Ka", location_type=kinds[0]),
                     dict(name="KabKa", location_type="camp")], [("Kab", "Ka", 1000), ("Kab", "KabKa", 1000)])
        e.evolve()
        a = w.add(e, "Kab")
        e.change_location_type("Ka", kinds[1])
        e.evolve()
        return a.location.name
    got, ex = distribution(go)
    s = {"town": 1.0, "camp": 2.0, "idpcamp": 2.0, "conflict_zone": 0.25, "forwarding_hub": 1.0}[kinds[1]]
    s, c = (s * s, 4.0) if fixed else (s, 2.0)
    ctx.transitions += ex.paths
    ctx.state((kinds, aware, fixed))
    ctx.same_dist(got, {"L:Kab:Ka": s / (s + c), "L:Kab:KabKa": c / (s + c)}, "road taken the day B turns from %s to %s" % kinds)


def check(ctx):
    items = []
    for kind, foreign in product(KINDS, (False, True)):
        for decay, interval in ((None, 30), ((1.0, 0.5, 0.1), 1), ((1.0, 0.5, 0.0), 2), ((0.5,), 1)):
            items.append((("hist", kind, foreign, decay, interval), run, (kind, "town"), (foreign, not foreign), decay, interval,
                          8 if ctx.thorough else 5))
    for kinds in product(("town", "camp", "conflict_zone"), repeat=2):
        items.append((("two", kinds), run, kinds, (False, True), (1.0, 0.5, 0.1), 1, 3))
    for kind in ("town", "conflict_zone", "camp"):
        for at in (0, 1, 5):
            for decay in ((1.0, 0.5), (1.0, 1.0, 1.0, 0.5, 0.1), (0.3,), (1.0, 0.0)):
                for interval in (1, 2, 3, 7, 30):
                    for inten in (1.0, 0.4):
                        items.append((("long", kind, at, decay, interval, inten), long, kind, at, decay, interval, inten,
                                      interval * (len(decay) + 1) + at + 3))
    for a, b in product(("town", "camp", "conflict_zone", "forwarding_hub"), ("town", "camp", "idpcamp", "conflict_zone")):
        items.append((("seen", a, b), seen, (a, b), 1, False))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(history_depth=8 if ctx.thorough else 5, decay_lists=4, days=190)
