"""All histories up to the depth bound of type changes, camp openings and closures and conflict changes, from every
initial type: after each operation the settlement is compared with one created directly with that type (in a fresh
simulation), all other settlements with their own type, and operations on unknown names must change nothing."""
from itertools import product
from mc import world as w
from mc import bfs

MR = dict(camp_movechance=0.02, idpcamp_movechance=0.1, default_movechance=0.3, conflict_movechance=0.9, camp_weight=2.0,
          conflict_weight=0.25)
TYPES = ("camp", "idpcamp", "town", "conflict_zone", "forwarding_hub", "marker", "flood_zone", "default")
_made = {}


def view(l):
    return (bool(l.camp), bool(l.idpcamp), bool(l.town), float(l.conflict), bool(l.forward), bool(l.marker), bool(l.flood_zone),
            round(float(l.movechance), 9))


def made(m, kind, inten=None):
    """A location created with that type."""
    if (kind, inten) not in _made:
        e = m.F.Ecosystem()
        e.print_location_output = False
        at = {} if inten is None else {"conflict_intensity": inten}
        _made[kind, inten] = view(e.addLocation(name="x", location_type=kind, attributes=at))
    return _made[kind, inten]


class Ref:
    def __init__(self, kinds):
        self.k = dict(kinds)       # name -> expected view
        self.time = 0
        self.step = False


def ops_for(m, n, attr):
    F = w.fresh

    def to(kind, inten=None, keepmc=False, set_conf=None):
        def f(ref, s):
            v = list(made(m, kind, inten))
            if set_conf is not None:
                v[3] = set_conf
            if keepmc:
                v[-1] = ref.k[n][-1]
            ref.k[n] = tuple(v)
        return f
    out = []
    for t in TYPES + ("IDPcamp", "Town", "conflict"):
        out.append(("type %s" % t, lambda e, t=t: e.change_location_type(F(n), F(t)), to(t, attr if "conflict" in t else None)))
    out.append(("open_camp", lambda e: e.open_camp(F(n), False), to("camp")))
    out.append(("open_idpcamp", lambda e: e.open_camp(F(n), True), to("idpcamp")))
    out.append(("close_camp", lambda e: e.close_camp(F(n), False), to("town")))
    out.append(("close_idpcamp", lambda e: e.close_camp(F(n), True), to("town")))
    for i in (1.0, 0.5):
        out.append(("conflict %g" % i, lambda e, i=i: e.add_conflict_zone(F(n), i), to("conflict_zone", set_conf=i)))
    out.append(("conflict keep", lambda e: e.add_conflict_zone(F(n), 0.7, False), to("conflict_zone", keepmc=True, set_conf=0.7)))
    out.append(("intensity 2", lambda e: e.set_conflict_intensity(F(n), 2.0), to("conflict_zone", set_conf=2.0)))
    out.append(("peace", lambda e: e.remove_conflict_zone(F(n)), to("town")))
    out.append(("peace keep", lambda e: e.remove_conflict_zone(F(n), False), to("town", keepmc=True)))
    out.append(("intensity 0", lambda e: e.set_conflict_intensity(F(n), 0.0), to("town")))
    for bad in ("nope", "ka", "K", "KabK", ""):
        out.append(("unknown " + bad, lambda e, b=bad: [e.change_location_type(b, "camp"), e.open_camp(b, False), e.open_camp(b, True),
                                                        e.close_camp(b, False), e.add_conflict_zone(b), e.remove_conflict_zone(b),
                                                        e.set_conflict_intensity(b, 0.3), e.set_conflict_intensity(b, 0.0)],
                    lambda ref, s: None))

    def stepped(ref, s):
        ref.time += 1
    out.append(("step", lambda e: e.evolve(), stepped))
    return out


def run(ctx, kind, attr, depth, target):
    m = w.mods()
    w.settings(move_rules=MR)
    at = {} if attr is None else {"conflict_intensity": attr}
    kinds = {"Kab": "conflict_zone", "Ka": "town", "KabKa": "camp"}
    kinds[target] = kind
    e = w.build([dict(name=n, location_type=kinds[n], pop=100, attributes=dict(at)) for n in ("Kab", "Ka", "KabKa")],
                [("Kab", "Ka", 500), ("Ka", "KabKa", 500)])
    ref = Ref({n: made(m, k, attr if "conflict" in k else None) for n, k in kinds.items()})
    names = "A B C D E F G".split()
    fields = ("camp", "idpcamp", "town", "conflict", "forward", "marker", "flood_zone", "movechance")

    def check(e, ref, hist):
        for l in e.locations:
            g, x = view(l), ref.k[l.name]
            if g != x:
                d = ["%s=%r (created so: %r)" % (f, a, b) for f, a, b in zip(fields, g, x) if a != b]
                ctx.fail("%s settlement started as %s; after %r on %s: %s has %s"
                         % (l.name, kinds[l.name], [h[0] for h in hist], target, l.name, ", ".join(d)))
        if len(e.locations) != 3 or [l.name for l in e.locations] != ["Kab", "Ka", "KabKa"]:
            ctx.fail("locations are %r" % [l.name for l in e.locations])

    def enabled(name, e, ref):
        if name.startswith("peace") or name == "intensity 0":
            return ref.k[target][3] > 0
        return name != "step" or ref.time < 1
    ops = ops_for(m, target, attr)
    bfs.search(ctx, (e, ref), ops, depth, check, lambda s, r: (w.eco_key(s), tuple(sorted(r.k.items()))), enabled=enabled,
               tag=repr((kind, attr, target)))


def agents(ctx, ops):
    """The behaviour of an agent after the changes is that of an agent in a place created so."""
    from mc.chance import distribution
    m = w.mods()
    w.settings(move_rules=dict(MR, awareness_level=1))
    oplist = {o[0]: o for o in ops_for(m, "Ka", None)}

    def go(created):
        e = w.build([dict(name="Kab", location_type="camp"), dict(name="Ka", location_type=created or "town", pop=0)], [("Kab", "Ka", 5000)])
        if created is None:
            for o in ops:
                oplist[o][1](e)
        a = w.add(e, "Ka")
        e.evolve()
        return a.location.name
    kind = ops[-1][5:] if ops[-1].startswith("type ") else {"open_camp": "camp", "open_idpcamp": "idpcamp", "close_camp": "town",
                                                            "close_idpcamp": "town", "conflict 1": "conflict_zone", "peace": "town"}[ops[-1]]
    got, ex = distribution(lambda: go(None))
    want, ex2 = distribution(lambda: go(kind))
    ctx.transitions += ex.paths
    ctx.traces += 1
    ctx.state(("agents", ops))
    ctx.same_dist(got, want, "first move of an agent after %r, against a place created as %s" % (ops, kind))


def check(ctx):
    items = []
    for kind in TYPES:
        for attr in (None, 0.4):
            for target in ("Kab", "Ka", "KabKa"):
                items.append((("history", kind, attr, target), run, kind, attr, 30 if ctx.thorough else 5, target))
    names = ["type " + t for t in TYPES] + ["open_camp", "open_idpcamp", "close_camp", "conflict 1", "peace"]
    for ops in product(names, repeat=2):
        if ops[-1] == "peace" and not ("conflict" in ops[0]):
            continue
        if ops[0] == "peace":
            continue
        items.append((("agents", ops), agents, ops))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(history_depth=30 if ctx.thorough else 5, initial_types=len(TYPES))
