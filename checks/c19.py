"""Exact distribution of the attributes of spawned agents for every small weight table, written as CSV files and read by the
real code, for each way agents enter the simulation."""
import os
import shutil
from itertools import product
from mc import world as w, fakempi
from mc.chance import distribution

MV = dict(conflict_movechance=0.0, camp_movechance=0.0, idpcamp_movechance=0.0, default_movechance=0.0)


class Data:
    day0pops = {}

    def __init__(self, n, initial=0):
        self.n, self.initial = n, initial

    def get_daily_difference(self, *a, **k):
        return self.n

    def get_field(self, name, *a, **k):
        return self.initial if name == "KabKa" else 0


def write(tables):
    """tables: {attribute: (values, {column: weights})}"""
    if os.path.isdir("input_csv"):
        shutil.rmtree("input_csv")
    os.makedirs("input_csv")
    for a, (vals, cols) in tables.items():
        with open("input_csv/demographics_%s.csv" % a, "w") as f:
            f.write("%s,%s\n" % (a, ",".join(cols)))
            for i, v in enumerate(vals):
                f.write("%s,%s\n" % (v, ",".join("" if c[i] is None else "%g" % c[i] for c in cols.values())))


def norm(v):
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def attrs(a):
    return tuple(sorted((k, norm(v)) for k, v in a.attributes.items()))


def want(tables, place):
    d = {(): 1.0}
    for a in sorted(tables):
        vals, cols = tables[a]
        c = [x or 0 for x in (cols[place] if place in cols else cols["Default"])]
        tot = float(sum(c))
        nxt = {}
        for k, p in d.items():
            for v, x in zip(vals, c):
                if x > 0:
                    kk = k + ((a, norm(v)),)
                    nxt[kk] = nxt.get(kk, 0.0) + p * x / tot
        d = nxt
    return d


def mode_settings(mode, ws):
    rules = dict(take_from_population=True)
    if mode == "conflict":
        rules["conflict_driven_spawning"] = dict(spawn_mode="constant", displaced_per_conflict_day=1)
    mv = dict(MV)
    if mode == "flood":
        rules.update(conflict_zone_spawning_only=False, flood_zone_spawning_only=True,
                     flood_driven_spawning=dict(spawn_mode="constant", displaced_per_flood_day=[0, 1]))
        mv["flood_rules"] = dict(max_flood_level=1, flood_movechances=[0.0, 0.0], flood_loc_weights=[1.0, 1.0])
    ws(spawn_rules=rules, move_rules=mv)


def spawn(m, e, mode, n):
    sp = m.spawning
    if mode == "initial":
        sp.add_initial_refugees(e, Data(0, n), w.loc(e, "KabKa"))
        return
    sp.add_initial_refugees(e, Data(0, 0), w.loc(e, "KabKa"))  # loads the tables
    if mode == "daily":
        sp.spawn_daily_displaced(e, 1, Data(n))
    elif mode == "agents":
        sp.spawn_agents(e, n)
    else:
        sp.spawn_daily_displaced(e, 1, Data(0))


def scenario(ctx, mode, tables, n, size=0):
    if tables is None:
        if os.path.isdir("input_csv"):
            shutil.rmtree("input_csv")
        tables = {}
    else:
        write(tables)
    typ = "flood_zone" if mode == "flood" else "conflict_zone"
    fl = {"flood_level": 1} if mode == "flood" else {}
    places = [dict(name="Kab", location_type=typ, pop=30, attributes=dict(fl)), dict(name="Ka", location_type=typ, pop=10, attributes=dict(fl)),
              dict(name="KabKa", location_type="camp")]
    links = [("Kab", "Ka", 10), ("Ka", "KabKa", 10)]
    W = None
    if size:
        W = fakempi.World(size)
        mode_settings(mode, W.settings)
    else:
        mode_settings(mode, w.settings)

    def once():
        if W:
            for m in W.m:
                w.reset_globals(m)
            W.build(places, links)
            W.each(lambda m, r: spawn(m, W.e[r], mode, n))
            agents = [a for e in W.e for a in e.agents]
        else:
            m = w.mods()
            w.reset_globals()
            e = w.build(places, links)
            spawn(m, e, mode, n)
            agents = e.agents
        return tuple(sorted((a.home_location.name, attrs(a)) for a in agents))
    got, ex = distribution(once)
    # expected: independent agents
    if mode in ("conflict", "flood"):
        each = [{"Kab": 1.0}, {"Ka": 1.0}]
    elif mode == "initial":
        each = [{"KabKa": 1.0}] * n
    else:
        each = [{"Kab": 0.75, "Ka": 0.25}] * n
        if n == 2:
            # the second place is drawn with the same weights: both are drawn before anyone leaves
            each = [{"Kab": 0.75, "Ka": 0.25}, {"Kab": 0.75, "Ka": 0.25}]
    exp = {(): 1.0}
    for pl in each:
        nxt = {}
        for k, p in exp.items():
            for place, q in pl.items():
                for at, r in want(tables, place).items():
                    kk = tuple(sorted(k + ((place, at),)))
                    nxt[kk] = nxt.get(kk, 0.0) + p * q * r
        exp = nxt
    ctx.same_dist(got, exp, "%s, %d agents, tables %r, processes %d" % (mode, n, tables, size))
    ctx.state((mode, n, repr(tables), size))
    ctx.transitions += ex.paths
    ctx.traces += len(got)


def check(ctx):
    T = ctx.thorough
    items = []
    W = [c for c in product((0, 1, 3), repeat=2) if sum(c)]
    W3 = [c for c in product((0, 1, 2.5), repeat=3) if sum(c)]
    modes = ("daily", "conflict", "flood", "initial", "agents")
    for mode in modes:
        items.append(("%s none" % mode, scenario, mode, None, 1))
        items.append(("%s empty folder" % mode, scenario, mode, {}, 1))
        for d, a in product(W, repeat=2):
            items.append(("%s %r %r" % (mode, d, a), scenario, mode, dict(age=((5, 40), dict(Default=d, Kab=a))), 1))
            items.append(("%s %r %r other column" % (mode, d, a), scenario, mode, dict(gender=(("f", "m"), dict(KabKa=a, Default=d))), 1))
        for d in W3:
            items.append(("%s three values %r" % (mode, d), scenario, mode, dict(age=((5, 40, 70), dict(Default=d, Kab=(0, 0, 1), KabKa=(2, 1, 0)))), 1))
        for d, a in product(W[:4] if not T else W, repeat=2):
            items.append(("%s two attributes %r %r" % (mode, d, a), scenario, mode,
                          dict(age=((5, 40), dict(Default=d, Ka=a)), gender=(("f", "m", "x"), dict(Default=(1, 2, 0), Kab=(0, 3, 1)))), 1))
        items.append(("%s blank weight" % mode, scenario, mode, dict(age=((5, 40), dict(Default=(1, 3), Kab=(None, 1), Ka=(2, None)))), 1))
        # a value in several rows, rows out of order, names with spaces
        for d, a in product(W3[:9:2] if not T else W3, repeat=2):
            items.append(("%s repeated value %r %r" % (mode, d, a), scenario, mode, dict(age=((40, 5, 40), dict(Default=d, Kab=a))), 1))
            items.append(("%s repeated text %r %r" % (mode, d, a), scenario, mode, dict(kind=(("not f", "f", "not f"), dict(Default=d, Ka=a))), 1))
        items.append(("%s same value throughout" % mode, scenario, mode, dict(age=((40, 40, 40), dict(Default=(1, 0, 2), Kab=(0, 0, 1)))), 1))
        items.append(("%s one row" % mode, scenario, mode, dict(age=((40,), dict(Default=(2,), Kab=(1,)))), 1))
        items.append(("%s only default" % mode, scenario, mode, dict(age=((40, 5), dict(Default=(2, 1)))), 1))
        five = (1, 2, 0, 4, 3)
        items.append(("%s five values" % mode, scenario, mode, dict(age=((5, 15, 25, 35, 45), dict(Default=five, Kab=five[::-1]))), 1))
        items.append(("%s three attributes" % mode, scenario, mode, dict(age=((5, 40), dict(Default=(1, 3), Kab=(3, 1))), gender=(("f", "m"), dict(Kab=(1, 4), Default=(1, 1))),
                      work=(("yes", "no"), dict(Ka=(1, 0), Default=(1, 2)))), 1))
    for mode in ("daily", "initial", "agents"):
        for d, a in product(W[:3], repeat=2):
            items.append(("%s two agents %r %r" % (mode, d, a), scenario, mode, dict(age=((5, 40), dict(Default=d, Kab=a))), 2))
    for size in (1, 2):
        for mode in modes:
            items.append(("par %d %s" % (size, mode), scenario, mode, dict(age=((5, 40), dict(Default=(1, 2), Kab=(1, 0)))), 1, size))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(values=3, columns=3, attributes=2, agents=2, processes=2)
