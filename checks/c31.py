"""Exchanges between real coupled models (file coupling between sequential models and with parallel models, MUSCLE coupling
with managers over recorded channels) for every assignment of directions to two places on both sides, small occupancies,
instance counts and intervals: occupancies, agents, totals and exchange logs after every exchange against the announced
numbers."""
import csv
import os
import queue
import shutil
import threading
from itertools import product
from mc import env, fakempi, sched, world as w

NAMES = ["Alpha", "Alpha2"]
DIRS = [None, "in", "out", "inout"]


def occupancy(pattern, side, inst, t, k):
    """Agents of instance inst at coupled place k just before exchange t."""
    s = 0 if side == "macro" else 1
    return [(s + 2 * k + inst + t) % 4, (3 * s + k + 2 * inst + t) % 3, 0 if s == 0 else 1 + inst + t, (1 + k) * (inst + 1) if s == 0 else 0][pattern]


def mean(xs):
    return int(round(sum(xs) / float(len(xs)))) if xs else 0


class Model:
    """One instance of one side: the real ecosystem and interface, and what it should hold."""

    def __init__(self, C, side, inst, ninst, kind, directory, dirs, interval, log, alias, eco=None):
        self.side, self.inst, self.ninst, self.dirs = side, inst, ninst, dirs
        locs, links = layout()
        self.e = eco if eco is not None else w.build(locs, links)
        w.loc(self.e, "Gone").attributes["deactivation_probability"] = 1.0
        kw = {} if kind == "file" else {}
        self.c = C.CouplingInterface(self.e, side, instance_index=inst, num_instances=ninst, coupling_type=kind, outputdir=directory, log_exchange_data=log, **kw)
        for k, n in enumerate(NAMES):
            if dirs[k]:
                self.c.addCoupledLocation(w.loc(self.e, n), alias[k] if side == "macro" else n, direction=dirs[k], interval=interval)
        if kind == "file":
            self.c.setCouplingChannel(outputchannel="out" if side == "micro" else "in", inputchannel="in" if side == "micro" else "out")

    def fill(self, pattern, t):
        """Adds agents until the coupled places hold the numbers of the pattern."""
        for k, n in enumerate(NAMES):
            here = self.count(n)
            self.e.insertAgents(w.loc(self.e, n), max(0, occupancy(pattern, self.side, self.inst, t, k) - here))
        if t == 0:
            self.e.insertAgents(w.loc(self.e, "Rest"), 1 + self.inst)
            self.e.insertAgents(w.loc(self.e, "Gone"), 1)
            self.e.insertAgents(w.loc(self.e, "Start"), 2)

    def count(self, n):
        return sum(1 for a in self.e.agents if w.place(a) == ("loc", n))

    def snapshot(self):
        d = {}
        for a in self.e.agents:
            p = w.place(a)
            d[p] = d.get(p, 0) + 1
        return d


def layout():
    return ([dict(name="Alpha", location_type="town"), dict(name="Alpha2", location_type="town"), dict(name="Rest", location_type="town"),
             dict(name="Gone", location_type="camp"), dict(name="Start", location_type="conflict_zone"), dict(name="Far", location_type="town")],
            [("Alpha", "Rest", 100.0), ("Alpha2", "Rest", 100.0), ("Start", "Far", 5000.0)])


def configure(S=None):
    return dict(move_rules=dict(conflict_movechance=1.0, default_movechance=0.0, camp_movechance=0.0, max_move_speed=360.0), spawn_rules=dict(camps_are_sinks=True))


def announced(models, side, k):
    """The numbers the instances of the other side announce for place k."""
    return [m.count(NAMES[k]) for m in models if m.side != side and m.dirs[k] and "out" in m.dirs[k]]


def verify(ctx, what, m, before, incoming, e=None):
    """m after an exchange: coupled places hold what came in, everything else is as before."""
    want = {p: n for p, n in before.items() if p[0] != "loc" or p[1] not in NAMES}
    for k, n in enumerate(NAMES):
        if m.dirs[k] is None:
            x = before.get(("loc", n), 0)
        else:
            x = incoming[k] if "in" in m.dirs[k] else 0
        if x:
            want[("loc", n)] = x
    got = m.snapshot()
    if got != want:
        ctx.fail("%s: %s[%d] holds %r after the exchange, expected %r (before: %r)" % (what, m.side, m.inst, got, want, before))
    for l in m.e.locations:
        # agents deactivated in a camp still count there, and are nowhere else
        x = want.get(("loc", l.name), 0) + (want.get(("none",), 0) if l.name == "Gone" else 0)
        if l.numAgents != x:
            ctx.fail("%s: %s[%d] counts %r agents at %s, expected %d" % (what, m.side, m.inst, l.numAgents, l.name, x))
        for k in l.links:
            x = sum(n for p, n in want.items() if p[0] == "link" and p[1:3] == (l.name, k.endpoint.name))
            if k.numAgents != x:
                ctx.fail("%s: %s[%d] counts %r agents on the road %s-%s, expected %d" % (what, m.side, m.inst, k.numAgents, l.name, k.endpoint.name, x))
    if m.e.numAgents() != sum(want.values()):
        ctx.fail("%s: %s[%d] has %r agents in total, expected %d" % (what, m.side, m.inst, m.e.numAgents(), sum(want.values())))


def logs(ctx, what, m, kind, directory, rows):
    m.c.saveExchangeDataToFile()
    d = os.path.join(directory, kind, "log_exchange_data")
    out = [k for k in range(len(NAMES)) if m.dirs[k] and "out" in m.dirs[k]]
    for fn, want in (("logTotalAgents_%s[%d].csv" % (m.side, m.inst), [["day", "total_agents"]] + [[str(t), str(sum(b.values()))] for t, b in rows]),
                     ("logLocationsNumAgents_%s[%d].csv" % (m.side, m.inst), [["day"] + [m.c.names[m.c.location_names.index(NAMES[k])] for k in out]] + [[str(t)] + [str(b.get(("loc", NAMES[k]), 0)) for k in out] for t, b in rows])):
        if not rows:
            continue
        with open(os.path.join(d, fn)) as f:
            got = list(csv.reader(f))
        if got != want:
            ctx.fail("%s: %s contains %r, expected %r" % (what, fn, got, want))


def run(ctx, what, kind, dmacro, dmicro, pattern, ninst, steps, interval, log, alias=tuple(NAMES)):
    import flee.coupling as C
    w.settings(**configure())
    base = os.path.join(env.SCRATCH, "fs%d" % os.getpid())
    if os.path.isdir(base):
        shutil.rmtree(base)
    for d in ("coupled", "log_exchange_data"):
        os.makedirs(os.path.join(base, kind, d))
    dirs = dict(macro=dmacro, micro=dmicro)
    net = Channels(ninst)
    real = C.Instance
    try:
        models, managers = [], []
        for side in ("macro", "micro"):
            for i in range(ninst):
                C.Instance = lambda ports, side=side, i=i: net.instance(side, i)
                models.append(Model(C, side, i, ninst, kind, base, dirs[side], interval, log, alias))
            if kind == "muscle3":
                C.Instance = lambda ports, side=side: net.instance(side + "_manager", -1)
                # the manager collects from one side for the other, so it knows the places of both
                managers.append(Model(C, side + "_manager", -1, ninst, kind, base, [a or b for a, b in zip(dmacro, dmicro)], interval, False, alias).c)
        rows = {id(m): [] for m in models}
        for t in range(steps):
            for m in models:
                m.fill(pattern, t)
            before = {id(m): m.snapshot() for m in models}
            incoming = {s: [mean(announced(models, s, k)) if alias[k] == NAMES[k] or kind == "muscle3" else 0 for k in range(len(NAMES))] for s in dirs}
            on = t % interval == 0
            couple(ctx, what, kind, base, [lambda c=c: c.Couple(time=t) for c in [m.c for m in models] + managers])
            ctx.transitions += 1
            for m in models:
                b = before[id(m)]
                if on:
                    rows[id(m)].append((t, b))
                    verify(ctx, "%s, step %d" % (what, t), m, b, incoming[m.side])
                elif m.snapshot() != b:
                    ctx.fail("%s, step %d: agents moved at a step without an exchange: %r, before %r" % (what, t, m.snapshot(), b))
            ctx.state((what, t, repr([m.snapshot() for m in models])))
            for m in models:
                m.e.evolve()
        if log:
            for m in models:
                logs(ctx, what, m, kind, base, rows[id(m)])
    finally:
        C.Instance = real
    ctx.traces += 1
    shutil.rmtree(base)


def couple(ctx, what, kind, base, jobs):
    if kind == "file":
        r = sched.once(jobs, base)
        if any(s != "done" for s in r.state):
            ctx.fail("%s: the exchange does not end: %r" % (what, r.state))
        return
    err = []

    def body(f):
        try:
            f()
        except BaseException as ex:
            err.append(ex)
    ts = [threading.Thread(target=body, args=(f,), daemon=True) for f in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join(20)
    if err:
        raise err[0]
    if any(t.is_alive() for t in ts):
        ctx.fail("%s: the exchange does not end" % what)


class Channels:
    """The MUSCLE conduits: macro[i].out - macro_manager.in[i], macro_manager.out[i] - micro[i].in, and the other way round.
    Every port has one sender and one receiver, so the outcome does not depend on timing."""

    def __init__(self, n):
        self.q = {}

    def queue(self, k):
        return self.q.setdefault(k, queue.Queue())

    def instance(self, who, i):
        return _Instance(self, who, i)


class _Instance:
    def __init__(self, net, who, i):
        self.net, self.who, self.i = net, who, i

    def reuse_instance(self):
        return True

    def _port(self, port, slot):
        if self.who.endswith("_manager"):
            me = self.who[:-8]
            if slot is None:
                raise RuntimeError("a vector port needs a slot")
            return ("up", me, slot) if port == "in" else ("down", "micro" if me == "macro" else "macro", slot)
        return ("up", self.who, self.i) if port == "out" else ("down", self.who, self.i)

    def send(self, port, msg, slot=None):
        if port != "out":
            raise RuntimeError("cannot send on %s" % port)
        self.net.queue(self._port(port, slot)).put(msg)

    def receive(self, port, slot=None, default=None):
        if port != "in":
            raise RuntimeError("cannot receive on %s" % port)
        return self.net.queue(self._port(port, slot)).get(timeout=15)


def parallel(ctx, what, dmacro, dmicro, pattern, size, steps, latency):
    """A parallel macro model; the partner's files are there already."""
    import flee.coupling as C
    base = os.path.join(env.SCRATCH, "fs%d" % os.getpid())
    if os.path.isdir(base):
        shutil.rmtree(base)
    for d in ("coupled", "log_exchange_data"):
        os.makedirs(os.path.join(base, "file", d))
    w.settings(**configure())
    locs, links = layout()
    W = fakempi.World(size)
    W.settings(**configure())
    W.build(locs, links, latency_mode=latency)
    P = W.each(lambda m, r: Model(m.coupling, "macro", 0, 1, "file", base, dmacro, 1, True, NAMES, eco=W.e[r]))
    s = Model(C, "micro", 0, 1, "file", base, dmicro, 1, True, NAMES)

    def total():
        d = {}
        for p in P:
            for k, n in p.snapshot().items():
                d[k] = d.get(k, 0) + n
        return d
    for t in range(steps):
        b = total()
        for k, n in enumerate(NAMES):
            x = max(0, occupancy(pattern, "macro", 0, t, k) - b.get(("loc", n), 0))
            W.run(lambda e: e.insertAgents(w.loc(e, n), x))
        if t == 0:
            W.run(lambda e: [e.insertAgents(w.loc(e, n), k) for n, k in (("Rest", 1), ("Gone", 1), ("Start", 2))] and None)
        s.fill(pattern, t)
        b = total()
        sb = s.snapshot()
        s.c.writeOutputToFile(day=t)
        W.each(lambda m, r: P[r].c.Couple(time=t))
        couple(ctx, what, "file", base, [lambda: s.c.Couple(time=t)])
        ctx.transitions += 1
        here = "%s, step %d" % (what, t)
        inc = [sb.get(("loc", n), 0) if dmicro[k] and "out" in dmicro[k] else 0 for k, n in enumerate(NAMES)]
        out = [b.get(("loc", n), 0) if dmacro[k] and "out" in dmacro[k] else 0 for k, n in enumerate(NAMES)]
        verify(ctx, here, s, sb, out)
        got = total()
        want = {p: n for p, n in b.items() if p[0] != "loc" or p[1] not in NAMES}
        for k, n in enumerate(NAMES):
            x = b.get(("loc", n), 0) if dmacro[k] is None else inc[k] if "in" in dmacro[k] else 0
            if x:
                want[("loc", n)] = x
        if got != want:
            ctx.fail("%s: the parallel model holds %r after the exchange, expected %r (before: %r)" % (here, got, want, b))
        for r, p in enumerate(P):
            for k, n in enumerate(NAMES):
                if w.loc(p.e, n).numAgents != want.get(("loc", n), 0):
                    ctx.fail("%s: process %d counts %r agents at %s, expected %d" % (here, r, w.loc(p.e, n).numAgents, n, want.get(("loc", n), 0)))
            if p.e.numAgents() != sum(want.values()):
                ctx.fail("%s: process %d has %r agents in total, expected %d" % (here, r, p.e.numAgents(), sum(want.values())))
        ctx.state((what, t, repr(got)))
        W.evolve()
        s.e.evolve()
    ctx.traces += 1
    shutil.rmtree(base)


def places(ctx, what, types, roads):
    """The ghost and conflict places that are coupled automatically."""
    import flee.coupling as C
    w.settings(**configure())
    m = w.mods()
    names = ["P%d" % i for i in range(len(types))]
    d = os.path.join(env.SCRATCH, "ig%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "l.csv"), "w") as f:
        f.write('#"name","region","country","latitude","longitude","location_type","conflict_date","population"\n')
        for n, t in zip(names, types):
            f.write("%s,R,C,1.0,2.0,%s,0,100\n" % (n, t))
    with open(os.path.join(d, "r.csv"), "w") as f:
        f.write("#name1,name2,distance,forced_redirection\n")
        for a, b in roads:
            f.write("%s,%s,100,0\n" % (names[a], names[b]))
    m.S.ConflictInputFile = ""
    ig = m.IG.InputGeography()
    ig.ReadLocationsFromCSV(os.path.join(d, "l.csv"))
    ig.ReadLinksFromCSV(os.path.join(d, "r.csv"))
    with open(os.path.join(d, "c.csv"), "w") as f:
        f.write("#closure_type,name1,name2,closure_start,closure_end\n")
    ig.ReadClosuresFromCSV(os.path.join(d, "c.csv"))
    e = m.F.Ecosystem()
    e, lm = ig.StoreInputGeographyInEcosystem(e)
    linked = {x for r in roads for x in r}
    for side, want in (("macro", [(n, "out") for i, n in enumerate(names) if types[i] == "conflict_zone" and i not in linked]),
                       ("micro", [(n, "in") for i, n in enumerate(names) if types[i] == "conflict_zone"])):
        c = C.CouplingInterface(e, side, 0, 1)
        c.addGhostLocations(ig) if side == "macro" else c.addMicroConflictLocations(ig)
        got = list(zip(c.location_names, c.directions))
        if sorted(got) != sorted(want) or c.names != c.location_names or [e.locations[i].name for i in c.location_ids] != c.location_names:
            ctx.fail("%s: the %s model couples %r (%r), expected %r" % (what, side, got, c.names, want))
        ctx.transitions += 1
    ctx.state(what)
    ctx.traces += 1
    shutil.rmtree(d)


def check(ctx):
    import importlib
    importlib.import_module("flee.coupling")
    th = ctx.thorough
    items = []
    pairs = [d for d in product(DIRS, DIRS) if any(d)]
    j = 0
    for a in pairs:
        for b in pairs:
            for pattern in range(4) if th else (j % 4,):
                for ninst in (1, 2, 3) if th else (1 + j % 2,):
                    items.append(("file coupling %r with %r, pattern %d, %d instances" % (a, b, pattern, ninst), run, "file", a, b, pattern, ninst, 2, 1, j % 3 == 0))
                    j += 1
    few = [("inout", "inout"), ("in", "out"), ("out", "in"), ("inout", None)]
    for a in few:
        for b in few:
            for pattern in range(4):
                for ninst in (1, 2, 3):
                    items.append(("file coupling %r with %r, pattern %d, %d instances, logs" % (a, b, pattern, ninst), run, "file", a, b, pattern, ninst, 3, 1, True))
                    items.append(("MUSCLE coupling %r with %r, pattern %d, %d instances" % (a, b, pattern, ninst), run, "muscle3", a, b, pattern, ninst, 2, 1, True))
            for interval in (2, 3):
                items.append(("file coupling %r with %r, every %d steps" % (a, b, interval), run, "file", a, b, 0, 1, 4, interval, True))
                items.append(("MUSCLE coupling %r with %r, every %d steps" % (a, b, interval), run, "muscle3", a, b, 0, 1, 4, interval, True))
            for size in (1, 2, 3) + ((4,) if th else ()):
                for pattern in range(4):
                    items.append(("parallel file coupling %r with %r, pattern %d, %d processes" % (a, b, pattern, size), parallel, a, b, pattern, size, 2, ("high_latency", "low_latency")[(pattern + size) % 2]))
    items.append(("a partner with other names", run, "file", ("inout", "inout"), ("inout", "inout"), 0, 1, 2, 1, True, ("Alpha", "Gamma")))
    for n in (1, 2, 3):
        for types in product(("town", "conflict_zone", "camp"), repeat=n):
            for roads in ([], [(0, 1)], [(1, 2)], [(0, 1), (1, 2)]):
                if all(x < n for r in roads for x in r):
                    items.append(("places %r, roads %r" % (types, roads), places, types, roads))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(x[0], x[1], c, x[0], *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(direction_assignments=len(pairs) ** 2, places=2, instances=3, exchanges=3, intervals="1-3", processes=4 if th else 3, occupancy="0-4")
