"""All histories of a small parallel world up to a depth: every sequence of daily operations (adding agents in the different
ways, clearing places, closing, reopening and removing roads and places) and every random outcome on every process; after
every operation and step the counts held by every process are compared with the agents that actually exist."""
import json
import os

from mc import world as w, fakempi, conform, env
from mc.chance import Explorer

LOCS = [dict(name="Kab", location_type="conflict_zone", pop=10), dict(name="Ka", location_type="town"), dict(name="KabKa", location_type="camp"),
        dict(name="KaKab", location_type="idpcamp"), dict(name="KaKa", location_type="idpcamp")]
LINKS = {
    "near": [("Kab", "Ka", 100.0), ("Ka", "KabKa", 100.0), ("Kab", "KaKab", 300.0), ("Ka", "KaKa", 350.0)],
    "far": [("Kab", "Ka", 400.0), ("Ka", "KabKa", 400.0), ("Kab", "KaKab", 900.0), ("KaKab", "KaKa", 250.0)],
}
OPS = {
    "-": None,
    "add A": (1, lambda e, m: e.addAgent(w.loc(e, "Kab"), {"x": "1"})),
    "add D": (1, lambda e, m: e.addAgent(w.loc(e, "KaKab"), {})),
    "add 2 to E": (2, lambda e, m: e.insertAgents(w.loc(e, "KaKa"), 2)),
    "insert at C": (1, lambda e, m: e.insertAgent(w.loc(e, "KabKa"), {})),
    "clear D": (["KaKab"], lambda e, m: e.clearLocationsFromAgents(["KaKab"])),
    "clear B and E": (["Ka", "KaKa"], lambda e, m: e.clearLocationsFromAgents(["KaKa", "Ka", "Z"])),
    "close road A-B": (0, lambda e, m: e.close_link("Kab", "Ka", twoway=True)),
    "reopen road A-B": (0, lambda e, m: e.reopen_link("Kab", "Ka", twoway=True)),
    "remove road A-D": (0, lambda e, m: e.remove_link("Kab", "KaKab", twoway=True)),
    "close place B": (0, lambda e, m: e.close_location("Ka")),
    "B becomes a camp": (0, lambda e, m: setattr(w.loc(e, "Ka"), "idpcamp", True)),
}


def node(a):
    p = w.place(a)
    return p[1] if p[0] == "loc" else p[1:3]


def agents_of(ecos):
    n = {}
    for e in ecos:
        for a in e.agents:
            n[node(a)] = n.get(node(a), 0) + 1
    return n


def verify(ctx, what, ecos, total, balanced, roads, spawned=None, closed=False):
    n = agents_of(ecos)
    lens = [len(e.agents) for e in ecos]
    if sum(lens) != total:
        ctx.fail("%s: %d agents were added (and not removed), the processes hold %r" % (what, total, lens))
    if balanced and max(lens) - min(lens) > 1:
        ctx.fail("%s: the processes hold %r agents" % (what, lens))
    for r, e in enumerate(ecos):
        if e.numAgents() != total:
            ctx.fail("%s: process %d reports %r agents in total, there are %d" % (what, r, e.numAgents(), total))
        if e.numAgentsOnRank() != lens[r]:
            ctx.fail("%s: process %d reports %r agents of its own, it has %d" % (what, r, e.numAgentsOnRank(), lens[r]))
        if not roads:
            continue
        for l in e.locations:
            if l.numAgents != n.get(l.name, 0):
                ctx.fail("%s: process %d has %r agents at %s, there are %d (%r)" % (what, r, l.numAgents, l.name, n.get(l.name, 0), n))
            for k in list(l.links) + (list(l.closed_links) if closed else []):
                x = (l.name, k.endpoint.name)
                if k.numAgents != n.get(x, 0):
                    ctx.fail("%s: process %d has %r agents on the road %s-%s, there are %d (%r)" % ((what, r, k.numAgents) + x + (n.get(x, 0), n)))
            if spawned is not None and l.numAgentsSpawned != spawned.get(l.name, 0):
                ctx.fail("%s: process %d has %r agents spawned at %s, there were %d" % (what, r, l.numAgentsSpawned, l.name, spawned.get(l.name, 0)))
        want = sum(n.get(l.name, 0) for l in e.locations if l.idpcamp)
        if e.numIDPs() != want:
            ctx.fail("%s: process %d reports %r internally displaced people, there are %d" % (what, r, e.numIDPs(), want))


def run(ctx, what, size, net, mode, latency, pop, start, days, ops, chance, aware):
    W = fakempi.World(size)
    W.settings(move_rules=dict(awareness_level=aware, conflict_movechance=1.0, default_movechance=chance, camp_movechance=0.0, idpcamp_movechance=chance, max_move_speed=360.0 if net == "far" else 210.0),
               spawn_rules=dict(take_from_population=pop))
    W.build(LOCS, LINKS[net], parallel_mode=mode, latency_mode=latency)
    for k in start:
        W.run(lambda e: e.addAgent(w.loc(e, k), {}))
        ctx.transitions += 1
    spawned = {k: start.count(k) for k in start} if pop else {}
    verify(ctx, what + " at the start", W.e, len(start), True, False)
    layer = {("start",): (W.save(), len(start), True, spawned, ())}
    for t in range(days):
        nxt = {}
        for s, total, balanced, spawned, hist in layer.values():
            for op in ops:
                W.load(s)
                tot, bal, sp = total, balanced, dict(spawned)
                here = "%s, day %d, %s" % (what, t, " / ".join(hist + (op,)))
                if OPS[op]:
                    k, fn = OPS[op]
                    if pop and op == "add D":
                        continue
                    if isinstance(k, list):
                        n = agents_of(W.e)
                        gone = sum(n.get(x, 0) for x in k)
                        tot -= gone
                        bal = bal and not gone
                    else:
                        tot += k
                        if pop and op == "add A":
                            sp["Kab"] = sp.get("Kab", 0) + 1
                    W.each(lambda m, r: fn(W.e[r], m))
                    verify(ctx, here, W.e, tot, bal, isinstance(k, list), None)
                    ctx.transitions += 1
                s1 = W.save()

                def once():
                    W.load(s1)
                    W.evolve()
                    verify(ctx, here + ", after the step", W.e, tot, bal, True, sp)
                    # an explicit recount, closed roads included, changes nothing but the counts of those
                    W.run(lambda e: e.updateNumAgents(CountClosed=True, log=False))
                    verify(ctx, here + ", after a recount", W.e, tot, bal, True, sp, closed=True)
                    key = repr(([w.eco_key(e) for e in W.e], tot, bal))
                    return key, W.save() if t + 1 < days and key not in nxt else None
                for p, (key, s2), trace in Explorer().explore(once):
                    ctx.transitions += 1
                    ctx.traces += 1
                    ctx.state((what, t, key))
                    if s2 is not None:
                        nxt[key] = (s2, tot, bal, sp, hist + (op,))
        layer = nxt


def real(ctx, what, size, mode, latency, fixed):
    """The MPI stand-in against the real MPI: one story without chance, everything every process holds after each step."""
    d = os.path.join(os.getcwd(), "mpi")
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    hello = os.path.join(d, "hello")
    conform.launch(size, ["-m", "mc.conform", "hello", hello, "-", "-", "-", "-"], d)
    if [open("%s.%d" % (hello, r)).read() if os.path.exists("%s.%d" % (hello, r)) else "" for r in range(size)] != [str(size)] * size:
        ctx.sample("no usable MPI here: %s not run" % what)
        return
    yml, out = os.path.join(d, "s.yml"), os.path.join(d, "out")
    conform.write_yml(yml, fixed)
    W = fakempi.World(size)
    for m in W.m:
        w.reset_globals(m)
        fakempi.forget(m)
    want = W.each(lambda m, r: conform.story(m.P, m.S, yml, mode, latency, fixed))
    rc, err = conform.launch(size, ["-m", "mc.conform", env.REPO, out, yml, mode, latency, str(int(fixed))], d)
    if rc and "Traceback" not in err:
        ctx.sample("the real MPI could not run %s (%d): %s" % (what, rc, err[-200:]))
        return
    if rc:
        ctx.fail("%s: the real run failed (%d): %s" % (what, rc, err[-600:]))
    for r in range(size):
        got = json.load(open("%s.%d" % (out, r)))
        exp = json.loads(json.dumps(want[r]))
        ctx.traces += 1
        for t, (g, x) in enumerate(zip(got, exp)):
            ctx.transitions += 1
            if g != x:
                ctx.fail("%s: process %d, observation %d: the real MPI gives %r, the stand-in %r" % (what, r, t, g, x))
        ctx.eq(len(got), len(exp), what)


def check(ctx):
    th = ctx.thorough
    items = []
    for size in (2, 3, 4) if th else (2, 3):
        for i, mode in enumerate(("classic", "loc-par")):
            for j, latency in enumerate(("high_latency", "low_latency")):
                for fixed in (False, True):
                    if th or (size + i + j) % 2 == fixed:
                        n = "real MPI, %d processes, %s, %s, fixed routes %s" % (size, mode, latency, fixed)
                        items.append((n, real, size, mode, latency, fixed))
    ALL = list(OPS)
    for size in (1, 2, 3, 4) if th else (1, 2, 3):
        for net in LINKS:
            for mode in ("classic", "loc-par"):
                for latency in ("high_latency", "low_latency"):
                    base = (run, size, net, mode, latency)
                    tag = "%d processes, %s roads, %s, %s" % (size, net, mode, latency)
                    for start in [(), ("Kab",), ("Kab", "Ka"), ("Kab", "Ka", "KaKab")] + ([("Kab", "Ka", "KaKab", "KaKa"), ("Kab", "Kab", "Ka", "KabKa")] if th else []):
                        items.append(("%s, all operations, agents at %s" % (tag, " ".join(start) or "none"),) + base + (False, start, 1, ALL, 0.5 if net == "far" or th else 1.0, 0))
                    items.append((tag + ", population",) + base + (True, ("Kab",), 2, ["-", "add A", "clear D"], 1.0, 0))
                    if th or net == "far" or (mode, latency, size) == ("loc-par", "high_latency", 2):
                        items.append((tag + ", histories",) + base + (False, ("Kab",), 3 if th and net == "far" else 2, ALL, 1.0, 1))
                    if th and net == "far":
                        items.append((tag + ", slow histories",) + base + (False, ("Kab",), 2, ALL, 0.5, 1))
    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(x[0], x[1], c, x[0], *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(processes=4 if th else 3, operations=len(OPS), days=3 if th else 2, networks=len(LINKS), modes=4, real_mpi_runs=24 if th else 8)

