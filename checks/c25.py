"""Exact outcome distribution, over all random draws, of small sequential and parallel simulations with camps as sinks:
compared with the distribution of the same simulation without sinks combined with independent deactivations, while the
totals, the frozen state and the log lines of deactivated agents are checked in every outcome."""
import os
from itertools import combinations_with_replacement as cwr, product
from mc import world as w, fakempi
from mc.chance import distribution

PROBS = [None, 0, 0.25, 1, 1.0, "0.25", "1.0", "1", "", "0", "0.0"]


def prob(p):
    return float(p) if p not in (None, "") else 0.0


def layout(kind, p, q):
    """p: probability attribute of camp C, q: of everything that is not a camp."""
    def at(x):
        return {} if x is None else {"deactivation_probability": x}
    if kind == "chain":
        locs = [dict(name="T", location_type="town", attributes=at(q)), dict(name="C", location_type="camp", attributes=at(p)),
                dict(name="F", location_type="conflict_zone", attributes=at(q)), dict(name="M", location_type="marker", attributes=at(q)),
                dict(name="I", location_type="idpcamp", attributes=at(p)), dict(name="X", location_type="town", attributes=at(q))]
        links = [("T", "C", 100.0, {"oneway": True}), ("F", "C", 500.0, {"oneway": True}), ("M", "C", 30.0, {"oneway": True})]
    else:
        locs = [dict(name="T", location_type="town", attributes=at(q)), dict(name="C", location_type="camp", attributes=at(p)),
                dict(name="D", location_type="camp", attributes={"deactivation_probability": "0.5"})]
        links = [("T", "C", 200.0), ("C", "D", 200.0, {"oneway": True})]
    return locs, links


def where(a):
    p = w.place(a)
    return p[1] if p[0] == "loc" else "gone" if p[0] == "none" else "%s-%s" % p[1:3]


def frozen(a):
    return (a.timesteps_since_departure, a.places_travelled, a.travelling, tuple(a.route or ()), tuple(sorted(a.attributes.items())), a.distance_travelled_on_link)


def simulate(ctx, what, kind, p, q, start, size, sinks, steps, log, mc):
    locs, links = layout(kind, p, q)
    yml = dict(move_rules=dict(camp_movechance=mc, idpcamp_movechance=0.0, default_movechance=1.0 if kind == "chain" else 0.5, conflict_movechance=1.0, max_move_speed=360.0),
               spawn_rules=dict(camps_are_sinks=sinks), log_levels=dict(agent=log))
    W = fakempi.World(size) if size > 1 else None
    (W.settings if W else w.settings)(**yml)

    def once():
        if W:
            ecos = W.build(locs, links)
            W.run(lambda e: [e.addAgent(w.loc(e, n), {"k": "v"}) for n in start])
        else:
            e = w.build(locs, links)
            for n in start:
                e.addAgent(w.loc(e, n), {"k": "v"})
            ecos = [e]
        # global order of the agents: by home, stable per process
        agents = [(r, k, a) for r, e in enumerate(ecos) for k, a in enumerate(e.agents)]
        order = sorted(range(len(agents)), key=lambda i: (agents[i][2].home_location.name, agents[i][0], agents[i][1]))
        trace, gone = [], {}
        for t in range(steps):
            active = {"%d-%d" % agents[i][:2] for i in order if i not in gone}
            if W:
                W.evolve()
            else:
                ecos[0].evolve()
            now = []
            for i in order:
                a = agents[i][2]
                here = where(a)
                if here == "gone":
                    if i not in gone:
                        gone[i] = frozen(a)
                    elif gone[i] != frozen(a):
                        ctx.fail("%s: a deactivated agent changed in step %d: %r -> %r" % (what, t, gone[i], frozen(a)))
                elif i in gone:
                    ctx.fail("%s: a deactivated agent is back at %s in step %d" % (what, here, t))
                now.append(here)
            trace.append(tuple(now))
            # totals
            if not W or sinks or True:
                for e in ecos:
                    tot = 0
                    for l in e.locations:
                        tot += l.numAgents + sum(k.numAgents for k in l.links + l.closed_links)
                    if tot != len(start):
                        ctx.fail("%s: after step %d the places hold %d agents in total, %d were added" % (what, t, tot, len(start)))
                    for l in e.locations:
                        n = sum(1 for x in now if x == l.name)
                        m = sum(1 for x in now if x == "gone")
                        if not l.camp and l.numAgents != n or l.camp and not n <= l.numAgents <= n + m:
                            ctx.fail("%s: after step %d location %s has %d agents, %d active ones are there and %d were deactivated" % (what, t, l.name, l.numAgents, n, m))
                    if e.numAgents() != (len(e.agents) if not W else len(start)):
                        ctx.fail("%s: after step %d numAgents() is %d" % (what, t, e.numAgents()))
            if log:
                ids = set()
                for r in range(size):
                    with open("agents.out.%d" % r) as f:
                        for line in f:
                            c = line.rstrip("\n").split(",")
                            if c[0] == str(t):
                                ids.add(c[1])
                if ids != active:
                    ctx.fail("%s: step %d logs agents %r, active are %r" % (what, t, sorted(ids), sorted(active)))
            ctx.transitions += 1
        return tuple(trace)
    return distribution(once)


def expected(off, p, order):
    """Combine traces without sinks with independent deactivations."""
    prb = dict(C=prob(p), I=prob(p), D=0.5)
    out = {}
    for tr, pr in off.items():
        n = len(tr[0]) if tr else 0
        per = []
        for i in range(n):
            d, alive = {}, 1.0
            for t in range(len(tr)):
                x = prb.get(tr[t][i], 0.0)
                if x > 0 and alive > 0:
                    d[t] = alive * x
                    alive *= 1 - x
            if alive > 0:
                d[None] = alive
            per.append(d)
        for combo in product(*[d.items() for d in per]):
            q, cut = pr, []
            for t, x in combo:
                q *= x
                cut.append(t)
            key = tuple(tuple("gone" if cut[i] is not None and t >= cut[i] else tr[t][i] for i in range(n)) for t in range(len(tr)))
            out[key] = out.get(key, 0.0) + q
    return out


def case(ctx, kind, p, q, start, size, steps, log, mc=0.0):
    what = "%s, camps %r, other places %r, agents at %r, %d process(es), log level %d" % (kind, p, q, start, size, log)
    off, _ = simulate(ctx, what + ", sinks off", kind, p, q, start, size, False, steps, log, mc)
    for tr in off:
        if any("gone" in x for x in tr):
            ctx.fail("%s: an agent is deactivated although sinks are off" % what)
    on, ex = simulate(ctx, what, kind, p, q, start, size, True, steps, log, mc)
    want = expected(off, p, start)
    if abs(sum(want.values()) - 1) > 1e-9:
        raise AssertionError("reference")
    for k in set(on) | set(want):
        if abs(on.get(k, 0) - want.get(k, 0)) > 1e-9:
            ctx.fail("%s: outcome %r has probability %g, expected %g" % (what, k, on.get(k, 0), want.get(k, 0)))
    for k in on:
        ctx.state((what, k))
    ctx.traces += len(on)


def loaded(ctx, p, col):
    """The probability comes from a column of locations.csv."""
    m = w.mods()
    what = "probability %r in column %d of locations.csv" % (p, col)
    w.settings(spawn_rules=dict(camps_are_sinks=True), move_rules=dict(camp_movechance=0.0))
    if os.path.exists("location_changes.csv"):
        os.unlink("location_changes.csv")
    heads = ["other"] * col + ["deactivation_probability"]
    with open("l.csv", "w") as f:
        f.write("#name,region,country,gps_x,gps_y,location_type,conflict_date,pop/cap,%s\n" % ",".join(heads))
        f.write("A,r,X,0,0,conflict_zone,0,100%s,1.0\n" % (",z" * col))
        f.write("C,r,X,0,0,camp,0,100%s,%s\n" % (",z" * col, p))
    for fn, h in (("r.csv", "#name1,name2,distance,forced_redirection"), ("c.csv", "#type,name1,name2,s,e")):
        with open(fn, "w") as f:
            f.write(h + "\n")

    def once():
        ig = m.IG.InputGeography()
        ig.ReadLocationsFromCSV("l.csv")
        ig.ReadLinksFromCSV("r.csv")
        ig.ReadClosuresFromCSV("c.csv")
        e = m.F.Ecosystem()
        e.print_location_output = False
        e, lm = ig.StoreInputGeographyInEcosystem(e)
        e.addAgent(lm["C"], {})
        e.addAgent(lm["A"], {})
        e.evolve()
        return tuple(where(a) for a in e.agents)
    got, _ = distribution(once)
    x = prob(p)
    want = {k: v for k, v in {("gone", "A"): x, ("C", "A"): 1 - x}.items() if v > 0}
    if set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-9 for k in want):
        ctx.fail("%s: outcomes %r, expected %r" % (what, got, want))
    ctx.state(what)
    ctx.transitions += len(got)


def check(ctx):
    items = []
    nmax, steps = (3, 4) if ctx.thorough else (2, 3)
    sizes = (1, 2, 3) if ctx.thorough else (1, 2)
    for size in sizes:
        for p, q in product(PROBS, (None, "1.0", 1)):
            if size > 1 and q == 1:
                continue
            for n in range(0, nmax + 1):
                for start in cwr("TCFMIX", n):
                    if n > 1 and (p not in (0.25, "1.0", "0") or q != "1.0"):
                        continue
                    for log in (0, 1, 2, 3) if n == 1 else (0, 1):
                        items.append(("chain %r %r %r %d %d" % (p, q, start, size, log), case, "chain", p, q, start, size, steps, log))
        for p, mc, n in product((0.25, "0.25", 1, None), (0.5, 0.25), (1, 2)):
            if n == 2 and (size > 1 or mc == 0.25):
                continue
            for start in cwr("TCD" if n == 1 else "TC", n):
                items.append(("mobile camp %r %r %r %d" % (p, mc, start, size), case, "mobile", p, None, start, size, 2 if n == 2 else steps, 1, mc))
    for p in ("0.25", "1.0", "0", "", "1"):
        for col in (0, 1, 2):
            items.append(("loaded %r %d" % (p, col), loaded, p, col))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(x[0], x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(probabilities=[repr(p) for p in PROBS], agents="0..%d" % nmax, steps=steps, processes=list(sizes), log_levels="0..3")
