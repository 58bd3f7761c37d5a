"""Pruning: every weight vector over a value grid and every threshold.  Selection: the exact distribution of
the route an agent takes, over all random outcomes of the real selection, on star and two-step graphs whose
weights run over a grid (zero weights, ties and duplicates included)."""
from itertools import product
from mc import world as w
from mc.chance import distribution


def prune_ref(ws, th):
    if th < 1.001 or not ws:
        return list(range(len(ws)))
    lim = max(ws) / th
    return [i for i, x in enumerate(ws) if not x < lim]


def prune(ctx, part, parts, n, vals):
    m = w.mods()
    w.settings()
    for i, ws in enumerate(product(vals, repeat=n)):
        if i % parts != part:
            continue
        for dup in (False, True) if n > 1 else (False,):
            # with dup, two roads give the same sequence of names (parallel roads)
            routes = [["R%d" % (0 if dup and j == n - 1 else j)] for j in range(n)]
            for th in (0.5, 1.0, 1.5, 2.0, 4.0, 100.0):
                m.S.move_rules["PruningThreshold"] = th
                keep = prune_ref(list(ws), th)
                gw, gr = m.moving.pruneRoutes(list(ws), [list(r) for r in routes])
                ctx.transitions += 1
                ctx.state((ws, dup, th))
                got = sorted(zip(gw, map(tuple, gr)))
                want = sorted((ws[j], tuple(routes[j])) for j in keep)
                if len(gw) != len(gr) or got != want:
                    ctx.fail("weights %r routes %r threshold %r: kept %r, expected %r" % (ws, routes, th, got, want))


def star(ctx, kinds, dists, th, awareness, wsoft, full, power=1.0, fixed=False):
    """Agent at A with roads to B.. ; the road it takes on day one."""
    m = w.mods()
    mr = dict(camp_movechance=0.0, softening=0.0, camp_weight=0.0 if full == "zero" else 4.0, conflict_weight=0.5, pruning_threshold=th,
              awareness_level=awareness, weight_softening=wsoft, distance_power=power, foreign_weight=0.0 if full == "zero" else 3.0, fixed_routes=fixed)
    w.settings(move_rules=mr)
    names = ("Ka", "KabKa", "KaKab", "KaKa", "KabKab")[:len(dists)]
    base = {"camp": mr["camp_weight"], "town": 1.0, "conflict_zone": 0.5, "dup": 1.0}

    def go():
        locs = [dict(name="Kab", location_type="forwarding_hub")]
        for n, k in zip(names, kinds):
            if k != "dup":
                locs.append(dict(name=n, location_type=k, capacity=2 if full == "full" and k == "camp" else -1))
        tgt = {}
        for i, (n, k) in enumerate(zip(names, kinds)):
            tgt[n] = n if k != "dup" else names[0]
        e = w.build(locs, [])
        for n, d in zip(names, dists):
            e.linkUp("Kab", tgt[n], 1000.0 * d)
        if full == "full":
            for n, k in zip(names, kinds):
                if k == "camp":
                    w.add(e, n, 2)
        a = w.add(e, "Kab")
        e.evolve()
        return a.location.name
    got, ex = distribution(go)
    weights, ends = [], []
    for n, k, d in zip(names, kinds, dists):
        tgt = n if k != "dup" else names[0]
        kk = k if k != "dup" else kinds[0]
        y = (wsoft + base[kk]) / (1000.0 * d)**power
        if full == "full" and kk == "camp":
            y = 0.0
        if fixed:
            y *= base[kk]
        weights.append(y)
        ends.append(tgt)
    if fixed:
        # a settlement holds one route per destination, the best
        held = {}
        for t, y in zip(ends, weights):
            held[t] = max(y, held.get(t, y))
        ends, weights = list(held), list(held.values())
    keep = prune_ref(weights, th)
    tot = sum(weights[i] for i in keep)
    want = {}
    for i in keep:
        p = weights[i] / tot if tot > 0 else 1.0 / len(keep)
        if p > 0:
            want["L:Kab:" + ends[i]] = want.get("L:Kab:" + ends[i], 0) + p
    if tot > 0 and full == "full":
        pass
    if not keep:
        want = {"Kab": 1.0}
    if full == "full" and tot == 0:
        # everything is full: an agent may pick one, but drops a full camp at once
        want = None
    ctx.transitions += ex.paths
    ctx.traces += 1
    ctx.state((kinds, dists, th, awareness, wsoft, full, power, fixed))
    if want is not None:
        ctx.same_dist(got, want, "road taken: kinds %r distances %r threshold %r %s power %g fixed routes %r" % (kinds, dists, th, full, power, fixed))


def steps(ctx, d, th, kinds):
    """A-B-C, A-C, B-D with awareness 2: distribution of the whole route via selectRoute."""
    m = w.mods()
    mr = dict(softening=0.0, camp_weight=3.0, conflict_weight=0.5, pruning_threshold=th, awareness_level=2)
    w.settings(move_rules=mr)
    roads = [("Kab", "Ka", d[0]), ("Ka", "KabKa", d[1]), ("Kab", "KabKa", d[2]), ("Ka", "KaKab", d[3])]
    base = {"camp": 3.0, "town": 1.0, "conflict_zone": 0.5}
    typ = dict(zip(("Ka", "KabKa", "KaKab"), kinds))
    dist = {}
    for a, b, x in roads:
        dist[a, b] = dist[b, a] = x
    rts = [("Ka",), ("Ka", "KabKa"), ("KabKa",), ("KabKa", "Ka"), ("Ka", "KaKab")]
    ws = []
    for r in rts:
        p = ("Kab",) + r
        ws.append(base[typ[r[-1]]] / sum(dist[p[i], p[i + 1]] for i in range(len(p) - 1)))
    keep = prune_ref(ws, th)
    tot = sum(ws[i] for i in keep)
    want = {rts[i]: ws[i] / tot for i in keep}

    def go():
        e = w.build([dict(name="Kab", location_type="forwarding_hub")] +
                    [dict(name=n, location_type=typ[n]) for n in ("Ka", "KabKa", "KaKab")], roads)
        a = w.add(e, "Kab")
        return tuple(m.moving.selectRoute(a, time=0))
    got, ex = distribution(go)
    ctx.transitions += ex.paths
    ctx.traces += 1
    ctx.state((d, th, kinds))
    ctx.same_dist(got, want, "route taken, distances %r threshold %r kinds %r" % (d, th, kinds))


def check(ctx):
    vals = (0.0, 1e-9, 0.5, 1.0, 2.0, 3.9)
    items = []
    for n in (0, 1, 2, 3, 4) + ((5, 6) if ctx.thorough else ()):
        for p in range(8 if n > 3 else 1):
            items.append(("prune %d %d" % (n, p), prune, p, 8 if n > 3 else 1, n, vals))
    for n in (0, 1, 2, 3):
        for kinds in product(("camp", "town", "conflict_zone", "dup"), repeat=n):
            if kinds[:1] == ("dup",):
                continue
            for dists in product((1.0, 2.0, 5.0), repeat=n):
                for ws in (0.0, 0.25):
                    for full in ("no", "zero", "full"):
                        for power in (1.0, 2.0) if ctx.thorough or full == "no" else (1.0,):
                            items.append((("star, fixed routes", kinds, dists, ws, full, power), star, kinds, dists, 1.0, 1, ws, full, power, True))
                for th in (1.0, 1.5, 3.0):
                    for ws in (0.0, 0.25):
                        for full in ("no", "zero", "full"):
                            items.append((("star", kinds, dists, th, ws, full), star, kinds, dists, th, 1, ws, full))
                        if th != 1.5 and ws == 0.0:
                            items.append((("star power", kinds, dists, th), star, kinds, dists, th, 1, ws, "no", 5.0))
    for d in product((50.0, 100.0, 300.0), (20.0, 100.0), (70.0, 150.0, 1000.0), (10.0, 400.0)):
        for th in (1.0, 1.2, 2.0, 10.0):
            for kinds in product(("camp", "town", "conflict_zone"), repeat=3):
                items.append((("steps", d, th, kinds), steps, d, th, kinds))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(str(x[0]), x[1], c, *x[2:])
    ctx.batches(batch, 32)
    ctx.bounds = dict(vector_length=6 if ctx.thorough else 4, values=vals)
