"""Every random outcome of small simulations on one-way trees of roads (agents added on different days, closures, all log
levels, both granularities, one and more processes): every line of the log files against a ledger kept by a monitor that
only follows where the agents are."""
import os
from itertools import combinations_with_replacement as cwr, product
from mc import world as w, fakempi
from mc.chance import Explorer

LOCS = [("Kab", "R1", "conflict_zone", 1.5, 2.5), ("Ka", "R1", "town", 3.0, -4.0), ("KabKa", "R2", "town", 5.0, 6.0), ("KaKab", "R2", "camp", -7.0, 8.25), ("KaKa", "R3", "idpcamp", 0.5, 0.75)]
ROADS = [("Kab", "Ka", 100.0), ("Ka", "KabKa", 110.0), ("KabKa", "KaKab", 450.0), ("Ka", "KaKa", 300.0)]
PAR = {b: (a, d) for a, b, d in ROADS}
REG = {l[0]: l[1] for l in LOCS}
XY = {l[0]: (l[3], l[4]) for l in LOCS}
SPEED = 360.0
AHEAD = "#time,rank-agentid,original_location,current_location,gps_x,gps_y,is_travelling,distance_travelled,places_travelled,distance_moved_this_timestep"
LHEAD = "#time,start_location,end_location,cum_num_agents,attribute"


def label(place, region):
    nm = (lambda n: REG[n]) if region else (lambda n: n)
    if isinstance(place, tuple):
        return "L:%s:%s" % (nm(place[0]), nm(place[1]))
    return nm(place)


def pos(place, region):
    if region:
        return 0.0, 0.0
    if isinstance(place, tuple):
        (a, b), (c, d) = XY[place[0]], XY[place[1]]
        return (a + c) / 2.0, (b + d) / 2.0
    return XY[place]


def where(a):
    if a.location is None:
        return None
    p = w.place(a)
    return p[1] if p[0] == "loc" else (p[1], p[2])


def path(old, new):
    """(roads completed, roads entered) going from one place of the tree to another."""
    done, entered = [], []
    end = new
    if isinstance(new, tuple):
        if new == old:
            return [], []
        entered.append(new)
        end = new[0]
    stop = old[1] if isinstance(old, tuple) else old
    mid = []
    while end != stop:
        up = PAR[end][0]
        mid.append((up, end))
        end = up
    mid.reverse()
    if isinstance(old, tuple):
        done.append(old)
    done += mid
    return done, mid + entered


def num(x):
    try:
        return float(x)
    except ValueError:
        return x


class Monitor:
    """What one agent did so far."""

    def __init__(self, home):
        self.home, self.place, self.part = home, home, 0.0
        self.total, self.places, self.gone = 0.0, 1, False

    def step(self, a, closed):
        new = where(a)
        if new is None:
            new, self.gone = "KaKa", True  # the only place where agents are deactivated
        part = float(a.distance_travelled_on_link) if isinstance(new, tuple) else 0.0
        if isinstance(self.place, tuple) and closed(self.place) and new == self.place[0]:
            done, entered, hops = [self.place], [], []
        else:
            done, entered = path(self.place, new)
            hops = done
        km = sum(PAR[b][1] for _, b in done)
        moved = km - self.part + part
        cum, must = -self.part, 0
        for _, b in hops:
            cum += PAR[b][1]
            if cum < SPEED:
                must += 1
        self.total += km
        self.places += len(done)
        self.place, self.part = new, part
        return dict(entered=entered, hops=hops, must=must, moved=moved)


def run(ctx, what, adds, closures, alog, llog, gran, size, days, stop, sink=None):
    region = gran == "region"
    yml = dict(log_levels=dict(agent=alog, link=llog, granularity=gran),
               spawn_rules=dict(camps_are_sinks=sink is not None), move_rules=dict(conflict_movechance=1.0, default_movechance=0.5 if stop else 1.0, camp_movechance=0.0, idpcamp_movechance=0.0, max_move_speed=SPEED))
    W = fakempi.World(size) if size > 1 else None
    (W.settings if W else w.settings)(**yml)
    locs = [dict(name=n, region=r, location_type=t, x=x, y=y) for n, r, t, x, y in LOCS]
    if sink is not None:
        locs[4]["attributes"] = dict(deactivation_probability=sink)
    links = [(a, b, d, {"oneway": True}) for a, b, d in ROADS]
    files = ["%s.out.%d" % (k, r) for k in ("agents", "links") for r in range(max(size, 2))]

    def go():
        for f in files:
            if os.path.exists(f):
                os.unlink(f)
        if W:
            ecos = W.build(locs, links)
        else:
            ecos = [w.build(locs, links)]
        mon = [[] for _ in ecos]
        count, byattr = {}, {}
        al, ll = [[] for _ in ecos], []
        attrs0 = None
        for t in range(days):
            for e in ecos:
                e.closures = [list(c) for c in closures]
            if W:
                W.run(lambda e: e.enact_border_closures(t))
            else:
                ecos[0].enact_border_closures(t)
            for day, name, at in adds:
                if day == t:
                    if W:
                        W.run(lambda e: e.addAgent(w.loc(e, name), dict(at)))
                    else:
                        ecos[0].addAgent(w.loc(ecos[0], name), dict(at))
            for e, ms in zip(ecos, mon):
                for a in e.agents[len(ms):]:
                    ms.append(Monitor(a.home_location.name))
            if t == 0:
                attrs0 = [list(e.agents[0].attributes) if e.agents else [] for e in ecos]
            if W:
                W.evolve()
            else:
                ecos[0].evolve()
            isclosed = {(l.name, k.endpoint.name): False for l in ecos[0].locations for k in l.links}
            isclosed.update({(l.name, k.endpoint.name): True for l in ecos[0].locations for k in l.closed_links})
            for r, (e, ms) in enumerate(zip(ecos, mon)):
                for k, (a, m) in enumerate(zip(e.agents, ms)):
                    if m.gone:
                        if a.location is not None:
                            ctx.fail("%s: a deactivated agent is back" % what)
                        continue
                    s = m.step(a, lambda x: isclosed[x])
                    for x in s["entered"]:
                        count[r, x] = count.get((r, x), 0) + 1
                        for kk, v in a.attributes.items():
                            byattr[r, x, kk, v] = byattr.get((r, x, kk, v), 0) + 1
                    base = [label(m.home, region), None, None, None, str(isinstance(m.place, tuple)), m.total, m.places, s["moved"]] + list(map(str, a.attributes.values()))

                    def line(tag, pl):
                        x, y = pos(pl, region)
                        return [tag, "%d-%d" % (r, k), base[0], label(pl, region), x, y] + base[4:]
                    out = [line(str(t), m.place)]
                    opt = 0
                    if alog > 1:
                        for h, pl in enumerate(s["hops"]):
                            out.append(line("%d-%d" % (t, h + 1) if alog > 2 else str(t), pl))
                        opt = len(s["hops"]) - s["must"]
                    al[r].append((out, opt))
            for x, c in isclosed.items():
                if not c:
                    nm = (label(x[0], region), label(x[1], region))
                    for r in range(len(ecos)):
                        ll.append((r, (str(t),) + nm + ("total",), count.get((r, x), 0)))
                        if llog > 1:
                            for (rr, y, kk, v), n in byattr.items():
                                if rr == r and y == x:
                                    ll.append((r, (str(t),) + nm + ("%s:%s" % (kk, v),), n))
            ctx.transitions += 1
        # agents
        for r in range(len(ecos)):
            fn = "agents.out.%d" % r
            if alog == 0:
                if os.path.exists(fn):
                    ctx.fail("%s: %s is written at log level 0" % (what, fn))
            else:
                rows = [x.rstrip("\n") for x in open(fn)]
                if rows[:1] != [",".join([AHEAD] + attrs0[r] + [""])]:
                    ctx.fail("%s: the header of %s is %r" % (what, fn, rows[:1]))
                rows = [x.split(",") for x in rows[1:]]
                i = 0
                for out, opt in al[r]:
                    n = len(out)
                    ok = False
                    for m in range(n, n - opt - 1, -1):
                        if same(rows[i:i + m], out[:m]):
                            # the shorter form only when the file does not go on with the next hop
                            i += m
                            ok = True
                            break
                    if not ok:
                        ctx.fail("%s: %s line %d on: %r, expected %r" % (what, fn, i + 2, rows[i:i + n], out))
                if i != len(rows):
                    ctx.fail("%s: %s has the extra lines %r" % (what, fn, rows[i:]))
            fn = "links.out.%d" % r
            if llog == 0:
                if os.path.exists(fn):
                    ctx.fail("%s: %s is written at log level 0" % (what, fn))
            else:
                rows = [x.rstrip("\n") for x in open(fn)]
                if rows[:1] != [LHEAD]:
                    ctx.fail("%s: the header of %s is %r" % (what, fn, rows[:1]))
                got = sorted((tuple(c[:3]) + (c[4],), int(c[3])) for c in (x.split(",") for x in rows[1:]))
                want = sorted(x[1:] for x in ll if x[0] == r)
                if got != want:
                    d = [x for x in got if x not in want], [x for x in want if x not in got]
                    ctx.fail("%s: %s differs: it has %r, expected %r" % (what, fn, d[0][:4], d[1][:4]))
                if [int(x.split(",")[0]) for x in rows[1:]] != sorted(int(x.split(",")[0]) for x in rows[1:]):
                    ctx.fail("%s: %s is not in order of time" % (what, fn))
        return tuple(tuple(where(a) for a in e.agents) for e in ecos)
    for p, res, tr in Explorer().explore(go):
        ctx.state((what, tuple(tr)))
        ctx.traces += 1


def same(rows, want):
    if len(rows) != len(want):
        return False
    for r, x in zip(rows, want):
        if len(r) != len(x) + 1 or r[-1] != "":
            return False
        for i, (g, v) in enumerate(zip(r, x)):
            if isinstance(v, (int, float)):
                if not isinstance(num(g), float) or abs(num(g) - v) > 1e-6:
                    return False
            elif g != str(v):
                return False
    return True


ATTRS = ({}, {"sex": "m"}, {"sex": "f", "age": 7}, {"sex": "", "age": 0})


def check(ctx):
    items = []
    levels = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 2), (3, 0), (3, 2)]
    scheds = [[], [["link", "Ka", "KabKa", 1, 2]], [["link", "KabKa", "KaKab", 1, -1]], [["link", "Kab", "Ka", 0, 2]], [["location", "Ka", "", 1, 3]]]
    one = [(d, n, a) for d in (0, 1) for n in ("Kab", "KabKa") for a in (0, 2)]
    for (al, ll), sc, gran, size in product(levels, scheds, ("location", "region"), (1, 2, 3) if ctx.thorough else (1, 2)):
        sets = [()] + [(x,) for x in one] + [x for x in cwr([(0, "Kab", 1), (0, "Kab", 2), (1, "Ka", 2)], 2)]
        for s in sets:
            if size > 1 and len(s) == 1 and s[0][2] == 0:
                continue
            if size > 2 and len(s) < 2:
                continue
            adds = [(d, n, ATTRS[a]) for d, n, a in s]
            days = 4 if len(s) < 2 or (ctx.thorough and len(sc) == 0) else 3
            what = "agents %r closures %r log levels agent %d link %d %s %d process(es)" % (adds, sc, al, ll, gran, size)
            items.append((what, run, what, adds, sc, al, ll, gran, size, days, len(s) < 2 or ctx.thorough))

    for (al, ll), gran, size in product(levels[1:], ("location", "region"), (1, 2)):
        for s in [((0, "KaKa", 1), (0, "KabKa", 2)), ((0, "KaKa", 2), (0, "KaKa", 3), (0, "KaKab", 1)), ((0, "Ka", 0), (1, "Ka", 0)), ((0, "Kab", 3), (0, "KaKa", 3))]:
            for sink in ("1.0", "0.5"):
                adds = [(d, n, ATTRS[a]) for d, n, a in s]
                what = "agents %r E deactivates with %s log levels agent %d link %d %s %d process(es)" % (adds, sink, al, ll, gran, size)
                items.append((what, run, what, adds, [], al, ll, gran, size, 3, False, sink))
        for s in [((0, "Kab", 3), (0, "Kab", 2)), ((0, "Ka", 3), (1, "Kab", 3))]:
            adds = [(d, n, ATTRS[a]) for d, n, a in s]
            what = "agents %r log levels agent %d link %d %s %d process(es)" % (adds, al, ll, gran, size)
            items.append((what, run, what, adds, [], al, ll, gran, size, 3, False))

    def batch(c, part, parts):
        for x in items[part::parts]:
            c.case(x[0], x[1], c, *x[2:])
    ctx.batches(batch, 48)
    ctx.bounds = dict(agents="0..2 added on day 0 or 1", days="3-4", closures=len(scheds), log_levels=levels, granularity=["location", "region"], roads="one-way tree of 5 places")
