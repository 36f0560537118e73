"""timetable data functions (C13-C27): random small networks and timetables, the
real code against independent oracles"""
import itertools
from fractions import Fraction

from .core import Finding, need_ok, run_jobs, stats

NAMES = ["KO", "KO(STM)", "KO(IC)", "KO(KS)", "KZ", "CB", "CM", "Mi", "MJ", "A", "A1", "KTC-CB", "via Gt"]
CATS = ["KS - Os", "PR - R", "KS - OsP", "IC - TLK", "IC - IC", "IC - EIP", "IC - EIC"]
NUMBERS = [1, 11, 2, 12, 101, 111, 121, 109, 10, 100, 94, 945, 42100]
EXCLUDED = ['"KO", "ST-M", 1114, "(N/A)"', '"KO", "ST-M", 1113, "(N/A)"', '"KO", "ST-M", 1118, "(N/A)"']
NOTRACK, NOSWITCH = ("KO(KS)", "KO(IC)"), ("KO(IC)", "KO(KS)")
K1 = [("KO(STM)", "KZ"), ("CB", "CM"), ("KTC-CB", "via Gt")]
BOUND = "2 to 5 stations, up to 7 trains, up to 3 blocks between stations"


def clock(rng):
    return "%02d:%02d" % (rng.randint(0, 23), rng.randint(0, 59)) if rng.random() < 0.9 else "%d:%02d" % (rng.randint(0, 9), rng.randint(0, 59))


def world(rng, mixed=False):
    """network, stations and trains meeting the preconditions of DESIGN.md"""
    n = rng.choice([2, 3, 3, 4, 5])
    names = rng.sample(NAMES, n)
    if rng.random() < 0.35:
        pair = list(rng.choice(K1 + [("KO", "KO(STM)"), ("KO", "KO(STM)")]))
        names = (pair + [x for x in names if x not in pair])[:max(n, 2)]
        if rng.random() < 0.5:
            names[0], names[1] = names[1], names[0]
    stations = {}
    plain = rng.random() < 0.25  # short block names, some the beginning of others
    short = ["B%d" % i for i in [1, 2, 3] + rng.sample(range(10, 40), 27)]
    rng.shuffle(short)
    for s in names:
        stations[s] = ['"%s", "ST", %d, "(%d)"' % (s, i, rng.randint(1, 2)) for i in rng.sample(range(1, 13), rng.randint(1, 3))]
        if plain:
            stations[s] = [short.pop() for _ in stations[s]]
        elif rng.random() < 0.3:  # two tracks that differ in the last part of the name
            stations[s] = ['"%s", "ST", 1, "(%d)"' % (s, i) for i in range(1, len(stations[s]) + 1)]
    if "KO" in names and rng.random() < 0.6:
        stations["KO"] += rng.sample(EXCLUDED, rng.randint(1, 2))
    for s in names:
        rng.shuffle(stations[s])
    if rng.random() < 0.3:
        stations["QQ"] = ['"QQ", "ST", 1, "(1)"']  # a station nobody calls at
    edges, lines = [], {}
    for i in range(1, len(names)):
        edges.append((names[i - 1] if rng.random() < 0.75 else names[rng.randrange(i)], names[i]))
    for a, b in edges:
        tracks = []
        for k in range(rng.choice([1, 1, 1, 2])):
            tracks.append(['"%s-%s-%d", "SBL", %d' % (a, b, i, k + 1) for i in range(1, rng.randint(1, 3) + 1)])
        if len(tracks) == 1 and rng.random() < 0.1:
            tracks = [[]]
        if mixed and rng.random() < 0.4:  # different ways with blocks in common
            n = rng.randint(2, 4)
            own = rng.sample(range(n), rng.randint(1, n - 1))
            tracks = [['"%s-%s-%d", "SBL", %d' % (a, b, i, k if i in own else 0) for i in range(n)] for k in (1, 2)]
        if plain:
            ren = {x: short.pop() if len(short) > 3 and rng.random() < 0.5 else x for tr in tracks for x in tr}
            tracks = [[ren[x] for x in tr] for tr in tracks]
        elif rng.random() < 0.2 and tracks[0]:  # a block named like the beginning of a station block
            cut = stations[rng.choice([a, b])][0].rsplit(",", 1)[0]
            if not any(cut in tr for trs in list(lines.values()) + [tracks] for tr in trs):
                ren = {x: x for tr in tracks for x in tr}
                ren[tracks[0][0]] = cut
                tracks = [[ren[x] for x in tr] for tr in tracks]
        lines[(a, b)] = tracks
    adj = {}
    for a, b in edges:
        adj.setdefault(a, []).append(b)
        adj.setdefault(b, []).append(a)
    nums = rng.sample(NUMBERS, rng.randint(2, 5))
    for x in list(nums):
        if rng.random() < 0.4:
            nums.append(10 * x + 9)
    nums = list(dict.fromkeys(nums))[:7]
    rng.shuffle(nums)
    busy = rng.random() < 0.4
    trains, net = [], {}

    def link(x, y):
        if (x, y) not in net and (y, x) not in net:
            net[(x, y) if rng.random() < 0.5 else (y, x)] = None

    pin = {}

    def block(s):
        bs = stations[s]
        if busy:
            return pin.setdefault(s, rng.choice(bs)) if rng.random() < 0.6 else rng.choice(bs)
        return rng.choice(bs)

    for t in nums:
        route = [rng.choice(names)]
        while len(route) < len(names) and (rng.random() < 0.8 or len(route) < 2):
            opts = [x for x in adj.get(route[-1], []) if x not in route]
            if not opts:
                break
            route.append(rng.choice(opts))
        if rng.random() < 0.05:
            route = route[:1]
        mates = [x for x in trains if x[0] == t * 10 + 9 or x[0] * 10 + 9 == t]
        if len(mates) > 1:
            continue  # it cannot meet both
        mate = mates[0] if mates else None
        start = None
        if mate:
            # meets its mate end to start
            first, last = mate[3][0], mate[3][-1]
            if rng.random() < 0.5:
                route = [last] + [x for x in mate[3][::-1][1:rng.randint(1, len(mate[3]))]]
                start = mate[2][-1]["path"]
                if start not in stations[last]:
                    continue
            else:
                k = rng.randint(1, len(mate[3]))
                route = mate[3][:k][::-1]
                start = None
                if mate[2][0]["path"] not in stations[first]:
                    continue
        blocks, sta = [], []

        def put(b, s=None):
            blocks.append(b)
            sta.append(s)
        if start is None and rng.random() < 0.3 and not (mate and rng.random() < 2):
            for i in range(rng.randint(1, 2)):
                put('"in-%s-%d", "SBL"' % (route[0], i))
        for k, s in enumerate(route):
            if k:
                p = route[k - 1]
                if (p, s) in lines:
                    tr = rng.choice(lines[(p, s)])
                else:
                    tr = rng.choice(lines[(s, p)])[::-1]
                for b in tr:
                    put(b)
            b = block(s)
            if mate and start is None and k == len(route) - 1:
                b = mate[2][0]["path"]
            if k == 0 and start is not None:
                b = start
            put(b, s)
        if rng.random() < 0.35 and not (mate and start is None):
            for i in range(rng.randint(1, 2)):
                put('"out-%s-%d", "SBL"' % (route[-1], i))
        if mate and start is not None and blocks[-1] == mate[2][0]["path"] or mate and start is None and blocks[0] == mate[2][-1]["path"]:
            continue  # both ends meet: which one hands over would be ambiguous
        speed = rng.choice(["R", "IC"])
        rows = []
        for b, s in zip(blocks, sta):
            rows.append({"path": b, "speed": speed if rng.random() < 0.9 else ("R" if speed == "IC" else "IC"),
                         "Arr": clock(rng) if rng.random() < 0.3 else None,
                         "Dep": clock(rng) if rng.random() < (0.6 if s else 0.2) else None,
                         "Approx_enter": clock(rng) if rng.random() < 0.2 else None,
                         "Label": "x" if rng.random() < 0.3 else None, "Shunting": None,
                         "Turnaround_time_minutes": rng.choice([0.0, 1.0, 3.0, 5.0, 7.5, 12.0]) if rng.random() < 0.25 else None,
                         "important_station": s})
        for x, y in zip(blocks, blocks[1:]):
            link(x, y)
        trains.append((t, [rng.choice(CATS), "S%d" % t, "from X", "to Y"], rows, route))
    rng.shuffle(trains)
    allb = [b for bs in stations.values() for b in bs] + [b for tr in lines.values() for t in tr for b in t]
    for _ in range(rng.randint(0, 4)):
        x, y = rng.choice(allb), rng.choice(allb)
        if x != y:
            link(x, y)
    rows = []
    for (x, y) in rng.sample(sorted(net), len(net)):
        rows.append((x, y, cell(rng), [rng.randint(1, 30) / 4 if rng.random() < 0.8 else rng.randint(1, 6) for _ in range(4)]))
    for t, info, rs, route in trains:
        for i, r in enumerate(rs):
            r["passing_time"] = step_time(rows, r["path"], rs[i + 1]["path"], r["speed"]) if i + 1 < len(rs) else None
    p = {"stations": stations, "net": rows, "trains": [(t, info, rs) for t, info, rs, _ in trains]}
    p["skip"] = {t: rs[-1]["important_station"] for t, _, rs in p["trains"] if rs[-1]["important_station"] is not None}
    return p


def cell(rng):
    """a switch cell: several numbers, one number, or none"""
    k = rng.random()
    if k < 0.45:
        return ",".join(str(rng.randint(1, 9)) for _ in range(rng.randint(2, 4)))
    if k < 0.6:
        return str(rng.randint(1, 9))
    if k < 0.75:
        return float("%d.%d" % (rng.randint(1, 9), rng.randint(1, 9)))
    if k < 0.87:
        return rng.randint(1, 9)
    return None


def switch_set(c):
    if c is None:
        return set()
    if isinstance(c, float):
        return {int(x) for x in repr(c).split(".")}
    return {int(x) for x in str(c).split(",")}


def step_time(net, a, b, speed):
    for x, y, _, t in net:
        if (x, y) == (a, b):
            return float(t[1] if speed == "R" else t[0])
        if (x, y) == (b, a):
            return float(t[3] if speed == "R" else t[2])
    return None


def path(rows):
    return [r["important_station"] for r in rows if r["important_station"] is not None]


def between(rows, a, b):
    i = next(k for k, r in enumerate(rows) if r["important_station"] == a)
    j = next(k for k, r in enumerate(rows) if r["important_station"] == b)
    return [r["path"] for r in rows[i + 1:j]]


def after(rows, s):
    p = path(rows)
    return p[p.index(s) + 1] if s in p and p.index(s) + 1 < len(p) else None


def minutes(t):
    h, m = t.split(":")
    return 60 * int(h) + int(m)


def same(a, b):
    try:
        return abs(a - b) < 1e-6
    except TypeError:
        return False


def eqmap(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)


def diff(a, b):
    """short description of the difference of two dictionaries"""
    for k in a:
        if k not in b:
            return "%r: %r unexpected" % (k, a[k])
    for k in b:
        if k not in a:
            return "%r: %r missing" % (k, b[k])
        if a[k] != b[k]:
            return "%r: %r, expected %r" % (k, a[k], b[k])
    return ""


def check(kind, make, judge, bound=None):
    """bounded check: jobs of the kind from make(rng), judged by judge(p, result, bad) -> non-trivial?"""
    def run(repo, rng, count, jobs=None):
        if jobs is None:
            jobs = [(kind, make(rng)) for _ in range(count)]
        good = []
        for j, r in zip(jobs, run_jobs(repo, jobs)):
            v = need_ok(j, r)

            def bad(what, v=v, j=j):
                raise Finding(what, j, v)
            if judge(j[1], v, bad):
                good.append(j)
        return stats(jobs, good, bound or BOUND)
    return run


def keep(x, bad):
    if not x["kept"]:
        bad("the caller's timetables or stations are altered")
    return x["r"]


# ---------------------------------------------------------------- C13

def mk_delay(rng):
    trains = rng.sample(NUMBERS + [n * 10 + 1 for n in NUMBERS], rng.randint(1, 7))
    keys = list({"%s_%s" % (t, s) for t in trains for s in rng.sample(["A", "B", "KO", "1", "A_1", "12_B", "KO(STM)"], rng.randint(1, 2))})
    keys.sort()
    rng.shuffle(keys)
    return {"cond": {k: rng.choice([0, 1, 5, -3, 2.5, 14.0]) for k in keys}, "train": rng.choice(trains + [rng.choice(NUMBERS)]),
            "delay": rng.choice([0, 1, 7, 12.5, -2])}


def judge_delay(p, v, bad):
    want = {k: x + p["delay"] if k.split("_")[0] == str(p["train"]) else x for k, x in p["cond"].items()}
    for got, kept, alias in v:
        if not eqmap(got, want):
            bad("delaying train %s by %s: %s" % (p["train"], p["delay"], diff(got, want)))
        if not kept or alias:
            bad("the caller's initial conditions are changed by the delay")
    return want != p["cond"]


delay_check = check("data.add_delay", mk_delay, judge_delay)


# ---------------------------------------------------------------- C14

def mk_schedule(rng):
    return dict(world(rng), t1=clock(rng))


def judge_schedule(p, v, bad):
    t1 = minutes(p["t1"])
    sched, init = {}, {}
    for t, _, rows in p["trains"]:
        st = [r for r in rows if r["important_station"] is not None]
        for r in st:
            if r["Dep"] is not None:
                sched["%s_%s" % (t, r["important_station"])] = minutes(r["Dep"]) - t1
        f = st[0]
        x = f["Dep"] if f["Dep"] is not None else f["Approx_enter"]
        init["%s_%s" % (t, f["important_station"])] = 0 if x is None else minutes(x) - t1
    for name, x in v:
        want = sched if name == "get_schedule" else init
        got = keep(x, bad)
        if not eqmap(got, want):
            bad("%s at reference time %s: %s" % ("schedule" if want is sched else "initial conditions", p["t1"], diff(got, want)))
    return bool(sched)


schedule_check = check("data.schedule", mk_schedule, judge_schedule)


# ---------------------------------------------------------------- C15

def mk_update(rng):
    p = world(rng)
    if rng.random() < 0.2 and p["net"]:
        p["net"] = list(p["net"])
        p["net"].pop(rng.randrange(len(p["net"])))
    return p


def judge_update(p, v, bad):
    want, missing = {}, False
    for t, info, rows in p["trains"]:
        pt = [step_time(p["net"], r["path"], q["path"], r["speed"]) for r, q in zip(rows, rows[1:])]
        missing |= any(x is None for x in pt)
        want[t] = (info, pt + [None], [r["important_station"] for r in rows], rows)
    if missing:
        if "rejected" not in v:
            bad("a step that is missing from the network table is accepted")
        return True
    if "rejected" in v:
        bad("timetables whose steps are all in the network table are rejected")
    got = v["r"]
    if set(got) != set(want):
        bad("trains %s instead of %s" % (sorted(got), sorted(want)))
    if not v["net"]:
        bad("the network table is altered")
    for t, (info, pt, st, rows) in want.items():
        gi, cells, _ = got[t]
        if list(gi) != list(info):
            bad("train %s: the description changes" % t)
        for c in ("path", "speed", "Arr", "Dep", "Approx_enter", "Label", "Shunting", "Turnaround_time_minutes"):
            if cells.get(c) != [r[c] for r in rows]:
                bad("train %s: column %s changes" % (t, c))
        if cells.get("passing_time") != pt:
            bad("train %s: passing times %s, expected %s" % (t, cells.get("passing_time"), pt))
        if cells.get("important_station") != st:
            bad("train %s: stations %s, expected %s" % (t, cells.get("important_station"), st))
    if v["single"] != [pt[:-1] for _, pt, _, _ in want.values()]:
        bad("passing time of single steps: %s" % v["single"])
    return any(len(x[1]) > 1 for x in want.values())


update_check = check("data.update", mk_update, judge_update)


# ---------------------------------------------------------------- C16

def mk_routes(rng):
    p = world(rng)
    p["ask"] = list(p["stations"])
    return p


def judge_routes(p, v, bad):
    v = keep(v, bad)
    paths = {t: path(rows) for t, _, rows in p["trains"]}
    if v["paths"] != paths or v["J"] != list(paths):
        bad("paths %s" % diff(v["paths"], paths))
    at = {s: [t for t in paths if s in paths[t]] for s in p["stations"]}
    dep = {s: [t for t, _, rows in p["trains"] if s in paths[t] and rows[-1]["important_station"] != s] for s in p["stations"]}
    if v["at"] != at:
        bad("trains calling: %s" % diff(v["at"], at))
    if v["from"] != dep:
        bad("trains departing: %s" % diff(v["from"], dep))
    for t, _, rows in p["trains"]:
        q, pa = v["per"][t], paths[t]
        if q["stations"] != pa:
            bad("train %s: path %s, expected %s" % (t, q["stations"], pa))
        for s in p["ask"]:
            if q["next"][s] != after(rows, s):
                bad("train %s: %s follows %s, expected %s" % (t, q["next"][s], s, after(rows, s)))
            if q["thru"][s] is not (s in pa):
                bad("train %s passes %s: %s" % (t, s, q["thru"][s]))
            want = [b for b in p["stations"][s] if b in [r["path"] for r in rows]] if s in pa else []
            if q["used"][s] != want:
                bad("train %s at %s: blocks %s, expected %s" % (t, s, q["used"][s], want))
        for (a, b), got in q["between"].items():
            if a not in pa or b not in pa:
                want = ([], None)
            elif pa.index(a) > pa.index(b):
                want = ([], True)
            else:
                want = (between(rows, a, b), False)
            if tuple(got) != want:
                bad("train %s between %s and %s: %s, expected %s" % (t, a, b, got, want))
        if q["nextblock"] != [r["path"] for r in rows[1:]] + [None]:
            bad("train %s: following blocks %s" % (t, q["nextblock"]))
    for (a, b), got in v["common"].items():
        if got != sorted(set(paths[a]) & set(paths[b])):
            bad("common stations of %s and %s: %s" % (a, b, got))
    own = {t: {r["path"] for r in rows} for t, _, rows in p["trains"]}
    for (a, b), got in v.get("blocks", {}).items():
        if got != sorted(own[a] & own[b]):
            bad("common blocks of %s and %s: %s" % (a, b, got))
    want = {s: at[s] for s in at if at[s]}
    if "same" in v and {s: sorted(x) for s, x in v["same"].items()} != {s: sorted(x) for s, x in want.items()}:
        bad("trains by station: %s" % diff(v["same"], want))
    return any(len(x) > 1 for x in paths.values())


routes_check = check("data.routes", mk_routes, judge_routes)


# ---------------------------------------------------------------- C17

def mk_taus(rng):
    p = dict(world(rng), r=rng.choice([0, 1]))
    p["sel"] = rng.sample([t for t, _, _ in p["trains"]], rng.randint(0, len(p["trains"])))
    return p


def taus_of(p, rd):
    ps, stp, prep = {}, {}, {}
    for t, _, rows in p["trains"]:
        pt = {r["path"]: r["passing_time"] or 0 for r in rows}
        pa = path(rows)
        for a, b in zip(pa, pa[1:]):
            ps["%s_%s_%s" % (t, a, b)] = rd(sum(pt[x] for x in between(rows, a, b)))
        for i, r in enumerate(rows):
            s = r["important_station"]
            if s is None:
                continue
            turn = r["Turnaround_time_minutes"] or 0
            if s == pa[0]:
                prep["%s_%s" % (t, s)] = rd(turn)
                turn = 0
            if i + 1 < len(rows):
                stp["%s_%s" % (t, s)] = rd(pt[r["path"]] + turn)
    return ps, stp, prep


def judge_taus(p, v, bad):
    whole = lambda x: round(Fraction(x))
    ps, stp, prep = taus_of(p, whole if p["r"] == 1 else lambda x: x)
    ps1, stp1, prep1 = taus_of(p, whole)
    cut = lambda d: {k: x for k, x in d.items() if int(k.split("_")[0]) in p["sel"]}
    make, own = keep(v["make"], bad), keep(v["timetable"], bad)
    for what, got, want in (("running times", keep(v["pass"], bad), ps), ("running times of selected trains", keep(v["pass_sel"], bad), cut(ps)),
                            ("stop times", keep(v["stop"], bad)[0], stp), ("stop times of selected trains", keep(v["stop_sel"], bad)[0], cut(stp)),
                            ("running times", make.get("pass", {}), ps), ("stop times", make.get("stop", {}), stp),
                            ("running times put into the problem", own.get("pass", {}), ps1), ("stop times put into the problem", own.get("stop", {}), stp1)):
        if not eqmap(got, want):
            bad("%s (resolution %s): %s" % (what, p["r"], diff(got, want)))
    if keep(v["own"], bad) != {"pass": {"x": 1}}:
        bad("times given by the user are not the ones put into the problem")
    nz = lambda d: {k: x for k, x in d.items() if x}
    for got, want in ((keep(v["prep"], bad), prep), (make.get("prep", {}), prep), (own.get("prep", {}), prep1)):
        if not eqmap(nz(got), nz(want)) or not set(got) <= set(want):
            bad("preparation times (resolution %s): %s" % (p["r"], diff(nz(got), nz(want)) or sorted(set(got) - set(want))))
    return bool(nz(prep)) and bool(ps)


taus_check = check("data.taus", mk_taus, judge_taus)


# ---------------------------------------------------------------- C18

def judge_headway(p, v, bad):
    want = {}
    for (t, _, rows), (u, _, rows2) in itertools.permutations(p["trains"], 2):
        pa = path(rows)
        for a, b in zip(pa, pa[1:]):
            if after(rows2, a) != b:
                continue
            bl = between(rows, a, b)
            if bl != between(rows2, a, b):
                bl = []
            t1 = {r["path"]: r["passing_time"] for r in rows}
            t2 = {r["path"]: r["passing_time"] for r in rows2}
            k = 1 if (a, b) in K1 or (b, a) in K1 else 2
            h = None
            for i in range(len(bl)):
                free = sum(t1[x] for x in bl[:i + k])   # the first train has left the block (and the following)
                ent = sum(t2[x] for x in bl[:i])        # the second train enters, counted from its start
                h = free - ent if h is None else max(h, free - ent)
            h = 0 if h is None else h
            want["%s_%s_%s_%s" % (t, u, a, b)] = round(Fraction(h)) if p["r"] == 1 else h
    for x in v:
        got = keep(x, bad)
        if not eqmap(got, want):
            bad("headways (resolution %s): %s" % (p["r"], diff(got, want)))
    return any(want.values())


headway_check = check("data.headway", lambda rng: dict(world(rng), r=rng.choice([0, 1])), judge_headway)


# ---------------------------------------------------------------- C19-C22

def mk_set(rng):
    p = world(rng, mixed=True)
    p["sel"] = None if rng.random() < 0.6 else rng.sample(list(p["stations"]), rng.randint(1, len(p["stations"])))
    return p


def chosen(p):
    return list(p["stations"]) if p["sel"] is None else p["sel"]


def judge_jd(p, v, bad):
    want = {}
    for s in chosen(p):
        for t, _, rows in p["trains"]:
            b = after(rows, s)
            if b is not None:
                gr = want.setdefault((s, b), [])
                bl = between(rows, s, b)
                for g in gr:
                    if g[0] == bl:
                        g[1].append(t)
                        break
                else:
                    gr.append((bl, [t]))
    want = {k: sorted(x[1] for x in g) for k, g in want.items()}
    for x in v:
        got = {(s, b): sorted(list(g) for g in gs) for s, d in keep(x, bad).items() for b, gs in d.items() if gs}
        if got != want:
            bad("line groups: %s" % diff(got, want))
    return any(len(g) > 1 for gs in want.values() for g in gs)


jd_check = check("data.jd", mk_set, judge_jd)


def judge_josingle(p, v, bad):
    want = []
    for (t, _, rows), (u, _, rows2) in itertools.permutations(p["trains"], 2):
        pa = path(rows)
        for a, b in zip(pa, pa[1:]):
            if a in chosen(p) and b in chosen(p) and after(rows2, b) == a:
                bl = between(rows, a, b)
                if bl and bl == between(rows2, b, a)[::-1]:
                    want.append((a, b, t, u))
    for x in v:
        got = [(a, b, t, u) for (a, b), ps in keep(x, bad).items() for t, u in ps]
        for a, b, t, u in got:
            if (a, b, t, u) not in want:
                bad("trains %s and %s are listed as opposing from %s to %s" % (t, u, a, b))
            if got.count((a, b, t, u)) + got.count((b, a, u, t)) != 1:
                bad("trains %s and %s are listed repeatedly between %s and %s" % (t, u, a, b))
            if any((c, d) == (b, a) for c, d, _, _ in got):
                bad("pairs are listed under both directions of the line between %s and %s" % (a, b))
        for a, b, t, u in want:
            if (a, b, t, u) not in got and (b, a, u, t) not in got:
                bad("the opposing trains %s and %s between %s and %s are missing" % (t, u, a, b))
    return bool(want)


josingle_check = check("data.josingle", mk_set, judge_josingle)


def judge_jtrack(p, v, bad):
    want = {}
    for s in chosen(p):
        if s in NOTRACK:
            continue
        gr = {}
        for t, _, rows in p["trains"]:
            bs = [r["path"] for r in rows if r["important_station"] == s]
            if bs and not (len(bs) == 1 and bs[0] in EXCLUDED):
                gr.setdefault(tuple(bs), []).append(t)
        want[s] = sorted(gr.values())
    nz = lambda d: {k: x for k, x in d.items() if x}
    for x in v:
        got = {s: sorted(list(g) for g in gs) for s, gs in keep(x, bad).items()}
        if nz(got) != nz(want):
            bad("station track groups: %s" % diff(nz(got), nz(want)))
        if not set(want) <= set(got):
            bad("stations without groups: %s" % sorted(set(want) - set(got)))
    return any(len(g) > 1 for gs in want.values() for g in gs)


jtrack_check = check("data.jtrack", mk_set, judge_jtrack)


def judge_jswitch(p, v, bad):
    want = {}
    sw = {}
    for x, y, c, _ in p["net"]:
        sw[(x, y)] = sw[(y, x)] = switch_set(c)

    def moves(t, rows, s):
        """switches set by a train when entering and leaving a station; already counted at the neighbour?"""
        i = next(k for k, r in enumerate(rows) if r["important_station"] == s)
        pa = path(rows)
        e = sw.get((rows[i - 1]["path"], rows[i]["path"]), set()) if s != pa[0] else set()
        o = sw.get((rows[i]["path"], rows[i + 1]["path"]), set()) if s != pa[-1] else set()
        if s == "KO(STM)":
            k = pa.index(s)
            if k and pa[k - 1] == "KO":
                e = set()
            if k + 1 < len(pa) and pa[k + 1] == "KO":
                o = set()
        return {"in": e, "out": o}
    for s in chosen(p):
        if s in NOSWITCH:
            continue
        here = [(t, moves(t, rows, s)) for t, _, rows in p["trains"] if s in path(rows)]
        for (t, a), (u, b) in itertools.combinations(here, 2):
            for x in ("in", "out"):
                for y in ("in", "out"):
                    if a[x] & b[y]:
                        want.setdefault(s, []).append(tuple(sorted([(t, x), (u, y)])))
    want = {s: sorted(x) for s, x in want.items()}
    for x in v:
        got = {s: sorted(tuple(sorted(e.items())) for e in es) for s, es in keep(x, bad).items() if es}
        if got != want:
            bad("switch conflicts: %s" % diff(got, want))
    return bool(want)


jswitch_check = check("data.jswitch", mk_set, judge_jswitch)


# ---------------------------------------------------------------- C23, C24

def judge_jround(p, v, bad):
    tr = {t: rows for t, _, rows in p["trains"]}
    pairs = sorted([t, 10 * t + 9] for t in tr if 10 * t + 9 in tr)
    got = keep(v["pairs"], bad)
    if sorted(list(x) for x in got) != pairs:
        bad("pairs by number: %s, expected %s" % (got, pairs))
    want = {}
    for a, b in pairs:
        if tr[a][-1]["path"] != tr[b][0]["path"]:
            a, b = b, a
        assert tr[a][-1]["path"] == tr[b][0]["path"]
        want.setdefault(tr[a][-1]["important_station"], []).append([a, b])
    want = {s: sorted(x) for s, x in want.items()}
    for x in v["round"]:
        got = {s: sorted(list(e) for e in es) for s, es in keep(x, bad).items() if es}
        if got != want:
            bad("turnarounds: %s" % diff(got, want))
    return bool(want)


jround_check = check("data.jround", lambda rng: world(rng), judge_jround)


def mk_weights(rng):
    p = world(rng)
    p["weights"] = {"stopping": rng.choice([1, 2]), "fast": rng.choice([1.5, 3]), "express": rng.choice([1.75, 4]), "empty": rng.choice([0, 0, 0.25])}
    sk = {}
    for t, _, rows in p["trains"]:
        pa = path(rows)
        if len(pa) > 1 and rng.random() < 0.6:
            sk[t] = rng.choice([pa[-1], pa[-1], rng.choice(pa)])
    if rng.random() < 0.5:
        p["skip"] = sk
    else:
        p["skip"] = {t: s for t, s in p["skip"].items() if len(path(dict((x, r) for x, _, r in p["trains"])[t])) > 1}
    return p


def judge_weights(p, v, bad):
    def expect(w):
        nums = {t for t, _, _ in p["trains"]}
        out = {}
        for t, info, rows in p["trains"]:
            k = info[0]
            x = w["stopping"] if k in ("KS - Os", "PR - R", "KS - OsP") else w["fast"] if k in ("IC - TLK", "IC - IC") else w["express"]
            if t % 10 == 9 and (t - 9) // 10 in nums:
                x = w["empty"]
            pa = path(rows)
            s = pa[-1]
            if p["skip"].get(t) == s:
                s = pa[-2]
            out["%s_%s" % (t, s)] = x
        return out
    for got, want in ((keep(v["w"], bad), expect(p["weights"])),
                      (keep(v["make"], bad), expect({"stopping": 1, "fast": 1.5, "express": 1.75, "empty": 0}))):
        if not eqmap(got, want):
            bad("penalty weights: %s" % diff(got, want))
    sk = {t: rows[-1]["important_station"] for t, _, rows in p["trains"] if rows[-1]["important_station"] is not None}
    if keep(v["skip"], bad) != sk:
        bad("skipped stations: %s" % diff(v["skip"]["r"], sk))
    return any(t % 10 == 9 for t, _, _ in p["trains"])


weights_check = check("data.weights", mk_weights, judge_weights)


# ---------------------------------------------------------------- C25

def mk_table(rng):
    from .solver_b import instance
    p = instance(rng)
    p["values"] = [rng.randint(0, 20) for _ in range(7)]
    p["skip"] = dict(p["train_sets"].get("skip_station", {}))
    for j, st in p["train_sets"]["Paths"].items():
        if len(st) > 2 and rng.random() < 0.25:
            k = rng.randint(1, len(st) - 2)
            p["skip"][j] = st[k]
            p["timetable"]["tau"]["pass"]["%s_%s_%s" % (j, st[k - 1], st[k + 1])] = rng.randint(1, 20)
    whole = rng.random() < 0.8
    if whole:
        for d in (p["timetable"]["tau"]["pass"], p["timetable"]["tau"]["stop"], p["timetable"]["tau"]["prep"], p["timetable"]["initial_conditions"],
                  p["timetable"].get("schedule", {})):
            for k in d:
                d[k] = int(d[k])
    return p


def judge_table(p, v, bad):
    from .solver_b import Spec
    sp = Spec(p)
    if not v["kept"]:
        bad("the train sets or the timetable are altered")
    n = 0
    for r, vals in ((v["r"], v["vals"]), (v["r2"], v["data"])):
        if set(r) != set(sp.J):
            bad("trains %s, expected %s" % (sorted(r), sorted(sp.J)))
        for j in sp.J:
            if v["order"][j] != list(sp.P[j]) or list(r[j]) != list(sp.P[j]):
                bad("train %s: stations %s, expected %s" % (j, list(r[j]), sp.P[j]))
            last = None
            for s in sp.P[j]:
                e = r[j][s]
                run = p["timetable"]["tau"]["pass"].get("%s_%s_%s" % (j, last[0], s)) if last is not None else None
                if run is not None:
                    for k, x in (("arrive", last[1]), ("conflicted_arrive", last[2])):
                        if k not in e or not same(e[k], round(Fraction(run)) + int(x)):
                            bad("train %s at %s: %s is %s, departure from %s was %s and the running time is %s" % (j, s, k, e.get(k), last[0], x, run))
                elif last is None and ("arrive" in e or "conflicted_arrive" in e):
                    bad("train %s: arrival reported at its first station %s" % (j, s))
                if p["skip"].get(j) == s:
                    if set(e) & {"departure", "secondary delay", "conflicted_departure", "impact_to_objective"}:
                        bad("train %s: departure reported at the skipped station %s" % (j, s))
                    continue
                nm = sp.name(j, s)
                if nm not in vals:
                    last = (s, e.get("departure"), e.get("conflicted_departure"))
                    continue
                ed = sp.earliest(j, s)
                w = p["timetable"]["penalty_weights"].get("%s_%s" % (j, s), 0)
                d = vals[nm]
                want = {"departure": int(ed + d), "secondary delay": int(d), "conflicted_departure": int(ed), "impact_to_objective": w / p["d_max"] * d}
                for k, x in want.items():
                    if k not in e or not same(e[k], x):
                        bad("train %s at %s: %s is %s, expected %s" % (j, s, k, e.get(k), x))
                last = (s, ed + d, ed)
                n += 1
    return n > 2


table_check = check("data.table", mk_table, judge_table)


# ---------------------------------------------------------------- C26, C27

def mk_parse(rng):
    p = world(rng)
    lines, want = [], {}
    for t, info, rows in p["trains"]:
        a = rng.choice(["from Katowice", "from depot", "departs from siding", "from to nowhere"])
        b = rng.choice(["to Gliwice", "terminates", "to from", "terminates at depot"])
        name = rng.choice(["S1", "Intercity", "No name", "S1 S8", "SZTYGAR", "to the sea", "te deum", "10 A"])
        e = [None] * 7
        if rng.random() < 0.9:
            lines.append(["####"] + e)
        lines += [[info[0]] + e, [str(t)] + e, [name] + e, [a] + e]
        rs = [[r[c] for c in ("path", "speed", "Arr", "Dep", "Approx_enter", "Label", "Shunting", "Turnaround_time_minutes")] for r in rows]
        for r in rs:
            if rng.random() < 0.1:
                r[1] = None
        lines += rs
        lines.append([b] + e)
        want[t] = ([info[0], name, a, b], rs)
    return {"lines": lines, "want": want}


def judge_parse(p, v, bad):
    got, want = v["r"], p["want"]
    if not v["kept"]:
        bad("the data read are altered")
    if list(got) != list(want):
        bad("trains %s, expected %s" % (list(got), list(want)))
    cols = ("path", "speed", "Arr", "Dep", "Approx_enter", "Label", "Shunting", "Turnaround_time_minutes")
    for t, (info, rs) in want.items():
        gi, cells, index = got[t]
        if list(gi) != info:
            bad("train %s: description %s, expected %s" % (t, gi, info))
        if tuple(cells) != cols:
            bad("train %s: columns %s" % (t, list(cells)))
        for i, c in enumerate(cols):
            if cells[c] != [r[i] for r in rs]:
                bad("train %s: column %s is %s, expected %s" % (t, c, cells[c], [r[i] for r in rs]))
        if index != list(range(len(rs))):
            bad("train %s: rows are numbered %s" % (t, index))
    return len(want) > 1


parse_check = check("data.parse", mk_parse, judge_parse)


def mk_continuity(rng):
    p = world(rng)
    paths = []
    known = sorted({b for r in p["net"] for b in r[:2]})
    for t, _, rows in p["trains"]:
        bl = [r["path"] for r in rows]
        k = rng.random()
        if k < 0.3 and len(bl) > 2:
            del bl[rng.randrange(1, len(bl) - 1)]
        elif k < 0.5:
            bl.insert(rng.randint(0, len(bl)), '"nowhere"')
        elif k < 0.7 and known:
            bl.insert(rng.randint(0, len(bl)), rng.choice(known))
        paths.append(bl)
    if known and rng.random() < 0.5:
        paths.append([rng.choice(known) for _ in range(rng.randint(1, 3))])
    paths.append([])
    return {"net": p["net"], "paths": paths}


def judge_continuity(p, v, bad):
    adj = {(r[0], r[1]) for r in p["net"]} | {(r[1], r[0]) for r in p["net"]}
    gap = False
    for i, path_ in enumerate(p["paths"]):
        want = "ok" if all((a, b) in adj for a, b in zip(path_, path_[1:])) else "assert"
        gap |= want == "assert"
        for got in v[2 * i:2 * i + 2]:
            if got != want:
                bad("the path %s is %s" % (path_, "accepted although consecutive blocks are not adjacent" if got == "ok" else "rejected although it is continuous"))
    return gap


continuity_check = check("data.continuity", mk_continuity, judge_continuity)
