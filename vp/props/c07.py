"""C07: switch_latest mirrors only the most recent inner source."""
from .. import pipes
from ..core import run_case
from ..gens import rerr, rbig, rlat
from ..kit import Case, Probe, Rec, boom, same, show
from ..merging import build_inner, gen_share, share
from ..runner import Out
import aioreactive as rx
import aioreactive.transform as m_transform
from aioreactive import AsyncRx
from expression import pipe

ID = "C07"
RULE = ("random outer/inner timelines through switch_latest, flat_map_latest(_async); inner sources may keep emitting after they "
        "were disposed; every delivered and every withheld value is judged against the issue log; distinct: operator, history, trace")
BUDGET = {"quick": (96000, 240), "thorough": (300000, 400)}
REQUIRED = {"values": 1000, "withheld": 500, "completions": 500, "errors": 100, "switches": 1000}
KEEP = ("op", "inner", "out", "beh", "lib")
OPS = ["switch", "switch_mod", "fml_async", "fml_async_m", "fml"]


def gen(rng, tier):
    exact = rng.random() < 0.65
    mayfail = rng.random() < 0.5
    m = rbig(rng, 0.005, (20, 45, 70)) or rng.choice([0, 1, 2, 2, 3, 4, 5])
    tag = "w" if rng.random() < 0.5 and m < 8 else "#"
    inner = []
    for i in range(m):
        if rng.random() < 0.15:
            inner.append({"lib": rng.choice(["iter", "empty", "single", "aiter"]), "v": [[tag, i, j] for j in range(rng.randrange(4))]})
            continue
        t, ev = 0.0, []
        for j in range(rng.choice([0, 1, 2, 3, 5])):
            t += rng.choice([0, 1, 1, 2])
            ev.append([t + ((i + 1) / 64 if t > 0 or exact else 0), "N", [tag, i, j]])
        t += rng.choice([0, 1, 2])
        tt = max(t + ((i + 1) / 64 if t > 0 else 0), ev[-1][0] if ev else 0)
        r = rng.random()
        if mayfail and r < 0.3:
            ev.append([tt, "E", rerr(rng, 1)])
        elif r < 0.85:
            ev.append([tt, "C"])
        sp = {"ev": ev, "sync": rng.choice([0, 0, 0, 0, 1, 2, len(ev)])}
        if rng.random() < 0.4:
            sp["rude"] = True
            if rng.random() < 0.5:
                ev.append([tt + 3, "N", ["#", i, "late"]])
                if rng.random() < 0.5:
                    ev.append([tt + 4, rng.choice(["E", "C"]), 0])
            # a rude source may not break the grammar as the current one
            k = next((n for n, e in enumerate(ev) if e[1] != "N"), None)
            if k is not None:
                del ev[k + 1:]
        if rng.random() < 0.08:
            sp["subdelay"] = ["y", rng.randrange(1, 4)]
        if mayfail and rng.random() < 0.06:
            sp["subraise"] = rerr(rng)
        if rng.random() < 0.1:
            sp["disdelay"] = ["y", 2]
        if rng.random() < 0.2:
            sp["spawn"] = True
        inner.append(sp)
    t, out = 0.0, []
    for i in range(m):
        t += rng.choice([1, 2, 3, 4]) if exact else rng.choice([0, 0, 1, 2, 3])
        out.append(t)
    t += rng.choice([0, 1, 2, 5])
    r = rng.random()
    op = rng.choice(OPS)
    return {"op": op, "inner": inner, "out": out, "beh": {"lat": rlat(rng, 0.3)},
            "oterm": [t + 0.5, "E", 2] if mayfail and r < 0.2 else ([t + 0.5, "C"] if r < 0.9 else None),
            "share": gen_share(rng, m), "osync": rng.choice([0, 0, 0, 1]), "mlat": rng.choice([None, ["y", 1], ["y", 3]]) if op.startswith("fml_async") else None}


def run(c):
    case = Case()
    r = Rec(case, "o", c.get("beh"))
    st = {}

    async def main():
        ins = [build_inner(case, sp, i) for i, sp in enumerate(c["inner"])]
        st["ins"] = ins
        ev = [[t, "N", i] for i, t in enumerate(c["out"][: len(ins)])]
        if c.get("oterm"):
            ev.append(c["oterm"])
        outer = Probe(case, {"ev": ev, "sync": c.get("osync", 0)}, "outer")
        st["outer"] = outer
        oerr = boom("outer")
        obsp = c["op"].startswith("switch")
        pub = share(case, c, ins)
        outer.payload = lambda k, x: ((pub[x] if obsp else x) if k == "N" else (oerr if k == "E" else None))

        async def apick(x):
            await pipes.pause(c.get("mlat"))
            return pub[x]

        o = {
            "switch": lambda: pipe(outer, rx.switch_latest()),
            "switch_mod": lambda: m_transform.switch_latest(outer),
            "fml_async": lambda: pipe(outer, rx.flat_map_latest_async(apick)),
            "fml_async_m": lambda: AsyncRx(outer).flat_map_latest_async(apick),
            "fml": lambda: pipe(outer, m_transform.flat_map_latest(lambda x: pub[x])),
        }[c["op"]]()
        await r.subscribe(o)

    res = run_case(main)
    bad = case.bad
    if res.main_exc is not None:
        return Out([f"subscribe raised {res.main_exc!r}"], "exc")
    if res.status != "idle":
        bad.append(f"never comes to rest ({res.status})")
    ins, outer = st["ins"], st["outer"]
    slow = any(c.get("beh", {}).get("lat") or [])
    sub = [p.subs[0] if p.subs else None for p in ins]
    for p in ins:
        if len(p.subs) > 1:
            bad.append(f"{p.name} subscribed {len(p.subs)} times")
    onext = [q for q in outer.issues if q[2] == "N"]  # in order of inner index
    if len(onext) and [s.idx for s in outer.subs] != [0]:
        bad.append("outer subscribed more than once")

    def stale(i, q):  # a newer inner source was subscribed before q
        return any(s is not None and s.seq_sub < q for s in sub[i + 1:])

    def current(i, t):  # the next outer element came strictly later
        return len(onext) <= i + 1 or onext[i + 1][1] > t

    iss = []
    for i, p in enumerate(ins):
        for q in p.issues:
            iss.append((q[0], q[1], q[2], q[3], i))
        for s in p.subs:
            if s.failed is not None:
                iss.append((s.seq_sub, s.finished, "E", s.failed, i))
    for q in outer.issues:
        if q[2] != "N":
            iss.append((q[0], q[1], "OE" if q[2] == "E" else "OC", q[3], -1))
    iss.sort(key=lambda x: x[0])
    ambiguous = False
    errs = []
    for x in iss:
        if x[2] == "OE":
            errs.append(x)
        elif x[2] in ("E", "C") and not stale(x[4], x[0]):
            if not current(x[4], x[1]):
                ambiguous = True
            elif x[2] == "E":
                errs.append(x)
    errs.sort(key=lambda x: x[0])
    te = errs[0][1] if errs else None
    vals = [x for x in iss if x[2] == "N"]
    got = [e for e in r.events if e[0] == "N"]
    used = [False] * len(vals)
    pos = []
    for e in got:
        for j, x in enumerate(vals):
            if not used[j] and same(x[3], e[1]) and x[0] < e[3]:
                used[j] = True
                pos.append(j)
                break
        else:
            bad.append(f"value {show(e[1])} delivered more often than it was issued")
    for a, b in zip(pos, pos[1:]):
        if vals[b][0] < vals[a][0] and (vals[a][4] == vals[b][4] or vals[b][1] < vals[a][1]):
            bad.append(f"value {show(vals[b][3])} delivered out of order")
    withheld = 0
    for j, x in enumerate(vals):
        if stale(x[4], x[0]):
            withheld += 1
            if used[j]:
                bad.append(f"value {show(x[3])} of an abandoned source issued at t={x[1]} was forwarded")
        elif used[j]:
            if te is not None and x[1] > te and not ambiguous:
                bad.append(f"value {show(x[3])} issued after the error was forwarded")
        elif current(x[4], x[1]) and (te is None or x[1] < te) and not ambiguous:
            bad.append(f"value {show(x[3])} of the current source issued at t={x[1]} was lost")
    if not slow:
        for j, e in zip(pos, got):
            if e[2] != vals[j][1]:
                bad.append(f"value {show(e[1])} issued at t={vals[j][1]} delivered at t={e[2]}")
    terms = r.terminals()
    stale_err = [x for x in iss if x[2] == "E" and stale(x[4], x[0])]
    if terms and terms[0][0] == "E" and any(terms[0][1] is x[3] for x in stale_err) and not any(terms[0][1] is x[3] for x in errs):
        bad.append(f"error of an abandoned source was forwarded: {show(terms[0][1])}")
    if not ambiguous:
        if errs:
            if [e[0] for e in terms] != ["E"] or not any(terms[0][1] is x[3] for x in errs if x[1] == te):
                bad.append(f"expected the error {show(errs[0][3])} of t={te}, got {r.brief()}")
        else:
            oc = [x for x in iss if x[2] == "OC"]
            last = len(onext) - 1
            lc = [x for x in iss if x[2] == "C" and x[4] == last]
            if oc and (last < 0 or lc):
                want = max([oc[0][1]] + [x[1] for x in lc[:1]])
                if [e[0] for e in terms] != ["C"]:
                    bad.append(f"outer and latest inner source completed by t={want} but the result is {r.brief()}")
                elif terms[0][2] < want or (not slow and terms[0][2] != want):
                    bad.append(f"completed at t={terms[0][2]} instead of t={want}")
            elif terms:
                bad.append(f"terminated although outer or latest inner source is still running: {r.brief()}")
    for i, s in enumerate(sub[:-1]):
        nxt = next((x for x in sub[i + 1:] if x is not None), None)
        if s is None or nxt is None or s.finished is not None and s.finished <= nxt.t_sub or s.t_ret is None:
            continue
        if s.disposed is None or s.disposed > nxt.t_sub:
            bad.append(f"{s.probe.name} still subscribed after {nxt.probe.name} took over at t={nxt.t_sub}")
        elif s.seq_disposed > nxt.seq_sub:
            bad.append(f"{s.probe.name} was disposed only after {nxt.probe.name} had been subscribed")
    cnt = {"op:" + c["op"]: 1, "values": len(got), "withheld": withheld, "errors": len(errs),
           "completions": sum(e[0] == "C" for e in terms), "switches": max(sum(s is not None for s in sub) - 1, 0),
           "ambiguous": int(ambiguous)}
    return Out(bad, (c["op"], tuple((x[1], x[2], x[4]) for x in iss), r.trace()), cnt, len(iss) > 0, note=r.brief())
