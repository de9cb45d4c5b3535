"""Pipeline specs -> observables (real code) and -> list models (oracle).

A pipeline is {"src": [kind, args], "ops": [[name, args, style], ...]}; everything is JSON.
"""
import asyncio
import zlib

from . import core  # noqa: F401
import aioreactive as rx
import aioreactive.combine as m_combine
import aioreactive.create as m_create
import aioreactive.filtering as m_filtering
import aioreactive.timeshift as m_time
import aioreactive.transform as m_transform
from aioreactive import AsyncObservable, AsyncRx
from expression import Nothing, Some, pipe
from expression.collections import seq
from expression.system import AsyncDisposable

from .kit import Probe, boom, pause, val


# ---------------------------------------------------------------- user functions
def h(x):
    """Stable structural hash that never uses == or truth values of elements."""
    t = type(x)
    if t is int:
        return x
    if x is None:
        return 17
    if t is tuple or t is list:
        r = 7
        for y in x:
            r = (r * 31 + h(y)) % 1000003
        return r
    return zlib.crc32((t.__name__ + (repr(x) if t in (str, float, bool, bytes) else str(getattr(x, "n", "")))).encode()) % 1000003


TRUTHY = [True, 1, "x", (0,), -1]
FALSY = [False, 0, "", (), None]

MAPS = {
    "id": lambda k, x: x,
    "tag": lambda k, x: (k, x),
    "none": lambda k, x: None,
    "falsy": lambda k, x: FALSY[h(x) % len(FALSY)],
    "pair": lambda k, x: (x, h(x)),
    "lpair": lambda k, x: [x, h(x)],
    "trip": lambda k, x: (x, h(x), k),
    "quad": lambda k, x: [k, x, None, x],
    "solo": lambda k, x: (x,),
    "nil": lambda k, x: (),
    "hash": lambda k, x: (h(x) + k) % 5,
    "notif": lambda k, x: val(23 + h(x) % 4),
}
PREDS = {
    "mod": lambda k, x: TRUTHY[h(x) % 5] if (h(x) + k) % 3 else FALSY[h(x) % 5],
    "all": lambda k, x: TRUTHY[h(x) % 5],
    "no": lambda k, x: FALSY[h(x) % 5],
}
PREDI = {
    "idx": lambda k, x, i: TRUTHY[i % 5] if (i + k) % 3 else FALSY[i % 5],
    "all": lambda k, x, i: True,
    "mod": lambda k, x, i: (h(x) + i * k) % 2,
}
ACCS = {
    "sum": lambda k, a, x: ((a if type(a) is int else 1) * 31 + h(x) + k) % 1000003,
    "last": lambda k, a, x: x,
    "none": lambda k, a, x: None,
    "cnt": lambda k, a, x: (a if type(a) is int else 0) + 1,
}


class Calls:
    """Log of user-function calls of one operator instance."""

    def __init__(self, case, name, spec):
        self.case = case
        self.name = name
        self.spec = spec
        self.calls = []
        self.exc = []
        self.active = 0
        self.max_active = 0

    def enter(self, args):
        n = len(self.calls)
        self.calls.append(args)
        self.case.ev(self.name, "call", n)
        b = self.spec.get("boom")
        vb = self.spec.get("vboom")
        if b is not None and n == b[0] or vb is not None and h(args) % 7 == vb:
            ex = boom(f"{self.name}:{n}" if vb is None else self.name, b[1] if vb is None else 0)
            self.exc.append(ex)
            self.case.__dict__.setdefault("booms", []).append(ex)
            raise ex


def mkfn(case, name, spec, table, is_async=False):
    f = table[spec.get("f", next(iter(table)))]
    k = spec.get("k", 0)
    c = Calls(case, name, spec)
    lat = spec.get("lat")
    case.__dict__.setdefault("fns", {})[name] = c
    if is_async:

        async def afn(*args):
            c.active += 1
            c.max_active = max(c.max_active, c.active)
            try:
                if spec.get("late_boom"):
                    await pause(lat)
                    c.enter(args)
                else:
                    c.enter(args)
                    await pause(lat)
                return f(k, *args)
            finally:
                c.active -= 1

        return afn

    def fn(*args):
        c.enter(args)
        return f(k, *args)

    return fn


def opt(v, keep):
    return Some(v) if keep else Nothing


CHOOSE = {
    "mod": lambda k, x: opt((k, x), (h(x) + k) % 3),
    "some": lambda k, x: Some(x),
    "none": lambda k, x: Nothing,
    "wrap": lambda k, x: opt(None, (h(x) + k) % 2),
}


# ---------------------------------------------------------------- operators
def _star(tbl):
    # element is (x, hash): predicate/mapper over spread arguments
    return {n: (lambda k, a, b, _f=f: _f(k, a)) for n, f in tbl.items()}


STARMAP = {"tup": lambda k, *a: (k, *a), "first": lambda k, *a: a[0] if a else k, "last": lambda k, *a: a[-1] if a else k, "none": lambda k, *a: None}
STARPRED = {"mod": lambda k, *a: TRUTHY[h(a) % 5] if (h(a) + k) % 3 else FALSY[h(a) % 5], "all": lambda k, *a: 1}
MAPI = {"ix": lambda k, x, i: (i, x), "i": lambda k, x, i: i, "none": lambda k, x, i: None}


SHARE = None  # when a dict: one operator value per position, shared by every pipeline built from the same spec


def _ap(style, src, name, *args, mods=(), key=None):
    """Apply operator `name` in the requested style."""
    if style == 2 and hasattr(AsyncRx, name):
        s = src if isinstance(src, AsyncRx) else AsyncRx(src)
        return getattr(s, name)(*args)
    if style == 1:
        for m in mods:
            if hasattr(m, name):
                f = getattr(m, name)
                break
        else:
            f = getattr(rx, name)
    else:
        f = getattr(rx, name, None)
        if f is None:
            for m in (m_transform, m_filtering, m_combine, m_time):
                if hasattr(m, name):
                    f = getattr(m, name)
                    break
    if name == "distinct_until_changed":
        return f(src)
    if name == "switch_latest":
        return pipe(src, f() if f is rx.switch_latest else f)
    if SHARE is not None:
        if key not in SHARE:
            SHARE[key] = f(*args)
        return SHARE[key](src)
    return pipe(src, f(*args))


ELEM = {  # name -> (table, is_async)
    "map": (MAPS, False), "map_async": (MAPS, True),
    "mapi": (MAPI, False), "mapi_async": (MAPI, True),
    "starmap": (STARMAP, False), "starmap_async": (STARMAP, True),
    "filter": (PREDS, False), "filter_async": (PREDS, True),
    "filteri": (PREDI, False), "starfilter": (STARPRED, False),
    "choose": (CHOOSE, False), "choose_async": (CHOOSE, True),
}
SCANS = {"scan": False, "scan_async": True, "reduce": False, "reduce_async": True}
MODS = (m_transform, m_filtering, m_time, m_combine)


class Zs:
    """A sequence that can be iterated again and again."""

    def __init__(self, n):
        self.n = n

    def __iter__(self):
        return iter([val(i * 3 % 50) for i in range(self.n)])


def zseq(a):
    n, kind = a["n"], a.get("kind", 0)
    if kind == 0:
        return list(Zs(n))
    if kind == 1:
        return range(n)
    if kind == 2:
        return Zs(n)
    return tuple(Zs(n)) if kind == 3 else seq.infinite


def apply_op(case, src, op, name, env=None):
    o, a = op[0], op[1] if len(op) > 1 else {}
    style = op[2] if len(op) > 2 else 0
    if o in ELEM:
        tbl, asy = ELEM[o]
        return _ap(style, src, o, mkfn(case, name, a, tbl, asy), mods=MODS, key=name)
    if o in SCANS:
        return _ap(style, src, o, mkfn(case, name, a, ACCS, SCANS[o]), val(a.get("init", 8)), mods=MODS, key=name)
    if o in ("skip", "skip_last", "take", "take_last"):
        return _ap(style, src, o, a["n"], mods=MODS, key=name)
    if o == "slice":
        if style == 2:
            s = src if isinstance(src, AsyncRx) else AsyncRx(src)
            return s[slice(a.get("a"), a.get("b"), a.get("s"))]
        f = m_filtering.slice(a.get("a"), a.get("b"), a.get("s") or 1)
        return pipe(src, f if SHARE is None else SHARE.setdefault(name, f))
    if o == "index":
        s = src if isinstance(src, AsyncRx) else AsyncRx(src)
        return s[a["i"]]
    if o == "distinct_until_changed":
        return _ap(style, src, o, mods=MODS, key=name)
    if o in ("delay", "debounce"):
        return _ap(style, src, o, a["d"], mods=MODS, key=name)
    if o in ("merge", "concat", "combine_latest", "with_latest_from", "take_until"):
        other = src if a.get("self") else build(case, a["other"], name + ".other", env)
        return _ap(style, src, o, other, mods=MODS, key=name)
    if o in ("flat_map", "flat_map_async", "flat_map_latest_async", "flat_map_latest", "concat_map",
             "flat_mapi", "flat_mapi_async"):
        inners = [build(case, s, f"{name}.{j}", env) for j, s in enumerate(a["inner"])]
        c = Calls(case, name, a)
        case.__dict__.setdefault("fns", {})[name] = c
        lat = a.get("lat")

        def which(args, n):  # by value when "byval" (independent of other subscriptions), else in call order
            return inners[(h(args[0]) if a.get("byval") else n) % len(inners)]

        def pick(*args):
            n = len(c.calls)
            c.enter(args)
            return which(args, n)

        async def apick(*args):
            n = len(c.calls)
            c.enter(args)
            await pause(lat)
            return which(args, n)

        return _ap(style, src, o, apick if o.endswith("async") else pick, mods=MODS, key=name)
    if o == "merge_inner":  # source of values -> inner observables, bounded
        inners = [build(case, s, f"{name}.{j}", env) for j, s in enumerate(a["inner"])]
        st = [0]

        def pick2(x):
            st[0] += 1
            return inners[(h(x) if a.get("byval") else st[0] - 1) % len(inners)]

        fs = rx.map(pick2), (rx.merge_inner if style == 0 else m_combine.merge_inner)(a.get("n", 0))
        return pipe(src, *(fs if SHARE is None else SHARE.setdefault(name, fs)))
    if o == "catch":
        hand = build(case, a["handler"], name + ".handler", env)
        c = Calls(case, name, a)
        case.__dict__.setdefault("fns", {})[name] = c

        def handler(ex):
            c.enter((ex,))
            return hand

        return _ap(style, src, o, handler, mods=MODS, key=name)
    if o == "retry":
        return _ap(style, src, o, a["n"], mods=MODS, key=name)
    if o == "zip_seq":
        z = m_combine.zip_seq(zseq(a))
        return pipe(src, z if SHARE is None else SHARE.setdefault(name, z))
    if o == "sample":
        z = m_time.sample(a["d"])
        return pipe(src, z if SHARE is None else SHARE.setdefault(name, z))
    if o == "as_async_observable":
        return src.as_async_observable() if isinstance(src, AsyncRx) else rx.as_async_observable(src)
    if o == "as_chained":
        return rx.as_chained(src)
    if o == "to_async_iterable":
        return rx.to_async_iterable(src)
    raise ValueError(o)


# ---------------------------------------------------------------- sources
class ReIter:
    """Re-iterable; optionally raises after its elements."""

    def __init__(self, case, vals, err, name):
        self.case, self.vals, self.err, self.name = case, vals, err, name
        self.iters = 0
        self.pulled = 0

    def __iter__(self):
        self.case.ev(self.name, "iter")
        return self.elements()

    def elements(self):
        self.iters += 1
        for v in self.vals:
            self.pulled += 1
            yield v
        if self.err is not None:
            raise self.err


class AIter:
    def __init__(self, case, vals, err, lat, name):
        self.case, self.vals, self.err, self.lat, self.name = case, vals, err, lat, name
        self.iters = 0
        self.pulls = []

    async def __aiter__(self):
        self.iters += 1
        for v in self.vals:
            await pause(self.lat)
            self.pulls.append(self.case.ev(self.name, "pull"))
            yield v
        await pause(self.lat)
        if self.err is not None:
            raise self.err


class Hub(AsyncObservable):
    """A subject per subscription, fed by one independent task per scripted notification."""

    def __init__(self, case, a, name):
        self.case, self.a, self.payload = case, a, payload_of(case, name)

    async def subscribe_async(self, send=None, throw=None, close=None):
        a = self.a
        s = rx.AsyncSingleSubject() if a.get("one") else rx.AsyncSubject()
        loop = asyncio.get_running_loop()
        keep = self.case.__dict__.setdefault("hubtasks", [])
        busy = self.case.__dict__.setdefault("hubstat", {"overlap": 0, "n": 0})
        t0 = loop.time()
        active = [0]

        async def issue(e):
            if loop.time() < t0 + e[0]:
                await asyncio.sleep(t0 + e[0] - loop.time())
            busy["n"] += 1
            busy["overlap"] += active[0] > 0
            active[0] += 1
            try:
                x = self.payload(e[1], e[2] if len(e) > 2 else None)
                await (s.asend(x) if e[1] == "N" else s.athrow(x) if e[1] == "E" else s.aclose())
            except Exception:
                pass
            active[0] -= 1

        def play():
            for e in a["ev"]:
                keep.append(loop.create_task(issue(e)))

        if a.get("one") and a.get("early"):
            play()
            await pause(a["early"])
            return await s.subscribe_async(send, throw, close)
        d = await s.subscribe_async(send, throw, close)
        play()
        return d


def build_src(case, src, name, env):
    kind, a = src[0], src[1] if len(src) > 1 else {}
    vals = [val(v) for v in a.get("v", [])]
    err = None
    if a.get("err") is not None and kind != "defer":
        err = boom(f"{name}:src", a["err"])
        case.__dict__.setdefault("srcerr", []).append(err)
    if kind == "iter":
        it = ReIter(case, vals, err, name) if (err is not None or a.get("re")) else list(vals)
        return rx.from_iterable(it) if not a.get("rx") else AsyncRx.from_iterable(it)
    if kind == "aiter":
        it = AIter(case, vals, err, a.get("lat"), name)
        return rx.from_async_iterable(it)
    if kind == "single":
        return rx.single(vals[0] if vals else None)
    if kind == "empty":
        return rx.empty()
    if kind == "never":
        return rx.never()
    if kind == "fail":
        return m_create.fail(err if err is not None else boom(name))
    if kind == "of_async":
        async def wf():
            await pause(a.get("lat"))
            if err is not None:
                raise err
            return vals[0] if vals else None

        return rx.of_async(wf())
    if kind == "interval":
        return rx.interval(a["s"], a["p"])
    if kind == "timer":
        return rx.timer(a["s"])
    if kind == "defer":
        def factory():
            case.ev(name, "defer")
            return build_src(case, a["src"], name, env)

        return rx.defer(factory)
    if kind == "create":
        async def subscribe(obv):
            for v in vals:
                await obv.asend(v)
            if err is not None:
                await obv.athrow(err)
            elif a.get("c", True):
                await obv.aclose()
            return AsyncDisposable.empty()

        return m_create.create(subscribe)
    if kind == "probe":
        p = Probe(case, a, name)
        if p.payload is None:
            p.payload = payload_of(case, name)
        case.__dict__.setdefault("probes", []).append(p)
        if env is not None:
            env.setdefault("probes", {})[name] = p
        return p
    if kind == "subject":
        s = rx.AsyncSubject()
        case.__dict__.setdefault("subjects", {})[a.get("id", name)] = s
        return s
    if kind == "hub":
        return Hub(case, a, name)
    if kind == "pipe":
        return build(case, a, name, env)
    raise ValueError(kind)


def payload_of(case, name):
    errs = {}

    def f(kind, code):
        if kind == "N":
            return val(code)
        if kind == "E":
            if code not in errs:
                errs[code] = boom(f"{name}:E{code}", code if isinstance(code, int) else 0)
            return errs[code]
        return None

    return f


def build(case, spec, name="p", env=None):
    if isinstance(spec, list):
        s = build_src(case, spec, name, env)
        return env["stage"](s, name, spec) if env and env.get("stage") else s
    s = build_src(case, spec["src"], name + ".s", env)
    stage = env.get("stage") if env else None
    if stage:
        s = stage(s, name + ".s", spec["src"])
    for i, op in enumerate(spec.get("ops", [])):
        s = apply_op(case, s, op, f"{name}.{i}.{op[0]}", env)
        if stage:
            s = stage(s, f"{name}.{i}.{op[0]}", op)
    return s


# ---------------------------------------------------------------- list models
class Err:
    """Model terminal: an error raised by the user function of operator `name` or by the source."""

    def __init__(self, who):
        self.who = who

    def __repr__(self):
        return f"Err({self.who})"

    def __eq__(self, o):
        return isinstance(o, Err) and o.who == self.who

    __hash__ = None


def eq(a, b):
    """== as the library may apply it to elements."""
    r = a == b
    return r if isinstance(r, bool) else (r is not NotImplemented and bool(r))


def model_op(op, vals, term, name, calls=None):
    o, a = op[0], op[1] if len(op) > 1 else {}
    k = a.get("k", 0)
    out = []
    if calls is None:
        calls = {}
    log = calls.setdefault(name, [])
    b = a.get("boom")

    def called(args):
        n = len(log)
        log.append(args)
        return b is not None and n == b[0]

    if o in ELEM:
        tbl, _ = ELEM[o]
        f = tbl[a.get("f", next(iter(tbl)))]
        for i, x in enumerate(vals):
            if o.startswith("star"):
                args = tuple(x)
            elif o in ("mapi", "mapi_async", "filteri"):
                args = (x, i)
            else:
                args = (x,)
            if called(args):
                return out, Err(name)
            r = f(k, *args)
            if "map" in o:
                out.append(r)
            elif "filter" in o:
                if r:
                    out.append(x)
            else:
                out.extend(r.to_list())
        return out, term
    if o in SCANS:
        f = ACCS[a.get("f", "sum")]
        acc = val(a.get("init", 8))
        for x in vals:
            if called((acc, x)):
                return (out, Err(name)) if o.startswith("scan") else ([], Err(name))
            acc = f(k, acc, x)
            out.append(acc)
        if o.startswith("scan"):
            return out, term
        return (out[-1:], "C") if term == "C" else ([], term)
    if o == "skip":
        return vals[a["n"]:], term
    if o == "skip_last":
        n = a["n"]
        return vals[: max(len(vals) - n, 0)], term
    if o == "take":
        n = a["n"]
        return (vals[:n], "C") if len(vals) >= n else (vals, term)
    if o == "take_last":
        n = a["n"]
        return (vals[max(len(vals) - n, 0):], term) if term == "C" else ([], term)
    if o == "slice":
        assert term == "C"
        return vals[a.get("a"): a.get("b"): a.get("s") or 1], "C"
    if o == "index":
        assert term == "C"
        i = a["i"]
        return ([vals[i]] if -len(vals) <= i < len(vals) else []), "C"
    if o == "zip_seq":
        z = iter(zseq(a))
        for x in vals:
            y = next(z, z)
            if y is z:
                return out, "C"
            out.append((x, y))
        return out, term
    if o == "distinct_until_changed":
        for i, x in enumerate(vals):
            if i == 0 or not eq(x, vals[i - 1]):
                out.append(x)
        return out, term
    if o in ("delay", "as_async_observable", "as_chained", "to_async_iterable"):
        return list(vals), term
    raise ValueError(o)


def model(spec, name="p", calls=None):
    """List model of a pipeline over a one-shot source; returns (values, terminal)."""
    src = spec["src"]
    a = src[1] if len(src) > 1 else {}
    if src[0] == "probe":
        vals = [val(e[2]) for e in a["ev"] if e[1] == "N"]
        ts = [e for e in a["ev"] if e[1] != "N"]
        term = None if not ts else ("C" if ts[0][1] == "C" else Err("src"))
    else:
        vals = [val(v) for v in a.get("v", [])]
        term = Err("src") if a.get("err") is not None else "C"
    for i, op in enumerate(spec.get("ops", [])):
        vals, term = model_op(op, vals, term, f"{name}.{i}.{op[0]}", calls)
    return vals, term
