"""
C17  Bunch is a dictionary with attributes, and its updates are atomic.

A configuration store: several clients, at simulated times, run operations on a few shared
Bunches -- item and attribute access, the dictionary methods, restricted and strict
updates, configuration files -- while their sources fail midway, files are missing, torn
or raise in the middle, and the process crashes and restarts from what was pickled.  A
reference model (a plain dict per Bunch) says after every operation what every Bunch holds
and whether the operation raises.
"""

import copy
import pickle
import os
import shutil
import tempfile

from .. import workload as wl
from ..core import EventLoop, rng_for

ID = "C17"
COUNTS = {"quick": 3000, "thorough": 60000}
LIMIT = 60.0
RULE = (
    "10-60 operations of 2-4 clients on 1-4 Bunches, sources and files that fail, crash and "
    "restart from pickles; non-trivial: at least one operation failed and one restricted update applied"
)
STATES = "distinct (operation, outcome, contents) reached"
REAL = ["utide.utilities.Bunch"]
STUB = ["clients (event simulation)", "failing sources", "configuration files (scratch directory)"]
ASSUMPTIONS = [
    "names that are attributes of dict or Bunch are used as items only; deleting an attribute is not claimed; "
    "the plain dictionary update() is not atomic when its source fails",
]

KEYS = ["a", "b", "c", "mean", "slope", "A", "theta", "aux", "z9", "_x", "items", "copy", "ü", "with space", "long" * 8]
OPS = [
    "set", "set", "setattr", "setattr", "get", "getattr", "missing", "del", "pop", "popdef", "popitem", "setdefault",
    "update", "update_kw", "update_pairs", "update_values", "update_values", "update_values", "update_values_strict",
    "update_values_strict", "update_None", "update_None", "update_None_strict", "values_fail", "None_fail", "pyfile",
    "pyfile", "copy", "deepcopy", "dictcopy", "pickle", "restart", "construct", "construct_multi", "clear", "or", "ior",
    "format", "types", "fmt", "t_mpl", "unhashable",
]


def gen_value(rng, depth=0):
    k = rng.randrange(9)
    if k < 3:
        return None
    if k == 3:
        return rng.randrange(-5, 100)
    if k == 4:
        return round(rng.uniform(-1, 1), 3)
    if k == 5:
        return rng.choice(["", "x", "Greenwich", "y" * 45, "two\nlines"])
    if k == 6:
        return [rng.randrange(9) for _ in range(rng.randrange(3))]
    if k == 7 and depth < 2:
        return {"__bunch__": {key: gen_value(rng, depth + 1) for key in rng.sample(KEYS, rng.randrange(3))}}
    return rng.random() < 0.5


def gen_src(rng, n=4):
    return {k: gen_value(rng) for k in rng.sample(KEYS, rng.randint(0, n))}


PYSTMTS = [
    "a = 3",
    "b = [i * 2 for i in range(4)]",
    "c = '''one\ntwo\n  three\n'''",
    "def f(x):\n    \"\"\"doc\n    string\"\"\"\n    return x + 1\nmean = f(2)",
    "slope = None",
    "# a comment\n\nA = {k: k ** 2 for k in range(3)}",
    "if True:\n    theta = 'yes'\nelse:\n    z9 = 'no'",
    "for a in range(3):\n    pass",
    "aux = (1,\n  2,\n3)",
    "import math\nz9 = math.floor(2.5)",
    "b = 'line \\\n  continued'",
    "k1, k2 = 1, [2]",
    "try:\n    q = 1 / 0\nexcept ZeroDivisionError:\n    q = 'zero'",
    "w = a if 'a' in dir() else 0",
    "base = 10\nout = [base + i for i in range(3)]",
    "base = 2\ndef scale(x):\n    return base * x\nscaled = [scale(i) for i in range(3)]",
]


def generate(rng, tier, i):
    nb = rng.randint(1, 4)
    ops = []
    for _ in range(rng.randint(10, 60)):
        op = rng.choice(OPS)
        d = {
            "op": op,
            "b": rng.randrange(nb),
            "b2": rng.randrange(nb),
            "key": rng.choice(KEYS),
            "val": gen_value(rng),
            "srcs": [gen_src(rng) for _ in range(rng.randint(0, 3))],
            "kw": {k: v for k, v in gen_src(rng, 2).items() if k.isidentifier()},
            "kind": rng.choice(["dict", "dict", "bunch", "pairs", "gen", "mapping"]),
            "fail_at": rng.randrange(4),
            "known": rng.random() < 0.5,
            "proto": rng.randrange(2, pickle.HIGHEST_PROTOCOL + 1),
            "t": rng.random() * 100,
        }
        if op == "pyfile":
            d["file"] = rng.sample(PYSTMTS, rng.randint(0, 5))
            d["fault"] = rng.choice(["none", "none", "none", "missing", "torn", "raises", "binary", "isdir", "crlf"])
            d["cut"] = rng.random()
        ops.append(d)
    return {"nb": nb, "init": [gen_src(rng, 8) for _ in range(nb)], "ops": ops, "seed": rng.randrange(1 << 30)}


class SourceFailed(Exception):
    pass


class Mapping:
    """the least that dict.update accepts as a mapping"""

    def __init__(self, d, fail_at=None):
        self.d, self.fail_at = d, fail_at

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        if self.fail_at is not None and list(self.d).index(k) >= self.fail_at:
            raise SourceFailed("mapping")
        return self.d[k]


def execute(sc, ctx):
    from .. import target

    target.load()
    wl.quiet()
    from utide.utilities import Bunch

    rng = rng_for("bunch", sc["seed"])
    scratch = tempfile.mkdtemp(prefix="dst-bunch-")
    try:
        run(sc, ctx, Bunch, rng, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def thaw(v, cls):
    if isinstance(v, dict):
        if set(v) == {"__bunch__"}:
            return cls({k: thaw(x, cls) for k, x in v["__bunch__"].items()})
        return {k: thaw(x, cls) for k, x in v.items()}
    return copy.copy(v) if isinstance(v, list) else v


def run(sc, ctx, Bunch, rng, scratch):
    reserved = set(dir(Bunch())) | {"t_mpl"}
    real = [Bunch(thaw(d, Bunch)) for d in sc["init"]]
    model = [thaw(d, Bunch) for d in sc["init"]]
    disk = {}
    nfail = napplied = 0
    step = [0]

    def check(i, what):
        b, m = real[i], model[i]
        if type(b) is not Bunch:
            ctx.fail("type", f"{what}: bunch {i} is a {type(b).__name__}")
        if dict(b) != m or len(b) != len(m) or list(b) != list(m):
            ctx.fail("contents", f"{what}: bunch {i} holds {dict(b)!r}, a dictionary would hold {m!r}")
        if vars(b):
            ctx.fail("contents", f"{what}: bunch {i} has hidden attributes {vars(b)!r}")
        for k, v in m.items():
            if b[k] is not v and b[k] != v:
                ctx.fail("contents", f"{what}: item {k!r} is {b[k]!r}, should be {v!r}")
            if k not in reserved and getattr(b, k) is not b[k]:
                ctx.fail("attribute", f"{what}: attribute {k!r} is {getattr(b, k)!r}, item is {b[k]!r}")
        for k in KEYS:
            if k not in m and k not in reserved:
                if hasattr(b, k) or k in b:
                    ctx.fail("attribute", f"{what}: {k!r} is not in the dictionary but is seen")

    def source(d, kind, fail_at=None):
        """-> object to pass as an update source with the contents d"""
        d = thaw(d, Bunch)
        if fail_at is not None:
            if kind in ("gen", "pairs", "dict"):

                def g():
                    for n, kv in enumerate(d.items()):
                        if n == fail_at:
                            raise SourceFailed("generator")
                        yield kv
                    raise SourceFailed("generator, at its end")

                return g()
            return Mapping({**d, "a": 1}, min(fail_at, len({**d, "a": 1}) - 1))
        if kind == "bunch":
            return Bunch(d)
        if kind == "pairs":
            return list(d.items())
        if kind == "gen":
            return iter(list(d.items()))
        if kind == "mapping":
            return Mapping(d)
        return d

    def merged(o, m):
        new = {}
        for s in o["srcs"]:
            new.update(thaw(s, Bunch))
        new.update(thaw(o["kw"], Bunch))
        return new

    def restrict(o, m):
        """in half of the runs make the sources mostly refer to keys that are there"""
        if not o["known"]:
            return o
        o = dict(o)
        keep = lambda s: {k: v for k, v in s.items() if k in m}  # noqa: E731
        extra = {k: o["val"] for k in list(m)[: 1 + o["fail_at"]]}
        o["srcs"] = [keep(s) for s in o["srcs"]] + [extra]
        o["kw"] = keep(o["kw"])
        return o

    def expect(what, exc, fn):
        """fn raises exactly exc (a class), or returns if exc is None"""
        nonlocal nfail
        try:
            r = fn()
        except Exception as e:
            if exc is None:
                ctx.fail("unexpected-exception", f"{what}: {type(e).__name__}: {e}")
            if exc is not Exception and not isinstance(e, exc):
                ctx.fail("error-type", f"{what} raised {type(e).__name__}: {e}, expected {exc.__name__}")
            nfail += 1
            return None
        if exc is not None:
            ctx.fail("no-error", f"{what} returned {r!r}, expected {getattr(exc, '__name__', exc)}")
        return r

    def fmt_model(m, types=False, fmt="{0!s:<{klen}} : {1!s:>{vlen}}\n"):
        rows = [(k, type(m[k]).__name__ if types else m[k]) for k in sorted(m)]
        klen = min(20, max([len(str(k)) for k, _ in rows] + [0]))
        vlen = min(40, max([len(str(v)) for _, v in rows] + [0]))
        return "".join(fmt.format(k, v, klen=klen, vlen=vlen) for k, v in rows)

    def one(o):
        nonlocal napplied
        i, j, op, key = o["b"], o["b2"], o["op"], o["key"]
        b, m = real[i], model[i]
        val = thaw(o["val"], Bunch)
        what = f"step {step[0]} {op}"
        step[0] += 1
        ctx.calls[op] += 1
        if op == "set":
            b[key] = val
            m[key] = val
        elif op == "setattr":
            if key in reserved:
                return
            setattr(b, key, val)
            m[key] = val
        elif op == "get":
            r = expect(f"{what} {key!r}", None if key in m else KeyError, lambda: b[key])
            if key in m and r is not m[key] and r != m[key]:
                ctx.fail("contents", f"{what} {key!r}: {r!r}")
            if b.get(key, "dflt") != m.get(key, "dflt"):
                ctx.fail("contents", f"{what}: get({key!r}) differs")
        elif op == "getattr":
            if key in reserved:
                return
            expect(f"{what} {key!r}", None if key in m else AttributeError, lambda: getattr(b, key))
        elif op == "missing":
            for k in ("nokey", "__nodunder__"):
                expect(what, AttributeError, lambda: getattr(b, k))
                expect(what, KeyError, lambda: b[k])
            if getattr(b, "nokey", 5) != 5:
                ctx.fail("attribute", f"{what}: getattr default ignored")
        elif op == "del":
            expect(what, None if key in m else KeyError, lambda: b.__delitem__(key))
            m.pop(key, None)
        elif op == "pop":
            r = expect(what, None if key in m else KeyError, lambda: b.pop(key))
            if r != m.pop(key, None):
                ctx.fail("contents", f"{what}: {r!r}")
        elif op == "popdef":
            if b.pop(key, 77) != m.pop(key, 77):
                ctx.fail("contents", f"{what} differs")
        elif op == "popitem":
            r = expect(what, None if m else KeyError, lambda: b.popitem())
            if m and r != m.popitem():
                ctx.fail("contents", f"{what}: {r!r}")
        elif op == "setdefault":
            if b.setdefault(key, val) != m.setdefault(key, val):
                ctx.fail("contents", f"{what} differs")
        elif op == "clear":
            b.clear()
            m.clear()
        elif op in ("update", "update_pairs"):
            for s in o["srcs"][:1]:
                b.update(source(s, "pairs" if op == "update_pairs" else o["kind"]))
                m.update(thaw(s, Bunch))
        elif op == "update_kw":
            b.update(**thaw(o["kw"], Bunch))
            m.update(thaw(o["kw"], Bunch))
        elif op.startswith(("update_values", "update_None")):
            o = restrict(o, m)
            strict = op.endswith("strict")
            only_none = "None" in op
            new = merged(o, m)
            bad = sorted(set(new) - set(m))
            f = b.update_None if only_none else b.update_values
            args = [source(s, o["kind"]) for s in o["srcs"]]
            kw = thaw(o["kw"], Bunch)
            if strict or o["fail_at"] == 0:
                kw["strict"] = strict
            expect(f"{what} of {sorted(new)} on {sorted(m)}", KeyError if strict and bad else None, lambda: f(*args, **kw))
            if not (strict and bad):
                for k, v in new.items():
                    if k in m and (not only_none or m[k] is None):
                        m[k] = v
                        napplied += 1
            else:
                ctx.faults["strict update with unknown keys"] += 1
        elif op in ("values_fail", "None_fail"):
            o = restrict(o, m)
            f = b.update_None if op == "None_fail" else b.update_values
            args = [source(s, "dict") for s in o["srcs"]] + [source({k: 1 for k in list(m)[:3]}, o["kind"], o["fail_at"])]
            ctx.faults["update source failed midway"] += 1
            expect(what, SourceFailed, lambda: f(*args, **thaw(o["kw"], Bunch)))
        elif op == "unhashable":
            args = [source(s, "dict") for s in o["srcs"]] + [[("a", 1), ([], 2)]]
            ctx.faults["update source with an invalid key"] += 1
            expect(what, TypeError, lambda: b.update_values(*args))
        elif op == "pyfile":
            pyfile(o, b, m, what)
        elif op in ("copy", "deepcopy", "dictcopy"):
            c = {"copy": copy.copy, "deepcopy": copy.deepcopy, "dictcopy": lambda x: x.copy()}[op](b)
            if dict(c) != m or (op != "dictcopy" and type(c) is not Bunch):
                ctx.fail("copy", f"{what}: {type(c).__name__} {c!r} of {m!r}")
            for k in m:
                if op != "deepcopy" and c[k] is not b[k]:
                    ctx.fail("copy", f"{what}: item {k!r} was copied")
                if op == "deepcopy" and isinstance(m[k], (list, Bunch)) and c[k] is b[k]:
                    ctx.fail("copy", f"{what}: item {k!r} is shared")
            c["copied"] = 1
            c.pop(key, None)
            if op == "deepcopy":
                for v in c.values():
                    if isinstance(v, list):
                        v.append("changed")
                    elif isinstance(v, Bunch):
                        v["changed"] = 1
        elif op == "pickle":
            disk[i] = (pickle.dumps(b, o["proto"]), copy.deepcopy(m))
            c = pickle.loads(disk[i][0])
            if type(c) is not Bunch or dict(c) != m:
                ctx.fail("pickle", f"{what}: {c!r} of {m!r}")
        elif op == "restart":
            if disk:
                ctx.faults["crash and restart from pickles"] += 1
            for k, (raw, saved) in disk.items():
                real[k] = pickle.loads(raw)
                model[k] = copy.deepcopy(saved)
        elif op == "construct":
            s = o["srcs"][0] if o["srcs"] else {}
            real[i] = Bunch(source(s, o["kind"]), **thaw(o["kw"], Bunch))
            model[i] = {**thaw(s, Bunch), **thaw(o["kw"], Bunch)}
        elif op == "construct_multi":
            model[i] = merged(o, m)
            given = [thaw(s, Bunch) for s in o["srcs"]]
            real[i] = Bunch(*given, **thaw(o["kw"], Bunch))
            real[i]["own"] = 1
            model[i]["own"] = 1
            if given != [thaw(s, Bunch) for s in o["srcs"]]:
                ctx.fail("alias", f"{what}: the dictionary given to the constructor was changed")
        elif op == "or":
            r = b | real[j]
            if dict(r) != {**m, **model[j]}:
                ctx.fail("contents", f"{what}: {r!r}")
        elif op == "ior":
            b |= real[j]
            m.update(model[j])
            if b is not real[i]:
                ctx.fail("contents", f"{what} made another object")
        elif op in ("format", "types", "fmt"):
            if op == "fmt":
                f = "<{0!s:>{klen}}={1!s:<{vlen}}>"
                got, want = expect(what, None, lambda: b.formatted(f)), fmt_model(m, fmt=f)
            elif op == "types":
                got, want = expect(what, None, lambda: b.formatted(types=True)), fmt_model(m, True)
            else:
                got, want = expect(what, None, lambda: str(b)), fmt_model(m)
            if got != want:
                ctx.fail("format", f"{what}: {got!r}, expected {want!r}")
        elif op == "t_mpl":
            if hasattr(b, "t_mpl") != ("t_mpl" in m):
                ctx.fail("attribute", f"{what}: hasattr says {hasattr(b, 't_mpl')}")
            b["t_mpl"] = val
            if b.t_mpl is not val:
                ctx.fail("attribute", f"{what}: {b.t_mpl!r}")
            del b["t_mpl"]

    def pyfile(o, b, m, what):
        path = os.path.join(scratch, f"conf{step[0]}.py")
        text = "\n".join(o["file"]) + ("\n" if o["cut"] < 0.7 else "")
        fault = o["fault"]
        raw = None
        if fault == "torn":
            raw = text.encode()[: int(o["cut"] * len(text))]
        elif fault == "raises":
            lines = o["file"]
            k = int(o["cut"] * (len(lines) + 1))
            raw = "\n".join([*lines[:k], "boom = 1 // 0", *lines[k:]]).encode()
        elif fault == "binary":
            raw = text.encode() + b"\nx = '\xff\xfe'\n"
        elif fault == "crlf":
            raw = text.replace("\n", "\r\n").encode()
        elif fault in ("none", "isdir"):
            raw = text.encode()
        if fault == "isdir":
            os.mkdir(path)
        elif raw is not None:
            with open(path, "wb") as f:
                f.write(raw)
        if fault not in ("none", "crlf"):
            ctx.faults[f"configuration file {fault}"] += 1
        want, exc = None, None
        if fault in ("missing", "isdir"):
            exc = OSError
        elif fault == "binary":
            exc = Exception
        else:
            # the reference: the statements executed at module level
            ns = {}
            try:
                exec(compile(raw.decode().replace("\r\n", "\n"), "conf", "exec"), ns)  # noqa: S102
                want = {k: v for k, v in ns.items() if k != "__builtins__"}
            except Exception:
                exc = Exception
        r = expect(f"{what} {raw!r}", exc, lambda: b.from_pyfile(path))
        if exc is None:
            if r is not b:
                ctx.fail("contents", f"{what} does not return the bunch itself")
            for k, v in want.items():
                if k not in b:
                    ctx.fail("contents", f"{what}: {k} of the file is missing")
                if callable(v) or type(v).__name__ == "module":
                    if type(b[k]) is not type(v):
                        ctx.fail("contents", f"{what}: {k} is {b[k]!r}")
                    dict.__delitem__(b, k)  # functions do not pickle or compare
                    m.pop(k, None)
                else:
                    if b[k] != v:
                        ctx.fail("contents", f"{what}: {k} is {b[k]!r}, the file says {v!r}")
                    m[k] = v
            # the file does not say in which order they come
            if set(b) != set(m):
                ctx.fail("contents", f"{what}: holds {sorted(b)}, expected {sorted(m)}")
            model[o["b"]] = {k: m[k] for k in b}

    loop = EventLoop()

    def event(o):
        before = len(ctx.events)
        one(o)
        for k in range(sc["nb"]):
            check(k, f"after step {step[0] - 1} {o['op']} on bunch {o['b']}")
        ctx.log(step[0], o["op"], o["b"], repr(model[o["b"]]), before)
        ctx.state(o["op"], repr(model[o["b"]]))

    for o in sc["ops"]:
        loop.at(o["t"], lambda o=o: event(o))
    loop.run()
    ctx.sim_days += 100 / 86400
    ctx.nontrivial = nfail > 0 and napplied > 0


def shrink(sc, rep):
    n = len(sc["ops"])
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            c = copy.deepcopy(sc)
            del c["ops"][a : a + size]
            if c["ops"]:
                yield c
        size //= 2
    for k, o in enumerate(sc["ops"]):
        for f in ("srcs", "kw"):
            if o[f]:
                c = copy.deepcopy(sc)
                c["ops"][k][f] = type(o[f])()
                yield c
    for k, d in enumerate(sc["init"]):
        for key in d:
            c = copy.deepcopy(sc)
            del c["init"][k][key]
            yield c
