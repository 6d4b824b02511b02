"""The Python side of C18: drive the real extension module and compare with the core's answers.

usage: pyside.py <dir with _ronda.so> <rows> <journal>.  Exit 0 and a report, or 1 and a line "BAD {...}".
"""
import gc, json, operator, random, sys

sys.path.insert(0, sys.argv[1])
import _ronda

R = _ronda.RustyVersion
OPS = [("==", operator.eq), ("!=", operator.ne), ("<", operator.lt), ("<=", operator.le), (">=", operator.ge), (">", operator.gt)]
n = {}
pairs = set()
samples = []


def hit(k, by=1):
    n[k] = n.get(k, 0) + by
    n["evaluations"] = n.get("evaluations", 0) + by


class Bad(Exception):
    pass


def make(s):
    return R.__new__(R, s)


def raises(kind, what, f, *a):
    try:
        x = f(*a)
    except kind as e:
        str(e), repr(e)
        return e
    except BaseException as e:
        raise Bad("%s raises %s (%s) instead of %s" % (what, type(e).__name__, e, kind.__name__))
    raise Bad("%s gives %r instead of raising %s" % (what, x, kind.__name__))


def check(row, k):
    vs = {}
    for i, v in enumerate(row["versions"]):
        s = v["s"]
        if v["ok"]:
            try:
                vs[i] = make(s)
            except BaseException as e:
                raise Bad("%r: the core accepts it, Python raises %s: %s" % (s, type(e).__name__, e))
            if type(vs[i]) is not R or repr(vs[i]) != s or str(vs[i]) != s:
                raise Bad("%r is represented as %r" % (s, repr(vs[i])))
            hit("created")
        else:
            raises(ValueError, "%r, which the core refuses," % s, make, s)
            hit("refused")
    smaller = {}
    for i, j, bits, sw in row["pairs"]:
        a, b = vs[i], vs[j]
        for (name, f), want in zip(OPS, bits):
            got = f(a, b)
            if got is not want:
                raise Bad("%r %s %r is %r in Python and %r in the core" % (repr(a), name, repr(b), got, want))
        got = a.startswith(b)
        if got is not sw:
            raise Bad("%r.startswith(%r) is %r in Python and %r in the core" % (repr(a), repr(b), got, sw))
        hit("comparisons", 6)
        hit("startswith")
        if bits[2]:
            smaller.setdefault(j, set()).add(i)
        if repr(a) != repr(b):
            pairs.add((repr(a), repr(b)))
            if len(samples) < 3 and k % 50 == 7:
                samples.append({"left": repr(a), "right": repr(b), "core": bits})
    # sorting and extremes go by the same order
    order = sorted(vs, key=lambda i: vs[i])
    ranks = [len(smaller.get(i, ())) for i in order]
    if ranks != sorted(ranks):
        raise Bad("sorted() gives %r, which the core's order does not" % [repr(vs[i]) for i in order])
    if vs and len(smaller.get([i for i in vs if vs[i] is max(vs.values())][0], ())) != max(ranks):
        raise Bad("max() of %r is not the greatest" % [repr(v) for v in vs.values()])
    hit("sorted")
    # operands of other kinds
    for i in list(vs)[:2]:
        a = vs[i]
        for x in (repr(a), 1, None, b"1", 1.0, [], R, object()):
            if (a == x) is not False or (a != x) is not True or (x == a) is not False:
                raise Bad("%r compared with %r is not simply unequal" % (repr(a), x))
            for name, f in OPS[2:]:
                raises(TypeError, "%r %s %r" % (repr(a), name, x), f, a, x)
            raises(TypeError, "%r.startswith(%r)" % (repr(a), x), a.startswith, x)
            hit("type_errors", 8)
        raises(TypeError, "startswith without argument", a.startswith)
        raises(TypeError, "startswith with two arguments", a.startswith, a, a)
    if k % 16 == 0:
        for x in (1, None, b"1.0", ["1.0"], 1.5):
            raises(TypeError, "a version from %r" % (x,), make, x)
        raises(TypeError, "a version from nothing", R.__new__, R)
        raises(TypeError, "a version from two texts", R.__new__, R, "1", "2")
        hit("type_errors", 7)
    # references are counted right: survive collection, die after it
    if k % 8 == 0:
        keep = [make(repr(v)) for v in vs.values() for _ in range(20)]
        before = [repr(v) for v in keep]
        vals = list(vs.values())
        v = w = None
        refs = [sys.getrefcount(x) for x in vals]
        for _ in range(50):
            for v in keep:
                for w in vals:
                    v < w, v == w, v.startswith(w)
        v = w = None
        after = [sys.getrefcount(x) for x in vals]
        if after != refs:
            raise Bad("comparing changes reference counts: %r to %r" % (refs, after))
        gc.collect()
        if [repr(v) for v in keep] != before:
            raise Bad("versions changed under garbage collection")
        hit("gc_rounds")


def main():
    rows = [json.loads(l) for l in open(sys.argv[2], encoding="utf-8")]
    with open(sys.argv[3], "w") as j:
        for k, row in enumerate(rows):
            if row is None:
                continue
            j.seek(0)
            j.write("%8d" % k)
            j.flush()
            try:
                check(row, k)
            except Bad as e:
                print("BAD " + json.dumps({"message": str(e), "row": row}))
                return 1
        j.seek(0)
        j.truncate()
    n["distinct_pairs"] = len(pairs)
    print(json.dumps({"n": n, "samples": samples}))
    return 0


sys.exit(main())
