"""Random operations of the public container and attribute APIs, on a live object and on the plain
Python value that models it.  Each generator returns (name, live function, model function).

`v` turns a model value into a live one; both functions must return the same value or raise the
same kind of exception.
"""


class R(object):
    """A reference to model object number mid."""
    __slots__ = ("mid",)

    def __init__(self, mid):
        self.mid = mid

    def __eq__(self, other):
        return isinstance(other, R) and other.mid == self.mid

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(("R", self.mid))

    def __repr__(self):
        return "R%d" % self.mid


class X(object):
    """Something that cannot be stored."""
    def __init__(self, what, live):
        self.what = what
        self.live = live

    def __eq__(self, other):
        return isinstance(other, X) and self.live is other.live

    def __hash__(self):
        return hash(self.what)

    def __repr__(self):
        return "X-%s" % self.what


class Opaque(object):
    """Result whose value is checked elsewhere."""


def dcopy(v):
    if isinstance(v, dict):
        return dict((k, dcopy(x)) for k, x in v.items())
    if isinstance(v, list):
        return [dcopy(x) for x in v]
    if isinstance(v, set):
        return set(v)
    if isinstance(v, tuple):
        return tuple(dcopy(x) for x in v)
    return v


def canon(v):
    if isinstance(v, R):
        return ("R", v.mid)
    if isinstance(v, X):
        return ("X", v.what)
    if isinstance(v, dict):
        return ("dict", tuple(sorted(((canon(k), canon(x)) for k, x in v.items()), key=repr)))
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted((canon(x) for x in v), key=repr)))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(canon(x) for x in v))
    return (type(v).__name__, v)


def refs(v, out=None):
    """All R (and X) in v, in order."""
    if out is None:
        out = []
    if isinstance(v, (R, X)):
        out.append(v)
    elif isinstance(v, dict):
        for x in v.values():
            refs(x, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            refs(x, out)
    elif isinstance(v, (set, frozenset)):
        for x in sorted(v, key=repr):
            refs(x, out)
    return out


# ---------------------------------------------------------------- attributes
NAMES = ["a", "b", "n", "x", "long_name", "p", "_q", "_px", "_p", "hidden"]
SLOTS = {"slot": ["a", "b", "n"], "slot2": ["a", "b", "n", "c"],
         "slot3": ["value", "_Private__p", "q"]}


def bag(rng, g, cur, kind, reserved=()):
    slots = SLOTS.get(kind)
    names = [n for n in (slots or (NAMES + ["c"] if kind == "mixed" else NAMES)) if n not in reserved]
    have = [n for n in names if n in cur]
    name = rng.choice(have) if have and rng.random() < 0.5 else rng.choice(names)
    c = rng.randrange(12)
    if c <= 3:
        v = g.value(rng)
        return ("set " + name, lambda o, L: setattr(o, name, L(v)),
                lambda m: m.__setitem__(name, dcopy(v)))
    if c == 4:
        def mdel(m):
            if name not in m:
                raise AttributeError(name)
            del m[name]
        return ("del " + name, lambda o, L: delattr(o, name), mdel)
    if c == 5:
        def mget(m):
            if name not in m:
                if kind == "kbag" and name == "n":
                    return 0
                raise AttributeError(name)
            return m[name]
        return ("get " + name, lambda o, L: getattr(o, name), mget)
    if c == 6:
        return ("hasattr " + name, lambda o, L: hasattr(o, name),
                lambda m: name in m or (kind == "kbag" and name == "n"))
    if c == 7:
        nest = [n for n in have if isinstance(cur[n], (list, dict))]
        if not nest:
            return ("touch", lambda o, L: o._p_note_change(), lambda m: None)
        name = rng.choice(nest)
        v = g.value(rng)

        def change(x, v):
            if isinstance(x, list):
                if len(x) > 4:
                    x.pop()
                else:
                    x.append(v)
            else:
                x["k%d" % (len(x) % 5)] = v
        if rng.random() < 0.5:
            def live(o, L):
                change(getattr(o, name), L(v))
                o._p_note_change()
        else:
            def live(o, L):
                o._p_note_change()
                change(getattr(o, name), L(v))

        def mnest(m):
            if name not in m:
                raise AttributeError(name)
            change(m[name], dcopy(v))
        return ("nested " + name, live, mnest)
    if c == 8 and "n" not in reserved:
        def mplus(m):
            if "n" not in m and kind != "kbag":
                raise AttributeError("n")
            m["n"] = m.get("n", 0) + 1

        def lplus(o, L):
            o.n += 1
        if isinstance(cur.get("n", 0), (int, float)):
            return ("n += 1", lplus, mplus)
    if slots or kind == "mixed":
        if c == 9 and slots:
            def mbad(m):
                raise AttributeError("zz")
            return ("set unknown", lambda o, L: setattr(o, "zz", 1), mbad)
        return ("touch", lambda o, L: o._p_note_change(), lambda m: None)
    if c == 9:
        k = rng.randrange(3)
        v = g.value(rng)
        if k == 0:
            return ("prop set", lambda o, L: setattr(o, "prop", L(v)),
                    lambda m: m.__setitem__("hidden", dcopy(v)))
        if k == 1:
            def mp(m):
                return m["hidden"]
            return ("prop get", lambda o, L: o.prop, mp)

        def md(m):
            if "hidden" not in m:
                raise AttributeError("hidden")
            del m["hidden"]
        return ("prop del", lambda o, L: delattr(o, "prop"), md)
    if c == 10 and "n" not in reserved:
        def mb(m):
            old = m.get("n", 0)
            m["n"] = old + 1 if isinstance(old, int) else 1
            return m["n"]
        return ("bump", lambda o, L: o.bump(), mb)
    v = g.value(rng)

    def ld(o, L):
        o.__dict__[name] = L(v)
        o._p_note_change()
    return ("dict " + name, ld, lambda m: m.__setitem__(name, dcopy(v)))


# ---------------------------------------------------------------- dict
KEYS = ["k0", "k1", "k2", "k3", "k4", "k5", 0, 1, 2, (1, "t"), None, 1.5, "long key"]


def pdict(rng, g, cur, kind):
    from connobjs import Dict
    have = list(cur)
    k = rng.choice(have) if have and rng.random() < 0.55 else rng.choice(KEYS)
    c = rng.randrange(22)
    if c <= 4:
        v = g.value(rng)
        return ("[]=", lambda o, L: o.__setitem__(k, L(v)), lambda m: m.__setitem__(k, dcopy(v)))
    if c == 5:
        return ("del", lambda o, L: o.__delitem__(k), lambda m: m.__delitem__(k))
    if c == 6:
        if rng.random() < 0.5:
            return ("pop", lambda o, L: o.pop(k), lambda m: m.pop(k))
        return ("pop d", lambda o, L: o.pop(k, 7), lambda m: m.pop(k, 7))
    if c == 7:
        return ("popitem", lambda o, L: o.popitem(), "popitem")
    if c == 8 and rng.random() < 0.4:
        return ("clear", lambda o, L: o.clear(), lambda m: m.clear())
    if c in (9, 10):
        new = dict((rng.choice(KEYS), g.value(rng)) for i in range(rng.randrange(3)))
        style = rng.randrange(4)

        def mu(m):
            m.update(dcopy(new))
        if style == 0:
            return ("update dict", lambda o, L: o.update(L(new)), mu)
        if style == 1:
            return ("update pairs", lambda o, L: o.update(list(L(new).items())), mu)
        if style == 2:
            return ("update pdict", lambda o, L: o.update(Dict(L(new))), mu)
        new = dict(("k%d" % i, x) for i, x in enumerate(new.values()))
        return ("update kw", lambda o, L: o.update(**L(new)), lambda m: m.update(dcopy(new)))
    if c in (11, 12):
        v = g.value(rng)
        if rng.random() < 0.2:
            return ("setdefault none", lambda o, L: o.setdefault(k), lambda m: m.setdefault(k))
        return ("setdefault", lambda o, L: o.setdefault(k, L(v)), lambda m: m.setdefault(k, dcopy(v)))
    if c == 13:
        def copy(o, L):
            d = o.copy()
            d["copied"] = 1
            if d._p_oid is not None or type(d) is not type(o):
                return "copy is stored"
            del d["copied"]
            return d
        return ("copy", copy, lambda m: dict(m))
    if c == 14:
        return ("[]", lambda o, L: o[k], lambda m: m[k])
    if c == 15:
        return ("get", lambda o, L: o.get(k, "no"), lambda m: m.get(k, "no"))
    if c == 16:
        return ("in", lambda o, L: (k in o, o.has_key(k)), lambda m: (k in m, k in m))
    if c == 17:
        return ("len", lambda o, L: (len(o), bool(o)), lambda m: (len(m), bool(m)))
    if c == 18:
        return ("keys", lambda o, L: (set(o.keys()), set(o), set(o.iterkeys())),
                lambda m: (set(m), set(m), set(m)))
    if c == 19:
        return ("items", lambda o, L: (dict(o.items()), dict(o.iteritems())), lambda m: (dict(m), dict(m)))
    if c == 20:
        return ("values", lambda o, L: (len(o.values()), len(list(o.itervalues()))),
                lambda m: (len(m), len(m)))
    if rng.random() < 0.5:
        return ("touch", lambda o, L: o._p_note_change(), lambda m: None)

    def eq(o, L):
        d = Dict(o)
        a = (o == d, o != d)
        d["other"] = object()
        return (a, o == d, o != d)
    return ("eq", eq, lambda m: ((True, False), False, True))


# ---------------------------------------------------------------- list
def _slice(rng, n):
    a = rng.choice([None, rng.randrange(-n - 1, n + 2)])
    b = rng.choice([None, rng.randrange(-n - 1, n + 2)])
    return slice(a, b, rng.choice([None, None, None, 2, -1]))


def plist(rng, g, cur, kind):
    from connobjs import List
    n = len(cur)
    i = rng.randrange(-n - 1, n + 1)
    v = rng.choice(cur) if cur and rng.random() < 0.4 else g.hvalue(rng)
    vs = [g.hvalue(rng) for j in range(rng.randrange(3))]
    c = rng.randrange(30)
    if n > 14 and rng.random() < 0.5:
        c = rng.choice([9, 11])
    if c <= 2:
        return ("append", lambda o, L: o.append(L(v)), lambda m: m.append(v))
    if c == 3:
        return ("insert", lambda o, L: o.insert(i, L(v)), lambda m: m.insert(i, v))
    if c == 4:
        return ("pop", lambda o, L: o.pop(), lambda m: m.pop())
    if c == 5:
        return ("pop i", lambda o, L: o.pop(i), lambda m: m.pop(i))
    if c == 6:
        return ("remove", lambda o, L: o.remove(L(v)), lambda m: m.remove(v))
    if c == 7:
        return ("reverse", lambda o, L: o.reverse(), lambda m: m.reverse())
    if c == 8:
        if rng.random() < 0.5:
            return ("sort key", lambda o, L: o.sort(key=_skey), lambda m: m.sort(key=_skey))
        return ("sort rev", lambda o, L: o.sort(key=_skey, reverse=True),
                lambda m: m.sort(key=_skey, reverse=True))
    if c == 9:
        s = _slice(rng, n)
        return ("del slice", lambda o, L: o.__delitem__(s), lambda m: m.__delitem__(s))
    if c == 10:
        def ld(o, L):
            del o[i]

        def md(m):
            del m[i]
        return ("del i", ld, md)
    if c == 11:
        return ("clear", lambda o, L: o.clear(), lambda m: m.clear())
    if c in (12, 13):
        style = rng.randrange(4)
        if style == 0:
            return ("extend", lambda o, L: o.extend(L(vs)), lambda m: m.extend(vs))
        if style == 1:
            return ("extend gen", lambda o, L: o.extend(x for x in L(vs)), lambda m: m.extend(vs))
        if style == 2:
            return ("extend plist", lambda o, L: o.extend(List(L(vs))), lambda m: m.extend(vs))
        if n > 8:
            return ("extend tuple", lambda o, L: o.extend(tuple(L(vs))), lambda m: m.extend(vs))
        return ("extend self", lambda o, L: o.extend(o), lambda m: m.extend(list(m)))
    if c in (14, 15):
        style = rng.randrange(3)

        def mi(m):
            m += vs
            return m is not None

        def mk(f):
            def li(o, L):
                x = o
                x += f(L(vs))
                return x is o
            return li
        return ("+=", mk([list, List, tuple][style]), mi)
    if c == 16:
        k = rng.choice([0, 1, 1, 2]) if n < 8 else rng.choice([0, 1])

        def lm(o, L):
            x = o
            x *= k
            return x is o

        def mm(m):
            m *= k
            return True
        return ("*=", lm, mm)
    if c in (17, 18):
        return ("[i]=", lambda o, L: o.__setitem__(i, L(v)), lambda m: m.__setitem__(i, v))
    if c == 19:
        s = _slice(rng, n)
        return ("[s]=", lambda o, L: o.__setitem__(s, L(vs)), lambda m: m.__setitem__(s, list(vs)))
    if c == 20:
        return ("touch", lambda o, L: o._p_note_change(), lambda m: None)
    if c == 21:
        return ("[i]", lambda o, L: o[i], lambda m: m[i])
    if c == 22:
        s = _slice(rng, n)
        return ("[s]", lambda o, L: o[s], lambda m: m[s])
    if c == 23:
        return ("in", lambda o, L: (L(v) in o, o.count(L(v))), lambda m: (v in m, m.count(v)))
    if c == 24:
        return ("index", lambda o, L: o.index(L(v)), lambda m: m.index(v))
    if c == 25:
        return ("len", lambda o, L: (len(o), bool(o)), lambda m: (len(m), bool(m)))
    if c == 26:
        return ("iter", lambda o, L: (list(o), list(reversed(o))), lambda m: (list(m), list(reversed(m))))
    if c == 27:
        return ("+", lambda o, L: (list(o + L(vs)), list(L(vs) + o), list(o + List(L(vs))), list(o * 2),
                                   list(2 * o), type(o + []) is type(o)),
                lambda m: (m + vs, vs + m, m + vs, m * 2, m * 2, True))
    if c == 28:
        def eq(o, L):
            d = list(o)
            e = d + [0]
            return (o == d, o != d, o == List(d), o != List(d), o == e, o != e, o < e, o <= d, o > e, o >= d)
        return ("eq", eq, lambda m: (True, False, True, False, False, True, True, True, False, True))
    return ("get get", lambda o, L: o[0], lambda m: m[0])


def _skey(x):
    """A sort key that does not depend on identity or on being live."""
    if isinstance(x, (int, float)):
        return (0, x, "")
    if isinstance(x, str):
        return (1, 0, x)
    return (2, 0, "")


# ---------------------------------------------------------------- set
def pset(rng, g, cur, kind):
    from connobjs import Set
    have = sorted(cur, key=repr)
    v = rng.choice(have) if have and rng.random() < 0.5 else g.hvalue(rng)
    vs = [g.hvalue(rng) for j in range(rng.randrange(3))]
    if have and rng.random() < 0.6:
        vs.append(rng.choice(have))
    style = rng.randrange(2)
    mk = [set, Set][style]
    c = rng.randrange(26)
    if c <= 3:
        return ("add", lambda o, L: o.add(L(v)), lambda m: m.add(v))
    if c == 4:
        return ("remove", lambda o, L: o.remove(L(v)), lambda m: m.remove(v))
    if c == 5:
        return ("discard", lambda o, L: o.discard(L(v)), lambda m: m.discard(v))
    if c == 6:
        return ("pop", lambda o, L: o.pop(), "setpop")
    if c == 7 and rng.random() < 0.5:
        return ("clear", lambda o, L: o.clear(), lambda m: m.clear())
    if c in (8, 9):
        if style == 0:
            return ("update", lambda o, L: o.update(L(vs)), lambda m: m.update(vs))
        return ("update2", lambda o, L: o.update(L(vs), [5]), lambda m: m.update(vs, [5]))
    if c in (10, 11, 12, 13):
        op = "__%s__" % ["iand", "ior", "isub", "ixor"][c - 10]

        def lo(o, L):
            x = o
            r = getattr(type(x), op)(x, mk(L(vs)))
            return r is o

        def mo(m):
            getattr(m, op)(set(vs))
            return True
        return (op, lo, mo)
    if c == 14:
        return ("difference_update", lambda o, L: o.difference_update(L(vs)),
                lambda m: m.difference_update(vs))
    if c == 15:
        return ("intersection_update", lambda o, L: o.intersection_update(L(vs)),
                lambda m: m.intersection_update(vs))
    if c == 16:
        return ("symmetric_difference_update", lambda o, L: o.symmetric_difference_update(set(L(vs))),
                lambda m: m.symmetric_difference_update(set(vs)))
    if c == 17:
        return ("touch", lambda o, L: o._p_note_change(), lambda m: None)
    if c == 18:
        return ("in", lambda o, L: L(v) in o, lambda m: v in m)
    if c == 19:
        return ("len", lambda o, L: (len(o), bool(o)), lambda m: (len(m), bool(m)))
    if c == 20:
        return ("iter", lambda o, L: set(o), lambda m: set(m))
    if c == 21:
        return ("ops", lambda o, L: tuple(set(x) for x in (
            o & mk(L(vs)), o | mk(L(vs)), o - mk(L(vs)), o ^ mk(L(vs)))),
            lambda m: (m & set(vs), m | set(vs), m - set(vs), m ^ set(vs)))
    if c == 22:
        return ("rops", lambda o, L: tuple(set(x) for x in (
            set(L(vs)) & o, set(L(vs)) | o, set(L(vs)) - o, set(L(vs)) ^ o)),
            lambda m: (set(vs) & m, set(vs) | m, set(vs) - m, set(vs) ^ m))
    if c == 23:
        return ("named", lambda o, L: tuple(set(x) for x in (
            o.union(L(vs)), o.intersection(L(vs)), o.difference(L(vs)), o.symmetric_difference(L(vs)),
            o.copy())),
            lambda m: (m | set(vs), m & set(vs), m - set(vs), m ^ set(vs), set(m)))
    if c == 24:
        return ("sub", lambda o, L: (o.issubset(set(L(vs))), o.issuperset(set(L(vs))), o.isdisjoint(L(vs))),
                lambda m: (m.issubset(vs), m.issuperset(vs), m.isdisjoint(vs)))

    def eq(o, L):
        d = Set(o)
        w = Set(L(vs))
        return (o == d, o != d, o <= d, o < d, o >= d, o > d, o == w, o <= w, o > w)
    return ("eq", eq, lambda m: (True, False, True, False, True, False, m == set(vs), m <= set(vs),
                                 m > set(vs)))


# ---------------------------------------------------------------- BTree
def bkey(rng, ktype, span):
    n = rng.randrange(span)
    return n if ktype == 0 else "%04d" % n if ktype == 1 else (n // 7, "s%d" % (n % 7))


def btree(rng, g, cur, kind, ktype=0, span=60):
    """cur: {key: value} without order; ktype says what the keys are."""
    have = sorted(cur)
    k = rng.choice(have) if have and rng.random() < 0.5 else bkey(rng, ktype, span)
    k2 = rng.choice(have) if have and rng.random() < 0.5 else bkey(rng, ktype, span)
    c = rng.randrange(34)
    if len(cur) > 70 and c <= 5:
        c = 6

    def sub(m, keep):
        return [(x, m[x]) for x in sorted(m) if keep(x)]
    if c <= 3:
        v = g.value(rng)
        return ("[]=", lambda o, L: o.__setitem__(k, L(v)), lambda m: m.__setitem__(k, dcopy(v)))
    if c == 4:
        v = g.value(rng)
        return ("add", lambda o, L: o.add(k, L(v)), lambda m: m.__setitem__(k, dcopy(v)))
    if c == 5:
        def ma(m):
            m[k] = True
        return ("add default", lambda o, L: o.add(k), ma)
    if c in (6, 7):
        def ld(o, L):
            del o[k]
        return ("del", ld, lambda m: m.__delitem__(k))
    if c in (8, 9):
        a = rng.randrange(span)
        n = rng.randrange(1, 25)
        step = rng.choice([1, 1, 2, -1])
        ks = []
        for j in range(n):
            x = (a + j * step) % span
            ks.append(x if ktype == 0 else "%04d" % x if ktype == 1 else (x // 7, "s%d" % (x % 7)))

        def lmany(o, L):
            for x in ks:
                o[x] = 1

        def mmany(m):
            for x in ks:
                m[x] = 1
        if len(cur) < 60:
            return ("insert run", lmany, mmany)

        def ldel(o, L):
            for x in ks:
                if x in o:
                    del o[x]

        def mdel(m):
            for x in ks:
                m.pop(x, None)
        return ("delete run", ldel, mdel)
    if c == 10:
        new = dict((bkey(rng, ktype, span), g.value(rng)) for i in range(rng.randrange(4)))
        style = rng.randrange(4)
        if style == 3 and rng.random() < 0.3:
            return ("update error", lambda o, L: o.update({}, {}), lambda m: m.update({}, {}))
        if style == 3 and ktype == 1:
            return ("update named", lambda o, L: o.update(**L(new)), lambda m: m.update(dcopy(new)))
        if style:
            return ("update", lambda o, L: o.update(L(new)), lambda m: m.update(dcopy(new)))
        return ("update pairs", lambda o, L: o.update(list(L(new).items())),
                lambda m: m.update(dcopy(new)))
    if c == 11:
        v = g.value(rng)
        return ("setdefault", lambda o, L: o.setdefault(k, L(v)), lambda m: m.setdefault(k, dcopy(v)))
    if c == 12:
        if rng.random() < 0.5:
            return ("pop", lambda o, L: o.pop(k), lambda m: m.pop(k))
        return ("pop d", lambda o, L: o.pop(k, 7), lambda m: m.pop(k, 7))
    if c == 13 and have:
        def mpi(m):
            if not m:
                raise KeyError()
            x = min(m)
            return (x, m.pop(x))
        return ("popitem", lambda o, L: o.popitem(), mpi)
    if c == 14 and rng.random() < 0.4:
        return ("clear", lambda o, L: o.clear(), lambda m: m.clear())
    if c == 15:
        d = rng.choice([2, 4, 8, 16, 4, 8, 16, 32])

        def deg(o, L):
            before = o.root.minimum_degree
            r = o.set_bnode_minimum_degree(d)
            # (there is no class for 2 but the one of the start, which is not replaced)
            return (r == (d != before and d != 2), o.root.minimum_degree == (d if r else before))
        return ("degree", deg, lambda m: (True, True))
    if c == 16 and have:
        k = rng.choice(have)
        lists = [x for x in have if isinstance(cur[x], list)]
        if lists and rng.random() < 0.5:
            k = rng.choice(lists)
        if isinstance(cur[k], list):
            v = g.value(rng)
            d = rng.choice([2, 4, 8, 16]) if rng.random() < 0.4 else 0

            def ln(o, L):
                if d:
                    o.set_bnode_minimum_degree(d)
                o[k].append(L(v))
                o.note_change_of_bnode_containing_key(k)
            return ("nested", ln, lambda m: m[k].append(dcopy(v)))
        if not lists:
            return ("set list", lambda o, L: o.__setitem__(k, [1]), lambda m: m.__setitem__(k, [1]))
        return ("note_change", lambda o, L: o.note_change_of_bnode_containing_key(k),
                lambda m: [m[k]] and None)
    if c == 17:
        ks = list(have)
        rng.shuffle(ks)
        ks = ks[:rng.choice([1, 3, len(ks)])]

        def ldel(o, L):
            for x in ks:
                del o[x]

        def mdel(m):
            for x in ks:
                del m[x]
        return ("delete some", ldel, mdel)
    if c == 18:
        if rng.random() < 0.4:
            return ("uncount", lambda o, L: uncount(o.root), lambda m: None)
        return ("touch", lambda o, L: o._p_note_change(), lambda m: None)
    if c == 19:
        return ("[]", lambda o, L: o[k], lambda m: m[k])
    if c == 20:
        return ("get", lambda o, L: o.get(k, "no"), lambda m: m.get(k, "no"))
    if c == 21:
        return ("in", lambda o, L: (k in o, o.has_key(k)), lambda m: (k in m, k in m))
    if c == 22:
        if rng.random() < 0.5:
            return ("len", lambda o, L: len(o), lambda m: len(m))   # and nothing else
        return ("len", lambda o, L: (len(o), bool(o)), lambda m: (len(m), bool(m)))
    if c == 23:
        return ("keys", lambda o, L: (o.keys(), list(o), list(o.iterkeys()), list(reversed(o))),
                lambda m: (sorted(m), sorted(m), sorted(m), sorted(m, reverse=True)))
    if c == 24:
        return ("items", lambda o, L: (o.items(), list(o.iteritems())), lambda m: (
            sub(m, lambda x: 1), sub(m, lambda x: 1)))
    if c == 25:
        return ("values", lambda o, L: (o.values(), list(o.itervalues())), lambda m: (
            [m[x] for x in sorted(m)], [m[x] for x in sorted(m)]))
    if c == 26:
        return ("backward", lambda o, L: list(o.items_backward()),
                lambda m: sub(m, lambda x: 1)[::-1])
    if c == 27:
        cl = rng.random() < 0.5
        return ("from", lambda o, L: list(o.items_from(k, closed=cl)),
                lambda m: sub(m, lambda x: x > k or (cl and x == k)))
    if c == 28:
        cl = rng.random() < 0.5
        return ("backward from", lambda o, L: list(o.items_backward_from(k, closed=cl)),
                lambda m: sub(m, lambda x: x < k or (cl and x == k))[::-1])
    if c in (29, 30, 31):
        cs, ce = rng.random() < 0.5, rng.random() < 0.5

        def mr(m):
            # each end's flag says whether that end's own key belongs
            lo, hi, cl, ch = (k, k2, cs, ce) if k <= k2 else (k2, k, ce, cs)
            r = sub(m, lambda x: (lo < x < hi) or (lo < hi and ((x == lo and cl) or (x == hi and ch))) or
                    (lo == hi == x and cs and ce))
            return r if k <= k2 else r[::-1]
        return ("range", lambda o, L: list(o.items_range(k, k2, closed_start=cs, closed_end=ce)), mr)
    if c == 32:
        if not have:
            return ("get min", lambda o, L: bool(o), lambda m: bool(m))
        def mm(m):
            if not m:
                raise IndexError()
            return ((min(m), m[min(m)]), (max(m), m[max(m)]))

        def lmm(o, L):
            if not o:
                raise IndexError()
            return (o.get_min_item(), o.get_max_item())
        return ("min max", lmm, mm)
    def shape(o, L):
        n, depth, low = walk_nodes(o.root, True)
        return (o.get_depth() == depth, o.get_node_count() == n, low)
    return ("shape", shape, lambda m: (True, True, True))


def uncount(node):
    """As it was stored by a version that did not count the items."""
    if "_count" in node.__getstate__():
        del node._count
    for x in node.nodes or ():
        uncount(x)


def walk_nodes(node, top):
    """(number of nodes, levels, whether all of them are filled as they should be)"""
    low = len(node.items) <= 2 * node.minimum_degree - 1 and (top or len(node.items) >= node.minimum_degree - 1)
    if not node.nodes:
        return 1, 1, low
    below = [walk_nodes(x, False) for x in node.nodes]
    return (1 + sum(b[0] for b in below), 1 + below[0][1],
            low and all(b[2] for b in below) and len(set(b[1] for b in below)) == 1 and
            len(below) == len(node.items) + 1)


KINDS = {"bag": bag, "kbag": bag, "slot": bag, "slot2": bag, "slot3": bag, "mixed": bag, "owner": bag,
         "dict": pdict, "list": plist, "set": pset, "btree": btree}
READS = ("get ", "hasattr", "prop get", "[]", "get", "in", "len", "keys", "items", "values", "eq", "iter",
         "index", "+", "[i]", "[s]", "get get", "ops", "rops", "named", "sub", "copy", "backward", "from",
         "backward from", "range", "min max", "shape", "get min")


def is_read(name):
    return name in READS or name.startswith(("get ", "hasattr"))
