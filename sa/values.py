"""Abstract values, heap objects and path states of the rule-extraction analysis."""
from __future__ import annotations
import itertools
from dataclasses import dataclass, field
from typing import Any


class Val:
    __slots__ = ()


@dataclass(frozen=True)
class Const(Val):
    v: Any
    t: str = ""

    def __post_init__(self):
        object.__setattr__(self, "t", type(self.v).__name__)

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = Const(None), Const(True), Const(False)


@dataclass(frozen=True)
class IRI(Val):
    v: str

    def __repr__(self):
        return shorten(self.v)


PFX = {
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#": "rdf:",
    "http://www.w3.org/2000/01/rdf-schema#": "rdfs:",
    "http://www.w3.org/2002/07/owl#": "owl:",
    "http://www.w3.org/2001/XMLSchema#": "xsd:",
    "http://www.daml.org/2002/03/agents/agent-ont#": "err:",
}


def shorten(s):
    for k, p in PFX.items():
        if s.startswith(k):
            return p + s[len(k):]
    return "<%s>" % s


_counter = itertools.count(1)


def counter_now():
    return next(_counter)


@dataclass(frozen=True)
class Sym(Val):
    id: int
    hint: str = field(compare=False, default="v")

    def __repr__(self):
        return "?%s%d" % (self.hint, self.id)


def fresh(hint="v"):
    return Sym(next(_counter), hint)


@dataclass(frozen=True)
class App(Val):
    fn: str
    args: tuple = ()

    def __repr__(self):
        return "%s(%s)" % (self.fn, ", ".join(map(repr, self.args)))


@dataclass(frozen=True)
class Tup(Val):
    items: tuple

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


@dataclass(frozen=True)
class Ref(Val):
    id: int


@dataclass(frozen=True)
class Slot(Val):
    """The collection found under a key of a mapping of collections."""
    ref: Ref
    key: Val


@dataclass(frozen=True)
class LenV(Val):
    ref: Val


@dataclass(frozen=True)
class Fn(Val):
    qual: str
    env: int
    node: Any = field(compare=False, repr=False, default=None)
    module: str = field(compare=False, default="")
    cls: Any = field(compare=False, repr=False, default=None)  # defining class value
    kind: str = "plain"  # plain | static | classm | prop | ctxm
    defaults: Any = field(compare=False, repr=False, default=None)


@dataclass(frozen=True)
class Bound(Val):
    fn: Fn
    self: Val


@dataclass(frozen=True)
class BoundExt(Val):
    recv: Val
    name: str


@dataclass(frozen=True)
class Cls(Val):
    name: str
    module: str
    bases: tuple = field(compare=False, repr=False, default=())
    env: int = field(compare=False, default=0)
    line: int = field(compare=False, default=0)


@dataclass(frozen=True)
class Mod(Val):
    name: str


@dataclass(frozen=True)
class Ext(Val):
    """An entity of a library that is not analysed (rdflib, the standard library)."""
    path: str


@dataclass(frozen=True)
class GraphV(Val):
    role: str  # 'G' (the graph being expanded), 'SRC', 'DST', ...
    kind: str = "plain"  # plain | dataset | any


@dataclass(frozen=True)
class SuperV(Val):
    cls: Cls
    self: Val


@dataclass(frozen=True)
class Partial(Val):
    fn: Val
    args: tuple
    kw: tuple = ()


# ---------------------------------------------------------------- formulas
@dataclass(frozen=True)
class BF(Val):
    """A boolean value given by a formula."""
    op: str  # lit | and | or | not
    args: tuple

    def __repr__(self):
        if self.op == "lit":
            return "{%s}" % (lit_str((True, self.args[0])))
        return "%s%r" % (self.op, self.args)


def lit(*a):
    return BF("lit", (tuple(a),))


def f_not(f):
    if isinstance(f, Const):
        return Const(not f.v)
    if f.op == "not":
        return f.args[0]
    return BF("not", (f,))


def f_and(*fs):
    out = []
    for f in fs:
        if isinstance(f, Const):
            if not f.v:
                return FALSE
            continue
        out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return BF("and", tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if isinstance(f, Const):
            if f.v:
                return TRUE
            continue
        out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return BF("or", tuple(out))


def lit_str(pl):
    pol, l = pl
    k = l[0]
    if k == "in":
        s = "(%s)" % " ".join(repr(x) for x in l[2])
    elif k == "eq":
        s = "%r = %r" % (l[1], l[2])
        if not pol:
            return "%r != %r" % (l[1], l[2])
    elif k == "isa":
        s = "%r isa %s" % (l[1], "|".join(sorted(l[2])))
    elif k == "memb":
        s = "%r in {%s}" % (l[1], ", ".join(sorted(map(repr, l[2]))[:4]) + (", ..." if len(l[2]) > 4 else ""))
    elif k == "list":
        s = "list(%r) = %r" % (l[1], l[2])
    elif k == "hask":
        s = "%r is one of %d keys" % (l[1], len(alternatives(l)))
    elif k == "neg":
        return "NOT EXISTS[%s]%s" % ("; ".join(lit_str(x) for x in l[1]), "" if l[2] == "cond" else " (%s)" % (l[2],))
    else:
        s = "%s%r" % (k, l[1:])
    return s if pol else "not " + s


# ---------------------------------------------------------------- heap
@dataclass(frozen=True)
class Entry:
    value: Val
    guards: tuple  # of (pol, literal)
    multi: bool = False  # a multimap entry: value = Tup(key, element)


@dataclass(frozen=True)
class HEnv:
    vars: dict
    parent: int | None
    fnname: str = ""

    def __eq__(self, o):
        return self is o or (isinstance(o, HEnv) and self.vars == o.vars and self.parent == o.parent)

    __hash__ = object.__hash__


@dataclass(frozen=True)
class HColl:
    kind: str  # list | set | tuple | dict | iter
    exact: bool
    items: tuple
    scope: int = 0
    base: tuple = ()  # guards of the path that created it
    opaque: tuple = ()  # unknown further contents (keys)
    dflt: bool = False  # a defaultdict
    tag: str = ""


@dataclass(frozen=True)
class HInst:
    cls: Val
    attrs: dict
    tag: str = ""

    def __eq__(self, o):
        return self is o or (isinstance(o, HInst) and self.cls == o.cls and self.attrs == o.attrs)

    __hash__ = object.__hash__


@dataclass(frozen=True)
class HTable:
    """A process-wide table followed by its contents as a whole (typestate)."""
    name: str
    content: Any


class State:
    __slots__ = ("guards", "subst", "heap", "trace")

    def __init__(self, guards=(), subst=None, heap=None, trace=()):
        self.guards = guards
        self.subst = subst if subst is not None else {}
        self.heap = heap if heap is not None else {}
        self.trace = trace

    def fork(self):
        return State(self.guards, self.subst, dict(self.heap), self.trace)

    def put(self, i, obj):
        s = State(self.guards, self.subst, dict(self.heap), self.trace)
        s.heap[i] = obj
        return s

    def ev(self, x):
        return State(self.guards, self.subst, self.heap, self.trace + (x,))


def syms_of(x, acc=None):
    """All the symbols of a value, literal or guard tuple."""
    if acc is None:
        acc = set()
    if isinstance(x, Sym):
        acc.add(x)
    elif isinstance(x, (App,)):
        for a in x.args:
            syms_of(a, acc)
    elif isinstance(x, Tup):
        for a in x.items:
            syms_of(a, acc)
    elif isinstance(x, BF):
        for a in x.args:
            syms_of(a, acc)
    elif isinstance(x, Slot):
        syms_of(x.key, acc)
    elif isinstance(x, Entry):
        syms_of(x.value, acc)
        syms_of(x.guards, acc)
    elif isinstance(x, (tuple, list, frozenset)):
        if type(x) is tuple and len(x) == 4 and x[0] == "hask":
            # the symbols of the alternatives are private to the literal
            acc |= (syms_of(x[1]) | syms_of(x[2])) - x[3]
            return acc
        for a in x:
            syms_of(a, acc)
    return acc


_gsyms = {}


def guard_syms(g):
    k = id(g)
    v = _gsyms.get(k)
    if v is None:
        v = _gsyms[k] = (g, frozenset(syms_of(g)))
    return v[1]


def guards_syms(gs):
    out = set()
    for g in gs:
        out |= guard_syms(g)
    return out


def rename(x, m):
    """Substitute symbols (deeply)."""
    if not m:
        return x
    if isinstance(x, Sym):
        y = m.get(x)
        if y is None:
            return x
        return rename(y, m) if y is not x else x
    if isinstance(x, App):
        return App(x.fn, tuple(rename(a, m) for a in x.args))
    if isinstance(x, Tup):
        return Tup(tuple(rename(a, m) for a in x.items))
    if isinstance(x, BF):
        return BF(x.op, tuple(rename(a, m) for a in x.args))
    if isinstance(x, Slot):
        return Slot(x.ref, rename(x.key, m))
    if isinstance(x, tuple):
        return tuple(rename(a, m) for a in x)
    if isinstance(x, frozenset):
        return frozenset(rename(a, m) for a in x)
    if isinstance(x, Entry):
        return Entry(rename(x.value, m), rename(x.guards, m), x.multi)
    return x


def rename1(x, m):
    """Simultaneous renaming (no chains)."""
    if isinstance(x, Sym):
        return m.get(x, x)
    if isinstance(x, App):
        return App(x.fn, tuple(rename1(a, m) for a in x.args))
    if isinstance(x, Tup):
        return Tup(tuple(rename1(a, m) for a in x.items))
    if isinstance(x, BF):
        return BF(x.op, tuple(rename1(a, m) for a in x.args))
    if isinstance(x, Slot):
        return Slot(x.ref, rename1(x.key, m))
    if isinstance(x, tuple):
        return tuple(rename1(a, m) for a in x)
    if isinstance(x, frozenset):
        return frozenset(rename1(a, m) for a in x)
    if isinstance(x, Entry):
        return Entry(rename1(x.value, m), rename1(x.guards, m), x.multi)
    return x


# ---------------------------------------------------------------- matching of guarded entries
def match(x, y, th, bindable):
    """Extend th (a dict) so that x*th == y, for the symbols of x accepted by `bindable`; None if impossible."""
    if isinstance(x, Sym):
        if bindable(x):
            z = th.get(x)
            if z is None:
                if not isinstance(y, Val):
                    return None
                th = dict(th)
                th[x] = y
                return th
            return th if z == y else None
        return th if x == y else None
    if type(x) is not type(y):
        return None
    if isinstance(x, App):
        if x.fn != y.fn or len(x.args) != len(y.args):
            return None
        return match(x.args, y.args, th, bindable)
    if isinstance(x, Tup):
        return match(x.items, y.items, th, bindable)
    if isinstance(x, BF):
        return match(x.args, y.args, th, bindable) if x.op == y.op else None
    if isinstance(x, Slot):
        return match(x.key, y.key, th, bindable) if x.ref == y.ref else None
    if isinstance(x, tuple):
        if len(x) != len(y):
            return None
        if x and x[0] == "neg" and y[0] == "neg":
            own, other = x[3], y[3]
            if len(own) != len(other) or (x[2] == "cond") != (y[2] == "cond"):
                return None
            th2 = match(x[1], y[1], {k: v for k, v in th.items()}, lambda s: s in own or bindable(s))
            if th2 is None or {th2.get(s) for s in own} != set(other):
                return None
            return {k: v for k, v in th2.items() if k not in own}
        for a, b in zip(x, y):
            th = match(a, b, th, bindable)
            if th is None:
                return None
        return th
    return th if x == y else None


def covers(gs, hs, th, bindable, i=0):
    """Can every guard of gs be found among hs, under an extension of th?"""
    if i == len(gs):
        return th
    p, l = gs[i]
    for q, k in hs:
        if p != q or l[0] != k[0]:
            continue
        t2 = match(l, k, th, bindable)
        if t2 is not None:
            r = covers(gs, hs, t2, bindable, i + 1)
            if r is not None:
                return r
    return None


def subsumes(a, b, bindable):
    """Is every instance of the entry b an instance of the entry a?"""
    if a.multi != b.multi:
        return False
    th = match(a.value, b.value, {}, bindable)
    if th is None:
        return False
    return covers(a.guards, b.guards, th, bindable) is not None


def fold(value, guards, bindable):
    """Drop the groups of guards implied by the others (their own symbols occur nowhere else)."""
    gs = list(dict.fromkeys(guards))
    syms = {g: frozenset(x for x in guard_syms(g) if bindable(x)) for g in gs}
    pinned = frozenset(x for x in syms_of(value) if bindable(x))
    tried = set()
    again = True
    while again:
        again = False
        for g in gs:
            if not (g[0] and g[1][0] in ("in", "elem")):
                continue
            for seed in syms[g] - pinned:
                # the guards connected to the seed through symbols that are used nowhere else
                own, group = {seed}, []
                grown = True
                while grown:
                    grown = False
                    group = [h for h in gs if syms[h] & own]
                    for h in group:
                        if not (h[0] and h[1][0] == "in"):
                            new = syms[h] - pinned - own
                            new = {x for x in new if all(syms[k] & own or x not in syms[k] for k in gs)}
                            if new:
                                own |= new
                                grown = True
                for o in (own, own | {x for h in group for x in syms[h] if x not in pinned}):
                    grp = [h for h in gs if syms[h] & o]
                    rest = [h for h in gs if not (syms[h] & o)]
                    key = (frozenset(o), len(gs))
                    if key in tried or not rest:
                        continue
                    tried.add(key)
                    if covers(tuple(grp), tuple(rest), {}, lambda x: x in o) is not None:
                        gs = rest
                        again = True
                        break
                if again:
                    break
            if again:
                break
        for g in gs:
            if g[0] and g[1][0] == "hask":
                rest = [h for h in gs if h != g]
                if any(covers(conj, tuple(rest), {}, lambda x: x in bound) is not None for conj, bound in alternatives(g[1])):
                    gs = rest
                    again = True
                    break
    return tuple(gs)


def alternatives(l):
    """The ways in which a key can be present: [(guards, bound symbols)]"""
    f = l[2]
    out = []
    for g in f.args if f.op == "or" else (f,):
        if g.op == "lit" and g.args[0][0] == "ex":
            out.append((g.args[0][1], g.args[0][2]))
        elif g.op == "lit":
            out.append((((True, g.args[0]),), frozenset()))
    return out
