"""Comparison of extracted rules with reference rules: clauses, and containment by the chase.

A clause is `head <- positive literals, negative literals`.  Both the code and the reference are sets of clauses;
"the code implements rule r" is decided by freezing the body of r (its variables become distinct generic
constants), and looking for a derivation of the frozen head by the clauses of the code, with a case analysis
(distinct/equal, literal/not literal, exists/does not exist) for every negative condition that the generic
constants leave open.  The other direction (soundness) freezes the clauses of the code and derives by the
reference."""
from __future__ import annotations
import itertools
from .values import *
from .values import _counter

ERR = ("ERR",)


class Undecided(Exception):
    pass


class Clause:
    __slots__ = ("head", "pos", "neg", "loc", "name", "msg", "syms", "trace", "effect")

    def __init__(self, head, pos, neg, loc=None, name="", msg=None, effect=None):
        self.head, self.pos, self.neg, self.loc, self.name, self.msg = head, tuple(pos), tuple(neg), loc, name, msg
        self.effect = effect
        acc = set()
        if head is not None:
            syms_of(head, acc)
        syms_of(self.pos, acc)
        syms_of(self.neg, acc)
        self.syms = acc

    def __repr__(self):
        h = "FALSE" if self.head == ERR else "(%s)" % " ".join(map(repr, self.head))
        return "%s <- %s" % (h, "; ".join([lit_str((True, l)) for l in self.pos] + [lit_str((False, l)) if l[0] != "neg" else lit_str((True, l)) for l in self.neg]))


SK = "sk"


def sk(hint="x"):
    return App(SK, (Const(next(_counter)), Const(hint)))


def is_sk(x):
    return isinstance(x, App) and x.fn == SK


def show(x):
    if is_sk(x):
        return "_%s%d" % (x.args[1].v, x.args[0].v)
    if isinstance(x, tuple):
        return "(%s)" % " ".join(map(show, x))
    return repr(x)


# ---------------------------------------------------------------- facts
class Facts:
    """Ground facts over IRIs and generic constants."""

    def __init__(self):
        self.trip = set()
        self.lists = {}     # head -> members
        self.isa = {}       # (term, class) -> bool
        self.eqs = {}       # App -> value
        self.ne = set()     # frozenset of two different terms
        self.memb = set()   # (term, set of values): known memberships
        self.elems = set()  # (key, term)
        self.nomemb = set()
        self.flags = set()  # true opaque conditions
        self.noflags = set()
        self.absent = []
        self.bad = False
        self.idx = None

    def copy(self):
        f = Facts()
        f.trip, f.lists, f.isa, f.eqs, f.ne = set(self.trip), dict(self.lists), dict(self.isa), dict(self.eqs), set(self.ne)
        f.memb, f.elems, f.flags, f.noflags, f.nomemb = set(self.memb), set(self.elems), set(self.flags), set(self.noflags), set(self.nomemb)
        f.absent, f.bad = list(self.absent), self.bad
        return f

    def index(self):
        if self.idx is None:
            d = {}
            for t in self.trip:
                d.setdefault(t[1], []).append(t)
                d.setdefault(None, []).append(t)
                d.setdefault(("s", t[0]), []).append(t)
                d.setdefault(("o", t[2]), []).append(t)
            self.idx = d
        return self.idx

    def add_list(self, h, items):
        old = self.lists.get(h)
        if old is not None and old != items:
            self.bad = self.bad or len(old) != len(items)
            return
        self.lists[h] = items
        # the triples that make it a list
        cells = [h]
        for i in range(1, len(items)):
            cells.append(App(SK, (Const(("cell", h, i)), Const("cell"))))
        for i, x in enumerate(items):
            self.trip.add((cells[i], RDF_FIRST, x))
            self.trip.add((cells[i], RDF_REST, cells[i + 1] if i + 1 < len(items) else RDF_NIL))
        for i in range(1, len(items)):
            self.lists[cells[i]] = items[i:]
        if not items and h != RDF_NIL:
            pass

    def known_isa(self, x, classes):
        """True / False / None"""
        if isinstance(x, IRI):
            return "URIRef" in classes or "Identifier" in classes or "Node" in classes
        if isinstance(x, Const):
            return False
        if isinstance(x, App) and x.fn in ("attr:datatype", "attr:language", "attr:value"):
            return None
        r = [self.isa.get((x, k)) for k in classes]
        if True in r:
            return True
        if all(v is False for v in r):
            return False
        for k in SORTS:
            if self.isa.get((x, k)) and not (classes & IMPLIED.get(k, {k})):
                return False
            if self.isa.get((x, k)) and classes & IMPLIED.get(k, {k}):
                return True
        return None

    def set_isa(self, x, classes, val):
        k = self.known_isa(x, classes)
        if k is not None:
            if k != val:
                self.bad = True
            return
        if val:
            if len(classes) == 1:
                self.isa[(x, next(iter(classes)))] = True
            else:
                self.flags.add(("isaone", x, classes))
        else:
            for c in classes:
                self.isa[(x, c)] = False


SORTS = ("Literal", "URIRef", "BNode")
IMPLIED = {k: {k, "Identifier", "Node", "str"} | ({"IdentifiedNode"} if k != "Literal" else set()) for k in SORTS}
R = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
RDF_FIRST, RDF_REST, RDF_NIL = IRI(R + "first"), IRI(R + "rest"), IRI(R + "nil")


def subst_val(x, a, b):
    """Replace the ground term a by b."""
    if x == a:
        return b
    if isinstance(x, App):
        if x.fn == SK and not (isinstance(x.args[0].v, tuple)):
            return x
        if x.fn == SK:
            k = x.args[0].v
            return App(SK, (Const((k[0], subst_val(k[1], a, b), k[2])), x.args[1]))
        return App(x.fn, tuple(subst_val(y, a, b) for y in x.args))
    if isinstance(x, Tup):
        return Tup(tuple(subst_val(y, a, b) for y in x.items))
    if isinstance(x, tuple):
        return tuple(subst_val(y, a, b) for y in x)
    if isinstance(x, frozenset):
        return frozenset(subst_val(y, a, b) for y in x)
    if isinstance(x, BF):
        return BF(x.op, tuple(subst_val(y, a, b) for y in x.args))
    return x


def merge(F, a, b):
    """F with the generic constant a identified with b (None if contradictory)."""
    if not is_sk(a):
        a, b = b, a
    if not is_sk(a):
        if isinstance(a, App) and a.fn.startswith("attr:") or isinstance(b, App) and b.fn.startswith("attr:"):
            f = F.copy()
            if not (isinstance(a, App) and a.fn.startswith("attr:")):
                a, b = b, a
            old = f.eqs.get(a)
            if old is not None and old != b:
                return None
            f.eqs[a] = b
            return f
        return None if a != b else F
    f = Facts()
    s = lambda x: subst_val(x, a, b)
    f.trip = {s(t) for t in F.trip}
    for h, m in F.lists.items():
        h2, m2 = s(h), s(m)
        if h2 in f.lists and f.lists[h2] != m2:
            if len(f.lists[h2]) != len(m2):
                return None
            # two lists with the same head: the same members
            raise Undecided()
        f.lists[h2] = m2
    for (x, k), v in F.isa.items():
        x2 = s(x)
        if f.isa.get((x2, k), v) != v:
            return None
        f.isa[(x2, k)] = v
        kn = f.known_isa(x2, frozenset((k,)))
        if kn is not None and kn != v:
            return None
    for k in SORTS:
        if sum(1 for q in SORTS if f.isa.get((b, q))) > 1:
            return None
    for x, v in F.eqs.items():
        x2, v2 = s(x), s(v)
        if x2 in f.eqs and f.eqs[x2] != v2:
            return None
        f.eqs[x2] = v2
    for p in F.ne:
        q = frozenset(s(x) for x in p)
        if len(q) < 2:
            return None
        f.ne.add(q)
    f.memb = {(s(x), v) for x, v in F.memb}
    for x, v in f.memb:
        if isinstance(x, IRI) and x not in v:
            return None
    f.nomemb = {(s(x), v) for x, v in F.nomemb}
    for x, v in f.nomemb:
        if isinstance(x, IRI) and x in v:
            return None
    f.elems = {s(x) for x in F.elems}
    f.flags = {s(x) for x in F.flags}
    f.noflags = {s(x) for x in F.noflags}
    f.absent = [s(x) for x in F.absent]
    return f


def different(F, a, b):
    """True / False / None"""
    a, b = F.eqs.get(a, a), F.eqs.get(b, b)
    if a == b:
        return False
    if isinstance(a, (IRI, Const)) and isinstance(b, (IRI, Const)):
        return True
    if frozenset((a, b)) in F.ne:
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(y, IRI):
            if F.known_isa(x, frozenset(("URIRef",))) is False and is_sk(x):
                return True
            for z, v in F.memb:
                if z == x and y not in v:
                    return True
            for z, v in F.nomemb:
                if z == x and y in v:
                    return True
    if is_sk(a) and is_sk(b):
        for k in SORTS:
            ka, kb = F.known_isa(a, frozenset((k,))), F.known_isa(b, frozenset((k,)))
            if ka is not None and kb is not None and ka != kb:
                return True
    return None


# ---------------------------------------------------------------- matching
def ground(x, th):
    return rename1(x, th) if th else x


def has_sym(x):
    return bool(syms_of(x))


def m1(x, y, th):
    """Match a pattern term with a ground term."""
    if isinstance(x, Sym):
        z = th.get(x)
        if z is None:
            th = dict(th)
            th[x] = y
            return th
        return th if z == y else None
    if isinstance(x, App) and x.fn != SK:
        if isinstance(y, App) and x.fn == y.fn and len(x.args) == len(y.args):
            for a, b in zip(x.args, y.args):
                th = m1(a, b, th)
                if th is None:
                    return None
            return th
        return None
    if isinstance(x, Tup):
        if not isinstance(y, Tup) or len(x.items) != len(y.items):
            return None
        for a, b in zip(x.items, y.items):
            th = m1(a, b, th)
            if th is None:
                return None
        return th
    return th if x == y else None


class Solver:
    """Matching of the positive literals of a clause with facts."""

    def __init__(self, opaque=None):
        self.opaque = opaque or (lambda l, F: None)

    def solve(self, lits, F, th):
        """All the substitutions that make the literals true in F; literals that are not decided are returned as open."""
        if not lits:
            yield th, ()
            return
        # the most constrained literal first
        best, bi = None, None
        for i, l in enumerate(lits):
            c = self.cost(l, F, th)
            if best is None or c < best:
                best, bi = c, i
                if c == 0:
                    break
        l = lits[bi]
        rest = lits[:bi] + lits[bi + 1:]
        for t2, opened in self.one(l, F, th):
            for t3, o3 in self.solve(rest, F, t2):
                yield t3, opened + o3

    def cost(self, l, F, th):
        k = l[0]
        if k == "in":
            if any(isinstance(x, App) and x.fn != SK and syms_of(x) - th.keys() for x in l[2]):
                return 3000
            b = sum(1 for x in l[2] if not (syms_of(x) - th.keys()))
            if b == 3:
                return 0
            d = F.index()
            n = len(d.get(None, ()))
            p = ground(l[2][1], th)
            if not has_sym(p):
                n = min(n, len(d.get(p, ())))
            s, o = ground(l[2][0], th), ground(l[2][2], th)
            if not has_sym(s):
                n = min(n, len(d.get(("s", s), ())))
            if not has_sym(o):
                n = min(n, len(d.get(("o", o), ())))
            return 1 + n
        if k == "list":
            return 1 + (0 if not (syms_of(l[1]) - th.keys()) else len(F.lists))
        un = syms_of(l) - th.keys()
        if not un:
            return 0
        if k == "elem":
            return 500
        if k == "memb":
            return 1000
        return 2000

    def one(self, l, F, th):
        k = l[0]
        if k == "in":
            if l[1] != "G":
                return
            d = F.index()
            p = ground(l[2][1], th)
            s, o = ground(l[2][0], th), ground(l[2][2], th)
            if not has_sym(s) and not has_sym(p) and not has_sym(o):
                t = tuple(F.eqs.get(x, x) for x in (s, p, o))
                if t in F.trip or (s, p, o) in F.trip:
                    yield th, ()
                return
            cand = d.get(None, ())
            for key, x in ((p, p), (("s", s), s), (("o", o), o)):
                if not has_sym(x):
                    c2 = d.get(key, ())
                    if len(c2) < len(cand):
                        cand = c2
            for t in cand:
                t2 = th
                for x, y in zip(l[2], t):
                    t2 = m1(F.eqs.get(ground(x, t2), x) if isinstance(x, App) and not has_sym(ground(x, t2)) else x, y, t2)
                    if t2 is None:
                        break
                if t2 is not None:
                    yield t2, ()
            return
        if k == "list":
            h = ground(l[1], th)
            if not has_sym(h):
                m = F.lists.get(h)
                if m is None and h == RDF_NIL:
                    m = ()
                if m is None:
                    return
                t2 = self.list_match(l[2], m, th)
                if t2 is not None:
                    yield t2, ()
                return
            for h2, m in list(F.lists.items()):
                t2 = m1(l[1], h2, th)
                if t2 is not None:
                    t2 = self.list_match(l[2], m, t2)
                    if t2 is not None:
                        yield t2, ()
            return
        if k == "eq":
            a, b = ground(l[1], th), ground(l[2], th)
            ua, ub = has_sym(a), has_sym(b)
            if not ua and not ub:
                a2, b2 = F.eqs.get(a, a), F.eqs.get(b, b)
                if a2 == b2:
                    yield th, ()
                elif unknown_app(a) or unknown_app(b):
                    yield th, ((True, ("eq", a, b)),)
                return
            if isinstance(a, Sym) and not ub:
                yield {**th, a: F.eqs.get(b, b)}, ()
                return
            if isinstance(b, Sym) and not ua:
                yield {**th, b: F.eqs.get(a, a)}, ()
                return
            return
        if k == "isa":
            x = ground(l[1], th)
            if has_sym(x):
                # some known term of this sort
                return
            v = F.known_isa(x, l[2])
            if v or ("isaone", x, l[2]) in F.flags:
                yield th, ()
            return
        if k == "memb":
            x = ground(l[1], th)
            if not has_sym(x):
                x = F.eqs.get(x, x)
                if isinstance(x, Tup):
                    x = Tup(tuple(F.eqs.get(y, y) for y in x.items))
                if x in l[2]:
                    yield th, ()
                    return
                for y, v in F.memb:
                    if y == x and v <= l[2]:
                        yield th, ()
                        return
                return
            for v in sorted(l[2], key=repr):
                x2 = x
                t2 = m1(x2, v, th)
                if t2 is not None:
                    yield t2, ()
            return
        if k == "elem":
            for e in F.elems:
                if e[0] == l[1]:
                    t2 = m1(l[2], e[1], th)
                    if t2 is not None:
                        yield t2, ()
            return
        if k == "hask":
            for conj, bound in alternatives(l):
                m = {s: fresh(s.hint) for s in bound}
                conj = rename1(conj, m)
                negs = tuple(g for g in conj if not g[0] or g[1][0] == "neg")
                if negs:
                    for t2, op in self.solve(tuple(g[1] for g in conj if g not in negs), F, th):
                        yield t2, op + tuple((p, ground(q, t2)) for p, q in negs)
                else:
                    for t2, op in self.solve(tuple(g[1] for g in conj), F, th):
                        yield t2, op
            return
        if k == "opq" or True:
            g = tuple(ground(l, th))
            if g in F.flags:
                yield th, ()
                return
            if g in F.noflags:
                return
            v = self.opaque(g, F)
            if v:
                yield th, ()
                return
            if v is None:
                yield th, ((True, g),)

    def list_match(self, pat, m, th):
        if isinstance(pat, Sym):
            return None
        if len(pat) != len(m):
            return None
        for a, b in zip(pat, m):
            th = m1(a, b, th)
            if th is None:
                return None
        return th


def unknown_app(x):
    return isinstance(x, App) and x.fn != SK and x.fn not in ("attr:datatype", "attr:value", "attr:language", "intge")


# ---------------------------------------------------------------- the prover
def flatten(c):
    """Attributes of terms in the head become variables with an equation."""
    if c.head in (None, ERR) or not any(isinstance(x, App) and x.fn != SK for x in c.head):
        return c
    head, pos = [], list(c.pos)
    for x in c.head:
        if isinstance(x, App) and x.fn != SK:
            v = fresh("h")
            pos.append(("eq", v, x))
            x = v
        head.append(x)
    return Clause(tuple(head), pos, c.neg, c.loc, c.name, c.msg, c.effect)


class Program:
    def __init__(self, clauses):
        self.clauses = [flatten(c) for c in clauses]
        self.by = {}
        for c in self.clauses:
            if c.head is None:
                continue
            if c.head == ERR:
                self.by.setdefault(ERR, []).append(c)
            else:
                p = c.head[1]
                self.by.setdefault(p if isinstance(p, IRI) else None, []).append(c)

    def candidates(self, h):
        if h == ERR:
            return self.by.get(ERR, [])
        out = list(self.by.get(h[1], []))
        if not isinstance(h[1], IRI):
            pass
        return out + self.by.get(None, [])


class Proof:
    """Is the goal derivable?  True, False, or None when only undecidable conditions stand in the way."""

    def __init__(self, program, opaque=None, rounds=2, depth=7, excuse=None, budget=4000, or_err=False):
        self.P = program
        self.S = Solver(opaque)
        self.rounds, self.depth = rounds, depth
        self.excuse = excuse or (lambda h, F: False)
        self.budget = budget
        self.undecided = []
        self.used = []
        self.or_err = or_err

    def prove(self, h, F, depth=None, first=frozenset()):
        if depth is None:
            depth = self.depth
        self.budget -= 1
        if self.budget < 0:
            self.undecided.append("search budget exhausted")
            return None
        if F.bad or F is None:
            return True
        if h != ERR and h in F.trip:
            return True
        if self.excuse(h, F):
            return True
        res = False
        G = F
        for rnd in range(self.rounds):
            r = self.backward(h, G, F, depth, first)
            if r:
                return True
            if r is None:
                res = None
            if rnd + 1 < self.rounds:
                G2 = self.step(G)
                if len(G2.trip) == len(G.trip) or len(G2.trip) > 1200:
                    break
                G = G2
                if h != ERR and h in G.trip:
                    return True
        return res

    def goal_match(self, c, h):
        if h == ERR:
            return {} if c.head == ERR else None
        th = {}
        for x, y in zip(c.head, h):
            th = m1(x, y, th)
            if th is None:
                return None
        return th

    def backward(self, h, F, F0, depth, first):
        cands = []
        goals = [(c, h) for c in self.P.candidates(h)]
        if self.or_err and h != ERR:
            goals += [(c, ERR) for c in self.P.candidates(ERR)]
        for c, hg in goals:
            th = self.goal_match(c, hg)
            if th is None:
                continue
            n = 0
            for t2, opened in self.S.solve(c.pos, F, th):
                n += 1
                if n > 60:
                    break
                ok, residual = self.negatives(c, F, t2, first)
                if not ok:
                    continue
                residual = residual + [g for g in opened]
                if not residual:
                    self.used.append(c)
                    return True
                cands.append((len(residual), len(cands), c, t2, residual))
        if not cands:
            return False
        if depth <= 0:
            return False
        cands.sort(key=lambda x: x[:2])
        res = False
        for _, _, c, t2, residual in cands[:12]:
            r = self.split(h, c, t2, residual, F0, depth, first)
            if r:
                self.used.append(c)
                return True
            if r is None:
                res = None
        return res

    def negatives(self, c, F, th, first):
        """(possible, residual conditions) for the negative literals of an instance."""
        residual = []
        for l in c.neg:
            v = self.neg_value(l, F, th, first)
            if v is False:
                return False, []
            if v is None:
                residual.append((False, ground_neg(l, th)) if l[0] != "neg" else (True, ground_neg(l, th)))
        return True, residual

    def neg_value(self, l, F, th, first):
        k = l[0]
        if k == "neg":
            if isinstance(l[2], tuple) and l[2][0] == "preempt":
                # the instance built from the first interrupting iteration is not itself preempted
                used = set(th.values())
                if any(lp == l[2] and set(marks) <= used for lp, marks in first):
                    return True
                return None
            conj = tuple(rename1(l[1], th))
            pos = tuple(g[1] for g in conj if g[0] and g[1][0] != "neg")
            others = [g for g in conj if not (g[0] and g[1][0] != "neg")]
            for t2, opened in self.S.solve(pos, F, {}):
                if opened:
                    continue
                if all(self.cond_value(g, F, t2) is True for g in others):
                    return False
            return None
        return self.lit_false(l, F, th)

    def cond_value(self, g, F, th):
        p, l = g
        if p and l[0] == "neg":
            return self.neg_value(l, F, th, ())
        if not p:
            return self.lit_false(l, F, th)
        return None

    def lit_false(self, l, F, th):
        """Is the literal false?  True / False / None"""
        k = l[0]
        if k == "eq":
            return different(F, ground(l[1], th), ground(l[2], th))
        if k == "isa":
            v = F.known_isa(ground(l[1], th), l[2])
            return None if v is None else not v
        if k == "memb":
            x = ground(l[1], th)
            x = F.eqs.get(x, x)
            if isinstance(x, Tup):
                x = Tup(tuple(F.eqs.get(y, y) for y in x.items))
            if x in l[2]:
                return False
            if isinstance(x, (IRI, Const)):
                return True
            if isinstance(x, Tup) and all(isinstance(y, (IRI, Const)) for y in x.items):
                return True
            if is_sk(x) and F.known_isa(x, frozenset(("URIRef",))) is False:
                return True
            for y, v in F.nomemb:
                if x == y and v >= l[2]:
                    return True
            return None
        if k in ("in", "elem", "list", "hask"):
            g = ground(l, th)
            for t2, op in self.S.solve((g,), F, {}):
                if not op:
                    return False
            return None
        g = tuple(ground(l, th))
        if g in F.flags:
            return False
        if g in F.noflags:
            return True
        v = self.S.opaque(g, F)
        if v is not None:
            return not v
        return None

    def denied(self, F):
        """Do the facts contradict what is assumed to be absent?"""
        for l in F.absent:
            if l[2] != "cond":
                continue
            pos = tuple(g[1] for g in l[1] if g[0] and g[1][0] != "neg")
            if len(pos) != len(l[1]):
                continue
            if any(not opened for t2, opened in self.S.solve(pos, F, {})):
                return True
        return False

    def split(self, h, c, th, residual, F, depth, first):
        """The goal follows from the instance when the residual conditions hold; prove it for the cases where one fails."""
        res = True
        for p, l in residual:
            k = l[0]
            cases = []
            if p and k == "neg":
                conj, kind, own = l[1], l[2], l[3]
                m = {s: sk(s.hint) for s in own}
                conj = rename1(conj, m)
                f = F.copy()
                r = self.assume_all(f, conj)
                if r is None:
                    self.undecided.append("%s: %s" % (c.loc, lit_str((p, l))[:200]))
                    res = None
                    continue
                nf = first
                if isinstance(kind, tuple) and kind[0] == "preempt":
                    nf = first | {(kind, tuple(m.values()))}
                if r is False or self.denied(f):
                    continue
                cases = [(f, h, nf)]
            elif not p and k == "eq":
                a, b = F.eqs.get(l[1], l[1]), F.eqs.get(l[2], l[2])
                if unknown_app(a) or unknown_app(b):
                    f = F.copy()
                    f.eqs[a if unknown_app(a) else b] = b if unknown_app(a) else a
                    r = self.prove(h, f, depth - 1, first)
                    if r is False and falsifiable(("opq", ("eq", a, b))):
                        return False
                    if r is not True:
                        self.undecided.append("%s: %s" % (c.loc, lit_str((p, l))[:200]))
                        res = None
                    continue
                try:
                    f = merge(F, a, b)
                except Undecided:
                    self.undecided.append("%s: %s" % (c.loc, lit_str((p, l))[:200]))
                    res = None
                    continue
                if f is None:
                    continue
                h2 = h
                if h != ERR:
                    if is_sk(a):
                        h2 = subst_val(h, a, b)
                    elif is_sk(b):
                        h2 = subst_val(h, b, a)
                cases = [(f, h2, first)]
            elif not p and k == "isa":
                f = F.copy()
                f.set_isa(l[1], l[2], True)
                if f.bad or contradictory(f):
                    continue
                cases = [(f, h, first)]
            elif not p and k == "memb":
                if is_sk(l[1]) and len(l[2]) <= 60:
                    for v in l[2]:
                        if not isinstance(v, IRI):
                            continue
                        try:
                            f = merge(F, l[1], v)
                        except Undecided:
                            continue
                        if f is not None:
                            cases.append((f, subst_val(h, l[1], v) if h != ERR else h, first))
                elif isinstance(l[1], App) and l[1].fn.startswith("attr:"):
                    f = F.copy()
                    f.memb.add((l[1], l[2]))
                    cases = [(f, h, first)]
                else:
                    self.undecided.append("%s: %s" % (c.loc, lit_str((p, l))[:200]))
                    res = None
                    continue
            elif not p and k == "in":
                f = F.copy()
                f.trip.add(l[2])
                f.idx = None
                cases = [(f, h, first)]
            elif k in ("opq", "lt"):
                if p and k == "opq" and l[1][0] == "pick":
                    continue
                f = F.copy()
                (f.noflags if p else f.flags).add(l)
                r = self.prove(h, f, depth - 1, first)
                if r is not True:
                    if r is False and falsifiable(l):
                        return False
                    self.undecided.append("%s: %s" % (c.loc, lit_str((p, l))[:200]))
                    res = None
                continue
            elif p and k in ("eq", "isa", "memb"):
                # a positive condition that is not known to hold: the case where it fails
                f = F.copy()
                g = False
                if k == "eq":
                    a, b = F.eqs.get(l[1], l[1]), F.eqs.get(l[2], l[2])
                    f.ne.add(frozenset((a, b)))
                    g = a != b and falsifiable(("opq", ("eq", a, b)))
                elif k == "isa":
                    f.set_isa(l[1], l[2], False)
                    g = is_sk(l[1])
                else:
                    f.nomemb.add((l[1], l[2]))
                    g = input_value(l[1])
                if f.bad or contradictory(f):
                    continue
                r = self.prove(h, f, depth - 1, first)
                if r is False and g:
                    return False
                if r is not True:
                    self.undecided.append("%s: %s" % (c.loc, lit_str((p, l))[:200]))
                    res = None
                continue
            else:
                # a positive condition that is not known to hold
                self.undecided.append("%s: %s" % (c.loc, lit_str((p, l))[:200]))
                res = None
                continue
            for f, h2, nf in cases:
                r = self.prove(h2, f, depth - 1, nf)
                if r is False:
                    return False
                if r is None:
                    res = None
        return res

    def assume_all(self, f, conj):
        """Add the conjunction to the facts. False: impossible; None: not expressible."""
        f.idx = None
        for p, l in conj:
            k = l[0]
            if p and k == "in":
                f.trip.add(tuple(f.eqs.get(x, x) for x in l[2]))
            elif p and k == "list" and not isinstance(l[2], Sym):
                f.add_list(l[1], l[2])
            elif p and k == "isa":
                f.set_isa(l[1], l[2], True)
            elif not p and k == "isa":
                f.set_isa(l[1], l[2], False)
            elif p and k == "elem":
                f.elems.add((l[1], l[2]))
            elif p and k == "eq":
                if isinstance(l[1], App) and l[1].fn.startswith("attr:"):
                    f.eqs[l[1]] = l[2]
                elif isinstance(l[2], App) and l[2].fn.startswith("attr:"):
                    f.eqs[l[2]] = l[1]
                elif isinstance(l[1], App) or isinstance(l[2], App):
                    a, b = (l[1], l[2]) if isinstance(l[1], App) else (l[2], l[1])
                    if a != b:
                        f.eqs[a] = b
                elif l[1] != l[2]:
                    return None
            elif not p and k == "eq":
                d = different(f, l[1], l[2])
                if d is False:
                    return False
                if d is None:
                    f.ne.add(frozenset((l[1], l[2])))
            elif p and k == "memb":
                if isinstance(l[1], (IRI, Const)):
                    if l[1] not in l[2]:
                        return False
                else:
                    f.memb.add((l[1], l[2]))
            elif not p and k == "memb":
                f.nomemb.add((l[1], l[2]))
            elif p and k == "neg":
                f.absent.append(l)
            elif k in ("opq", "lt"):
                (f.flags if p else f.noflags).add(l)
            elif p and k == "hask":
                f.flags.add(l)
            else:
                return None
        if f.bad or contradictory(f):
            return False
        return True

    def step(self, F):
        """One round of consequences that hold without any case analysis."""
        new = set()
        F.index()
        for c in self.P.clauses:
            if c.head == ERR or c.head is None:
                continue
            n = 0
            for th, opened in self.S.solve(c.pos, F, {}):
                n += 1
                if n > 400:
                    break
                if opened:
                    continue
                t = tuple(ground(x, th) for x in c.head)
                if t in F.trip or t in new or has_sym(t):
                    continue
                if all(self.neg_value(l, F, th, ()) is True for l in c.neg):
                    new.add(t)
        if not new:
            return F
        G = F.copy()
        G.trip |= new
        G.idx = None
        return G


def falsifiable(l):
    """An opaque condition on generic terms that some terms satisfy and others do not."""
    tag, args = (l[1][0], l[1][1:]) if l[0] == "opq" else (l[0], l[1:])
    if tag == "mtrue":
        return True
    if tag == "sliced":
        return has_sk(args[0])
    if tag == "raises" and len(args) == 4 and args[1] == "call" and isinstance(args[2], App) and args[2].fn == "lookup":
        return input_value(args[3]) and has_sk(args[3])
    if tag not in ("lt", "eq", "truthy", "in", "substr", "match", "identical", "isa"):
        return False
    if not all(input_value(x) for x in args) or not any(has_sk(x) for x in args):
        return False
    if any(isinstance(x, App) and x.fn == "len" for x in args) and any(isinstance(x, Const) and isinstance(x.v, (int, float)) and x.v <= 0 for x in args):
        return False
    return True


INPUT_FNS = {"str", "len", "int", "float", "abs", "type", "attr:datatype", "attr:value", "attr:language", "attr:base_type", "restriction",
             "m:lower", "m:upper", "m:strip", "m:n3", "m:toPython", "m:title", "m:casefold", "m:rstrip", "m:lstrip", "m:eq"}


def has_sk(x):
    if is_sk(x):
        return True
    return any(has_sk(y) for y in (x.args if isinstance(x, App) else x.items if isinstance(x, Tup) else ()))


def input_value(x):
    """A term of the data, or something computed from terms of the data alone."""
    if is_sk(x) or isinstance(x, (IRI, Const)):
        return True
    if isinstance(x, App):
        return x.fn in INPUT_FNS and all(input_value(y) for y in x.args)
    if isinstance(x, Tup):
        return all(input_value(y) for y in x.items)
    return isinstance(x, str)


def contradictory(f):
    for x in {x for x, k in f.isa}:
        if sum(1 for k in SORTS if f.isa.get((x, k))) > 1:
            return True
        if f.isa.get((x, "Literal")) and x in f.lists:
            return True
    return False


def ground_neg(l, th):
    if l[0] == "neg":
        own = l[3]
        t2 = {k: v for k, v in th.items() if k not in own}
        return ("neg", rename1(l[1], t2), l[2], own)
    return tuple(ground(x, th) if not isinstance(x, str) else x for x in l)


# ---------------------------------------------------------------- clauses from effects
class BadEffect(Exception):
    pass


def clause_of(eff):
    """The clause of a store or error effect."""
    if eff.kind in ("store", "gadd"):
        t = eff.payload[0] if eff.kind == "store" else eff.payload[-1]
        if not isinstance(t, Tup) or len(t.items) != 3:
            raise BadEffect("the triple is not known")
        head = t.items
        msg = None
    elif eff.kind == "error":
        head, msg = ERR, eff.payload[0]
    else:
        raise BadEffect(eff.kind)
    return make_clause(head, eff.guards, eff.loc, msg, eff)


def make_clause(head, guards, loc, msg=None, eff=None):
    pos, neg = [], []
    for p, l in guards:
        if l[0] == "eq" and isinstance(l[1], App) and l[1].fn == "intge" and isinstance(l[2], Const):
            n = l[1].args[0].v
            if isinstance(l[2].v, int) and l[2].v < n:
                if p:
                    return None
                continue
        if p and l[0] != "neg":
            pos.append(l)
        elif p:
            neg.append(l)
        elif l[0] == "neg":
            raise BadEffect("double negation")
        else:
            neg.append(l)
    return Clause(head, pos, neg, loc, msg=msg, effect=eff)


def lits_key(c):
    return (c.pos, c.neg)


def dedup(clauses):
    """Drop the clauses that are instances of another one."""
    groups = {}
    for c in clauses:
        p = "ERR" if c.head == ERR else (c.head[1] if isinstance(c.head[1], IRI) else None)
        groups.setdefault((p, c.loc[1] if c.loc else 0), []).append(c)
    out = []
    for g in groups.values():
        g.sort(key=lambda c: len(c.pos) + len(c.neg))
        kept = []
        for c in g:
            if not any(instance(k, c) for k in kept):
                kept.append(c)
        out += kept
    return out


def instance(a, b):
    """Is every instance of b an instance of a?"""
    bindable = a.syms.__contains__
    head_a = a.head if a.head != ERR else (Tup((a.msg,)) if isinstance(a.msg, Val) else Const("m"),)
    head_b = b.head if b.head != ERR else (Tup((b.msg,)) if isinstance(b.msg, Val) else Const("m"),)
    if a.syms & b.syms:
        m = {s: fresh(s.hint) for s in a.syms}
        ga = tuple((True, rename1(l, m)) for l in a.pos) + tuple((l[0] == "neg", rename_neg(l, m)) for l in a.neg)
        head_a = rename1(tuple(head_a), m)
        names = set(m.values())
    else:
        ga = tuple((True, l) for l in a.pos) + tuple((l[0] == "neg", l) for l in a.neg)
        names = a.syms
    gb = tuple((True, l) for l in b.pos) + tuple((l[0] == "neg", l) for l in b.neg)
    if len(ga) > len(gb):
        pass
    th = match(tuple(head_a), tuple(head_b), {}, names.__contains__)
    if th is None:
        return False
    return covers(ga, gb, th, names.__contains__) is not None


def rename_neg(l, m):
    return rename1(l, m)
