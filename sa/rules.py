"""Extraction of the rule programs, and the comparison with the reference rules."""
from __future__ import annotations
from .engine import *
from .values import *
from .extract import *
from .logic import *
from . import spec


class Extraction:
    """The clauses of one closure class."""

    def __init__(self, root, clsname, rdfs=None, axioms=False, daxioms=False):
        self.clsname = clsname
        self.eng = Engine(root)
        self.eng.load()
        self.ctx = open_closure(self.eng, clsname, Const(axioms), Const(daxioms), **({} if rdfs is None else {"rdfs": Const(rdfs)}))
        self.progs = {}
        self.problems = []   # constructs that the analysis cannot follow
        self.effects = {}

    def listlens(self):
        return max(self.eng.listlens)

    def clauses(self, effects, where):
        out = []
        for x in effects:
            if x.kind in ("store", "error", "gadd"):
                try:
                    c = clause_of(x)
                except BadEffect as b:
                    self.problems.append((where, "%s: %s" % (x.loc, b)))
                    continue
                if c is not None:
                    out.append(c)
            elif x.kind in PROBLEM:
                self.problems.append((where, "%s %s at %s" % (x.kind, repr(x.payload)[:150], x.loc)))
        return dedup(out)

    def rules(self, cycle):
        """cycle: 1 or 2 (any later one), or ("at", n)"""
        if cycle not in self.progs:
            cv = Const(1) if cycle == 1 else App("intge", (Const(2),)) if cycle == 2 else Const(cycle[1])
            t, eff, res = havoc_state(self.ctx, cv)
            self.effects[cycle] = eff
            self.progs[cycle] = self.clauses(eff, "rules/%s" % (cycle,) if isinstance(cycle, int) else "rules/at%d" % cycle[1])
        return self.progs[cycle]

    def method(self, name):
        if name not in self.progs:
            eff, res = run_method(self.ctx, name)
            self.effects[name] = eff
            self.progs[name] = self.clauses(eff, name)
        return self.progs[name]


PROBLEM = ("unresolved", "callunknown", "loopcut", "methodcall", "attr", "recursion", "bufother")


def freeze(clause):
    """Generic constants for the variables of a clause, and its body as facts: (facts, head, substitution)."""
    m = {s: sk(s.hint) for s in sorted(clause.syms, key=lambda s: s.id)}
    F = Facts()
    p = Proof(Program([]))
    # "the value is one of these" for a term is a case distinction of the caller
    body = [(True, rename1(l, m)) for l in clause.pos]
    for l in clause.neg:
        body.append((l[0] == "neg", ground_neg(l, m)))
    r = p.assume_all(F, body)
    head = clause.head if clause.head == ERR else tuple(rename1(x, m) for x in clause.head)
    return F, head, m, r


REFLEXIVE = {spec.iri(x) for x in ("rdfs:subClassOf", "rdfs:subPropertyOf", "owl:equivalentClass", "owl:equivalentProperty")}


def literal_predicate(h, F):
    """A literal cannot be the predicate of a triple; trivial reflexive consequences are not required."""
    if h == ERR:
        return False
    if h[1] in REFLEXIVE and h[0] == h[2]:
        return True
    return F.known_isa(h[1], frozenset(("Literal",))) is True


def complete(rule, prog, depth=5, rounds=2, budget=600, or_err=False):
    """-> (True | False | None, notes)"""
    F, head, m, r = freeze(getattr(rule, "strict", rule.clause))
    if r is False:
        return True, ["vacuous"]
    if r is None:
        return None, ["not expressible"]
    pr = Proof(prog, depth=depth, rounds=rounds, excuse=literal_predicate, budget=budget, or_err=or_err)
    v = pr.prove(head, F)
    return v, pr


def sound(clause, ref, depth=3, rounds=3, budget=600):
    """Is the clause a consequence of the reference program?"""
    out = []
    if any(l[0] == "elem" and l[1][0] == "iter" for l in clause.pos):
        return [(None, clause)]   # what is iterated over is not known
    # without the case distinctions first
    F, head, m, r = freeze(clause)
    if r is True and Proof(ref, depth=depth, rounds=rounds, budget=min(budget, 100)).prove(head, F):
        return out
    for c in expand(clause):
        F, head, m, r = freeze(c)
        if r is False:
            continue
        if r is None:
            out.append((None, c))
            continue
        pr = Proof(ref, depth=depth, rounds=rounds, budget=budget)
        v = pr.prove(head, F)
        if not v:
            out.append((v, c))
    return out


def expand(c):
    """Split memberships in finite sets and the alternatives of a key into cases."""
    for i, l in enumerate(c.pos):
        rest = c.pos[:i] + c.pos[i + 1:]
        if l[0] == "memb" and isinstance(l[1], Sym) and len(l[2]) <= 80:
            out = []
            for v in sorted(l[2], key=repr):
                m = {l[1]: v}
                out += expand(inst(c, rest, m))
            return out
        if l[0] == "memb" and isinstance(l[1], Tup) and len(l[2]) <= 400:
            out = []
            for v in sorted(l[2], key=repr):
                th = m1(l[1], v, {})
                if th is not None:
                    out += expand(inst(c, rest, th))
            return out
        if l[0] == "hask":
            out = []
            for conj, bound in alternatives(l):
                m = {s: fresh(s.hint) for s in bound}
                conj = rename1(conj, m)
                pos = rest + tuple(g[1] for g in conj if g[0] and g[1][0] != "neg")
                neg = c.neg + tuple(g[1] for g in conj if not (g[0] and g[1][0] != "neg"))
                out += expand(Clause(c.head, pos, neg, c.loc, c.name, c.msg, c.effect))
            return out
        if l[0] == "eq" and isinstance(l[1], Sym):
            return expand(inst(c, rest, {l[1]: l[2]}))
    return [c]


def inst(c, pos, m):
    h = c.head if c.head == ERR else tuple(rename(x, m) for x in c.head)
    return Clause(h, tuple(rename(l, m) for l in pos), tuple(rename(l, m) for l in c.neg), c.loc, c.name,
                  rename(c.msg, m) if c.msg is not None else None, c.effect)
