"""C10: the closures come to an end on every graph: no exception, no invented terms, no endless loop or recursion."""
from __future__ import annotations
import ast, os
from sa.rules import *
from sa.engine import *
from sa.values import *
from .effects import CLASSES, HOOKS, session, all_effects, run_method, run_rules
from .axioms import label
from .facade import exc_name
from .drv import ending

NAMED = {"mayraise": "may raise", "unresolved": "uses a name that does not exist:", "badterm": "uses a term that its namespace does not have:", "badcall": "is called with the wrong arguments",
         "badformat": "formats with the wrong number of arguments"}
TERMS = ("BNode", "URIRef", "Literal")


def text(p):
    return " ".join(str(x.v if isinstance(x, Const) else x) for x in (p if isinstance(p, tuple) else (p,)))[:160]


def constructed(t):
    return isinstance(t, App) and (t.fn in TERMS or t.fn.startswith("call:rdflib") or any(constructed(a) for a in t.args if isinstance(a, Val)))


# ------------------------------------------------------------------------------------------------ walks over the graph
QUERIES = frozenset(("value", "objects", "subjects", "predicates", "subject_objects", "predicate_objects", "subject_predicates", "triples", "items"))
GROW = frozenset(("append", "add", "update", "extend", "insert", "appendleft", "extendleft", "setdefault", "union"))


def names(n):
    """Variables and attributes, as text."""
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name):
            out.add(x.id)
        elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
            out.add(x.value.id + "." + x.attr)
    return out


def grown(body):
    """What gets larger."""
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in GROW:
                out |= names(x.func.value)
            elif isinstance(x, ast.AugAssign):
                out |= names(x.target)
            elif isinstance(x, (ast.Assign,)):
                for t in x.targets:
                    if isinstance(t, ast.Subscript):
                        out |= names(t.value)
                    elif isinstance(t, ast.Name) and isinstance(x.value, ast.BinOp) and t.id in names(x.value):
                        out.add(t.id)
    return out


def tests(body):
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, (ast.If, ast.While, ast.IfExp)):
                yield x.test
            elif isinstance(x, ast.Assert):
                yield x.test
            elif isinstance(x, ast.comprehension):
                yield from x.ifs


def guarded(body, test, own, allowed=()):
    """A test on something that grows (a set of visited nodes, a counter), other than the work list itself."""
    g = (grown(body) | set(allowed)) - own
    for t in [test] * (test is not None) + list(tests(body)):
        if any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Attribute) and x.func.attr in QUERIES) and not (isinstance(x.func, ast.Name) and x.func.id in ("len", "isinstance", "bool"))
               for x in ast.walk(t)):
            return True        # unknown function: it may know
        if names(t) & g:
            return True
        for x in ast.walk(t):
            if isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops):
                if any(not (isinstance(c, ast.Attribute) and c.attr in ("graph", "destination")) for c in x.comparators):
                    return True
    return any(isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Sub, ast.BitAnd)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("difference", "difference_update", "fromkeys")
               for s in body for x in ast.walk(s))


def from_graph(body):
    """Variables that get their values from queries of a graph (also through other variables)."""
    out = set()
    while True:
        k = len(out)
        for s in body:
            for x in ast.walk(s):
                pairs = []
                if isinstance(x, ast.Assign):
                    pairs = [(t, x.value) for t in x.targets]
                elif isinstance(x, (ast.For, ast.comprehension)):
                    pairs = [(x.target, x.iter)]
                elif isinstance(x, ast.NamedExpr):
                    pairs = [(x.target, x.value)]
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in GROW and x.args:
                    pairs = [(x.func.value, a) for a in x.args]
                for t, v in pairs:
                    if query(v) or names(v) & out:
                        out |= names(t) - {"self"}
        if len(out) == k:
            return out


def query(v):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in QUERIES and "graph" in (ast.unparse(x.func.value)).lower() for x in ast.walk(v))


def leaves(body, test):
    """break, return or raise that depends on nothing but what the loop reads is no progress; an unconditional one is."""
    return any(isinstance(s, (ast.Return, ast.Raise, ast.Break)) for s in body)


def walks(rep, root):
    rep.rule("loops (while) and recursive functions that follow edges of the graph have to remember the nodes they have visited: their end must not depend on the "
             "graph having no cycle")
    eng = Engine(root)
    eng.load()
    for mod in sorted(eng.modules):
        m = eng.modules[mod]
        if not m.path.startswith(os.path.join(root, "owlrl")):
            continue
        where = os.path.relpath(m.path, root)
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            params = {a.arg for a in fn.args.args} - {"self"}
            for x in ast.walk(fn):
                if isinstance(x, ast.While):
                    rep.count("while loops")
                    follow = from_graph(x.body)
                    own = names(x.test)
                    if isinstance(x.test, ast.Constant):
                        own = set().union(set(), *[names(t) for t in tests(x.body)]) & follow
                    moving = own & follow
                    bad = moving and not guarded(x.body, x.test, moving) and not leaves(x.body, x.test) and feeds(x.body, moving)
                    rep.check(not bad, "walk/%s" % fn.name, "the loop follows the edges of the graph and does not end if they form a cycle (%s)" % ast.unparse(x.test), (where, x.lineno, fn.name))
                elif isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr == fn.name and isinstance(x.func.value, ast.Name) and x.func.value.id in ("self", "cls")
                                                  or isinstance(x.func, ast.Name) and x.func.id == fn.name):
                    rep.count("recursive calls")
                    follow = from_graph(fn.body)
                    args = list(x.args) + [k.value for k in x.keywords]
                    bad = any(query(a) or names(a) & follow for a in args) and not guarded(fn.body, None, set(), ())
                    rep.check(not bad, "walk/%s" % fn.name, "the recursion follows the edges of the graph and does not end if they form a cycle", (where, x.lineno, fn.name))


def feeds(body, moving):
    """The next value comes from a query about the present one."""
    dep = set(moving)
    for _ in range(4):
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Assign) and names(x.value) & dep:
                    for t in x.targets:
                        dep |= names(t) - {"self"}
                elif isinstance(x, ast.For) and names(x.iter) & dep:
                    dep |= names(x.target)
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in QUERIES and any(names(a) & dep for a in x.args):
                return True
    return False


def total(rep, root, tier):
    rep.rule("for each closure class: no effect of constructor, hooks, rules (in the first and in later cycles) and loop may raise an exception that is not handled (unknown names, attributes of "
             "terms of the wrong kind, indexes, keys, conversions, comparisons, calls), no path of them ends in one, and no derived triple has a term made during the closure")
    walks(rep, root)
    ending(rep, root, tier)
    if rep.violations and any(k.startswith("walk/") for k, _, _ in rep.violations):
        return      # the paths of such a function are not bounded
    for cls, rdfs in CLASSES:
        name = label(cls, rdfs)
        try:
            c = session(root, cls, rdfs)
        except Broken as b:
            rep.undecide("%s: %s" % (name, b))
            continue
        effs = list(all_effects(c))
        outs = []
        for cycle in (1, 2):
            t, eff, res = run_rules(c, Const(cycle))
            effs += [("rules", e) for e in eff]
            outs += [("rules", y, v) for y, v in res]
        for m in HOOKS:
            if m == "one_time_rules" and cls == "OWLRL_Extension_Trimming":
                continue        # inherited
            saved = dict(c.eng.overrides)
            if m == "one_time_rules" and cls == "OWLRL_Extension":
                # what is inherited has been looked at for the parent class
                own = c.eng.class_attr(c.cls, m, c.st)
                for k in c.eng.mro(c.cls):
                    f = c.eng.class_attr(k, m, c.st)
                    if isinstance(f, Fn) and isinstance(own, Fn) and f.qual != own.qual:
                        c.eng.overrides[f.qual] = lambda en, fn, args, kw, st, node: [(st, NONE)]
            eff, res = run_method(c, m)
            c.eng.overrides = saved
            if m == "one_time_rules" and cls == "OWLRL_Extension":
                effs += [(m, e) for e in eff]
            outs += [(m, y, v) for y, v in res]
        seen = set()
        for m, e in effs:
            k = (e.kind, e.loc)
            rep.count("effects")
            if e.kind in NAMED:
                key = "%s/%s/%s" % (e.kind, e.loc[2].split(":")[-1] if e.loc and len(e.loc) > 2 else "", text(e.payload[:1]) if e.kind in ("mayraise",) else text(e.payload))
                if (key, e.loc) not in seen:
                    seen.add((key, e.loc))
                    rep.violation(key, "%s: %s %s (%s)" % (name, e.loc[2].split(":")[-1] if e.loc and len(e.loc) > 2 else m, NAMED[e.kind], text(e.payload)), e.loc)
            elif e.kind == "recursion":
                rep.undecide("%s: %s is recursive" % (name, text(e.payload)))
            elif e.kind == "store":
                ts = e.payload if isinstance(e.payload, tuple) else (e.payload,)
                new = [x for t in ts for x in (t.items if isinstance(t, Tup) else (t,)) if constructed(x)]
                if m == "rules":
                    rep.check(not new, "term/%s" % (e.loc[2].split(":")[-1] if e.loc and len(e.loc) > 2 else ""), "%s: a rule derives triples with a new term %s" % (name, text(tuple(new[:1]))), e.loc)
                else:
                    rep.ok()
            else:
                rep.ok()
        for m, y, v in outs:
            rep.count("paths")
            if isinstance(v, Exit) and v.kind == "raise":
                rep.violation("exit/%s/%s" % (m, exc_name(v)), "%s: %s ends with %s, when %s" % (name, m, exc_name(v), "; ".join(map(lit_str, y.guards[-3:]))[:300]), ("owlrl", 0, m))
            else:
                rep.ok()
