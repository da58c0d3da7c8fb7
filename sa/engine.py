"""
A path-sensitive abstract interpreter for the Python of /repo/owlrl.

Nothing of the analysed program is imported or executed: modules are parsed with `ast` and interpreted over
abstract values (sa.values).  A loop over a graph (or over any collection whose contents depend on the graph)
is analysed once, for a generic element; conditions on the graph become literals of the path condition;
mutable collections become sets of guarded entries.  Effects (graph writes, stored triples, error reports,
exceptions, writes to process-wide objects) are recorded with the path condition under which they happen, i.e.
every effect is a Horn clause  "effect <- guards".
"""
from __future__ import annotations
import ast
import builtins
import os
import sys
from .values import *
from .values import _counter
from .exprs import Exprs

sys.setrecursionlimit(20000)

RDFTYPES = frozenset({"URIRef", "BNode", "Literal"})
ALLTYPES = {"Identifier": RDFTYPES, "Node": RDFTYPES, "str": RDFTYPES, "IdentifiedNode": frozenset({"URIRef", "BNode"}),
            "URIRef": frozenset({"URIRef"}), "BNode": frozenset({"BNode"}), "Literal": frozenset({"Literal"}),
            "object": RDFTYPES}
NS = {"RDF": "http://www.w3.org/1999/02/22-rdf-syntax-ns#", "RDFS": "http://www.w3.org/2000/01/rdf-schema#",
      "OWL": "http://www.w3.org/2002/07/owl#", "XSD": "http://www.w3.org/2001/XMLSchema#"}


class Broken(Exception):
    """The analysis cannot find what it is anchored to."""


class TooComplex(Exception):
    pass


@dataclass(frozen=True)
class Exit(Val):
    kind: str  # raise | unwind
    val: Any = None


class Effect:
    __slots__ = ("kind", "payload", "guards", "loc", "trace", "loops")

    def __init__(self, kind, payload, guards, loc, trace=(), loops=()):
        self.kind, self.payload, self.guards, self.loc, self.trace, self.loops = kind, payload, guards, loc, trace, loops

    def __repr__(self):
        return "%s %r <- %s @%s" % (self.kind, self.payload, "; ".join(map(lit_str, self.guards)), self.loc)


class Module:
    def __init__(self, name, path, tree, source):
        self.name, self.path, self.tree, self.source = name, path, tree, source
        self.env = None


def names_loaded(node, cache={}):
    """The names that a statement (or expression) may read before it has set them itself."""
    k = id(node)
    if k not in cache:
        cache[k] = (frozenset(_exposed(node)[0]), node)
    return cache[k][0]


def _reads(node):
    """All the names read by an expression (nested scopes included, their own variables excluded)."""
    if node is None:
        return set()
    if isinstance(node, ast.Name):
        return {node.id}
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        out, own = set(), set()
        for g in node.generators:
            out |= _reads(g.iter) - own
            k, r = _targets(g.target)
            out |= r - own
            own |= k
            for c in g.ifs:
                out |= _reads(c) - own
        for e in ((node.key, node.value) if isinstance(node, ast.DictComp) else (node.elt,)):
            out |= _reads(e) - own
        return out
    if isinstance(node, ast.Lambda):
        own = {a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs + [x for x in (node.args.vararg, node.args.kwarg) if x]}
        out = _reads(node.body) - own
        for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
            out |= _reads(d)
        return out
    out = set()
    for c in ast.iter_child_nodes(node):
        out |= _reads(c)
    return out


def _targets(t):
    if isinstance(t, ast.Name):
        return {t.id}, set()
    if isinstance(t, (ast.Tuple, ast.List)):
        k, r = set(), set()
        for e in t.elts:
            k1, r1 = _targets(e)
            k |= k1
            r |= r1
        return k, r
    if isinstance(t, ast.Starred):
        return _targets(t.value)
    return set(), _reads(t)


def _block(stmts):
    exp, kill = set(), set()
    for s in stmts:
        e, k = _exposed(s)
        exp |= e - kill
        kill |= k
        if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            break
    return exp, kill


def _exposed(s):
    """-> (names read before they are set, names set on every normal path)"""
    if isinstance(s, ast.Assign):
        exp, kill = _reads(s.value), set()
        for t in s.targets:
            k, r = _targets(t)
            kill |= k
            exp |= r
        return exp, kill
    if isinstance(s, ast.AnnAssign):
        k, r = _targets(s.target)
        return _reads(s.value) | r, (k if s.value is not None else set())
    if isinstance(s, (ast.For, ast.AsyncFor)):
        k, r = _targets(s.target)
        e, _ = _block(s.body)
        e2, _ = _block(s.orelse)
        return _reads(s.iter) | r | (e - k) | e2, set()
    if isinstance(s, ast.If):
        e1, k1 = _block(s.body)
        e2, k2 = _block(s.orelse)
        return _reads(s.test) | e1 | e2, k1 & k2
    if isinstance(s, ast.While):
        return _reads(s.test) | _block(s.body)[0] | _block(s.orelse)[0], set()
    if isinstance(s, (ast.With, ast.AsyncWith)):
        exp, kill = set(), set()
        for i in s.items:
            exp |= _reads(i.context_expr) - kill
            if i.optional_vars is not None:
                k, r = _targets(i.optional_vars)
                kill |= k
                exp |= r
        return exp | (_block(s.body)[0] - kill), set()
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return _reads(s), {s.name}
    return _reads(s), set()


def has_yield(fn):
    """Does the function (not the nested ones) contain a yield?"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def rdflib_terms():
    """The terms of rdflib's closed namespaces, read from the source of the installed rdflib (not imported)."""
    base = None
    for d in ("/opt/venv/lib/python3.12/site-packages/rdflib/namespace",):
        if os.path.isdir(d):
            base = d
    out = {}
    if base is None:
        return out
    for n in NS:
        f = os.path.join(base, "_%s.py" % n)
        if not os.path.exists(f):
            continue
        t = ast.parse(open(f, encoding="utf-8").read())
        for c in t.body:
            if isinstance(c, ast.ClassDef) and c.name == n:
                terms, flags = set(), {}
                for s in c.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        terms.add(s.target.id)
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                        v = s.value
                        if isinstance(v, ast.Constant):
                            flags[s.targets[0].id] = v.value
                        elif isinstance(v, ast.List):
                            flags[s.targets[0].id] = [e.value for e in v.elts if isinstance(e, ast.Constant)]
                terms |= set(flags.get("_extras", []) or [])
                out[n] = (terms, flags)
    return out


_TERMS = None


def ns_term(ns, name):
    """-> IRI or None if the closed namespace does not have that term."""
    global _TERMS
    if _TERMS is None:
        _TERMS = rdflib_terms()
    if ns in _TERMS:
        terms, flags = _TERMS[ns]
        if name not in terms and flags.get("_fail"):
            if not (flags.get("_underscore_num") and name[:1] == "_" and name[1:].isdigit()):
                return None
    return IRI(NS[ns] + name)


class Engine(Exprs):
    def __init__(self, root="/repo", listlens=(0, 1, 2, 3), package="owlrl", extra_files=()):
        self.root, self.package = root, package
        self.listlens = listlens
        self.concrete = {}  # role of a graph -> its triples and {head: elements} of its lists, for graphs that are fully known
        self.sink = []
        self.gmut = []  # effects on process-wide objects
        self.modules = {}
        self.init_state = State()
        self.try_stack = []
        self.stack = []
        self.loops = []
        self.tracing = False
        self.notes = []
        self.steps = 0
        self.fuel = 6_000_000
        self.in_init = True
        self.global_ids = {}
        self.ext_objects = {}  # path -> Ref, for library objects that are followed
        self.special = {}      # heap id -> role ('buffer' | 'errors')
        self.buffer_attrs = {}  # (instance id, attr) -> role
        self.overrides = {}    # function qualname -> python callable(engine, args, kw, st)
        self.attr_hooks = {}
        self.functions_seen = set()
        self.calls_seen = 0
        self.yield_cb = []
        self.parse_all(extra_files)

    # ------------------------------------------------------------------ loading
    def parse_all(self, extra_files):
        d = os.path.join(self.root, self.package)
        if not os.path.isdir(d):
            raise Broken("no package directory %s" % d)
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                self.parse_file(os.path.join(d, f), self.package if f == "__init__.py" else self.package + "." + f[:-3])
        for name, p in extra_files:
            self.parse_file(p, name)

    def parse_file(self, path, name):
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        self.modules[name] = Module(name, path, tree, src)

    def load(self, names=None):
        for n in names or list(self.modules):
            self.load_module(n)
        self.in_init = False
        for i, o in self.init_state.heap.items():
            self.global_ids.setdefault(i, "module-level object")
        return self.init_state

    def load_module(self, name):
        m = self.modules[name]
        if m.env is not None:
            return
        env = next(_counter)
        m.env = env
        self.init_state = self.init_state.put(env, HEnv({"__name__": Const(name), "__file__": Const(m.path)}, None, "<module>"))
        st = self.init_state
        saved_stack = self.stack
        self.stack = [("<module %s>" % name, m)]
        for s in m.tree.body:
            # modules imported by this statement are loaded first (they extend self.init_state)
            self._preload(s, m)
            st = self._rebase(st)
            outs = self.exec_stmt(s, st, env, frozenset())
            norm = [o for o in outs if o[0] == "normal"]
            if not norm:
                self.notes.append("module %s: statement at line %d does not complete: %s" % (name, s.lineno, [o[2] for o in outs][:1]))
                continue
            st = norm[0][1]
            self.init_state = st
        self.stack = saved_stack
        self.init_state = st
        # name the global objects, for the reports
        for k, v in st.heap[env].vars.items():
            if isinstance(v, Ref) and self.global_ids.get(v.id, "module-level object") == "module-level object":
                self.global_ids[v.id] = "%s.%s" % (name, k)

    def _rebase(self, st):
        if st is self.init_state:
            return st
        return self.init_state

    def _preload(self, s, m):
        for n in ast.walk(s):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for target in self._import_targets(n, m):
                    if target in self.modules and self.modules[target].env is None:
                        self.load_module(target)

    def _import_targets(self, n, m):
        if isinstance(n, ast.Import):
            return [a.name for a in n.names]
        mod = self._abs_module(n, m)
        return [mod] + [mod + "." + a.name for a in n.names]

    def _abs_module(self, n, m):
        if n.level:
            parts = m.name.split(".")
            if not m.path.endswith("__init__.py"):
                parts = parts[:-1]
            if n.level > 1:
                parts = parts[: -(n.level - 1)]
            return ".".join(parts + ([n.module] if n.module else []))
        return n.module or ""

    # ------------------------------------------------------------------ names
    def canon_ext(self, path):
        last = path.split(".")[-1]
        if last in NS and path.startswith("rdflib"):
            return Ext("ns:" + last)
        if path.startswith("rdflib") and last in ("Literal", "URIRef", "BNode", "Graph", "Dataset", "ConjunctiveGraph",
                                                  "Namespace", "Variable", "IdentifiedNode", "Identifier", "Node", "_toPythonMapping", "XSDToPython"):
            return self.ext_objects.get("rdflib." + last) or Ext("rdflib." + last)
        return self.ext_objects.get(path) or Ext(path)

    def lookup(self, name, st, env):
        e = env
        while e is not None:
            h = st.heap.get(e)
            if h is None:
                break
            if name in h.vars:
                return h.vars[name]
            e = h.parent
        if hasattr(builtins, name):
            return Ext("builtins." + name)
        return None

    def setvar(self, st, env, name, val):
        h = st.heap[env]
        v = dict(h.vars)
        v[name] = val
        return st.put(env, HEnv(v, h.parent, h.fnname))

    def assign_name(self, st, env, name, val):
        h = st.heap[env]
        mark = h.vars.get("%scope:" + name)
        if mark is not None:
            if mark == Const("global"):
                e = env
                while st.heap[e].parent is not None:
                    e = st.heap[e].parent
                if not self.in_init:
                    self.global_effect(st, "%s.%s" % (self.cur_module().name, name), "rebinds the global")
                return self.setvar(st, e, name, val)
            e = h.parent
            while e is not None and name not in st.heap[e].vars:
                e = st.heap[e].parent
            if e is not None:
                return self.setvar(st, e, name, val)
        return self.setvar(st, env, name, val)

    def cur_module(self):
        return self.stack[-1][1]

    def loc(self, node):
        fn, m = self.stack[-1]
        return (os.path.relpath(m.path, self.root), getattr(node, "lineno", 0), fn)

    # ------------------------------------------------------------------ effects
    def emit(self, kind, payload, st, node):
        payload = rename(payload, st.subst)
        todo = [st.guards]
        while todo:
            gs = todo.pop()
            if any(l[0] == "hask" for p, l in gs):
                gs = fold(payload, gs, lambda s: s not in self.frozen)
            self.sink.append(Effect(kind, payload, gs, self.loc(node), st.trace, tuple(self.loops)))
        if self.tracing:
            st = st.ev((kind, payload, self.loc(node), st.guards))
        return st

    def global_effect(self, st, name, what, node=None):
        self.gmut.append((name, what, self.loc(node) if node is not None else self.loc(ast.Pass(lineno=0)), st.guards))

    def mutated(self, st, rid, node, what):
        if not self.in_init and rid in self.global_ids:
            self.global_effect(st, self.global_ids[rid], what, node)

    def mayraise(self, st, exc, key, node):
        """An operation that may raise: the handler of an enclosing try can be reached from here."""
        if self.try_stack:
            l = ("opq", ("raises", exc) + key)
            s2 = self.add(st, True, l)
            if s2 is not None:
                self.try_stack[-1].append(("raise", s2, App("exc", (Const(exc),))))
            s3 = self.add(st, False, l)
            return s3
        self.emit("mayraise", (Const(exc),) + tuple(k for k in key if isinstance(k, Val)), st, node)
        return st

    # ------------------------------------------------------------------ path conditions
    def add(self, st, pol, l):
        """Add a literal to the path condition; None if the path becomes infeasible."""
        l = rename(l, st.subst)
        k = l[0]
        if k == "in":
            if pol:
                l = ("in", l[1], l[2])
                g = (True, l)
                if g in st.guards:
                    return st
                for x in st.guards:
                    if x[1][0] == "neg" and self._refutes(x[1], st.guards + (g,)):
                        return None
                return self._with(st, g)
            wild = l[3] if len(l) > 3 else frozenset()
            n = ("neg", ((True, ("in", l[1], l[2])),), "cond", frozenset(wild))
            return self.add(st, True, n)
        if k == "ex":
            if pol:
                m = {s: fresh(s.hint) for s in l[2]}
                cur = st
                for p2, l2 in rename1(l[1], m):
                    cur = self.add(cur, p2, l2)
                    if cur is None:
                        return None
                return cur
            if not l[1]:
                return None
            return self.add(st, True, ("neg", l[1], "cond", frozenset(l[2])))
        if k == "hask":
            if not pol:
                r = self.assume(st, l[2], False)
                return r[0] if r else None
            if (True, l) in st.guards:
                return st
            return self._with(st, (True, l))
        if k == "neg":
            if not pol:
                m = {s: fresh(s.hint) for s in l[3]}
                cur = st
                for p2, l2 in rename1(l[1], m):
                    cur = self.add(cur, p2, l2)
                    if cur is None:
                        return None
                return cur
            # simplify conjuncts that are decided
            conj = []
            for p2, l2 in l[1]:
                d = self._decide(st, p2, l2)
                if d is False:
                    return st
                if d is True and not (syms_of(l2) & l[3]):
                    continue
                conj.append((p2, l2))
            if not conj:
                return None
            for i, (p2, l2) in enumerate(conj):
                if p2 and l2[0] == "hask":
                    cur = st
                    for alt, b2 in alternatives(l2):
                        if cur is not None:
                            m = {s: fresh(s.hint) for s in b2}
                            cur = self.add(cur, True, ("neg", tuple(conj[:i]) + rename1(alt, m) + tuple(conj[i + 1:]), l[2], l[3] | frozenset(m.values())))
                    return cur
            l = ("neg", tuple(conj), l[2], l[3])
            g = (True, l)
            if g in st.guards:
                return st
            if self._refutes(l, st.guards):
                return None
            return self._with(st, g)
        if k == "eq":
            f = self.eq(l[1], l[2], st)
            if isinstance(f, Const):
                return st if bool(f.v) == pol else None
            if f.op != "lit":
                r = self.assume(st, f, pol)
                return r[0] if r else None
            l = f.args[0]
            if l[0] != "eq":
                return self.add(st, pol, l)
            a, b = l[1], l[2]
            if pol:
                if isinstance(b, Sym) and not isinstance(a, Sym):
                    a, b = b, a
                if isinstance(a, Sym) and a not in syms_of(b):
                    if isinstance(b, Sym) and b.id > a.id:
                        a, b = b, a
                    return self._subst(st, a, b)
                # App = const
                for p2, l2 in st.guards:
                    if l2[0] == "eq" and l2[1] == a:
                        if p2 and isinstance(l2[2], (Const, IRI)) and isinstance(b, (Const, IRI)) and l2[2] != b:
                            return None
                        if not p2 and l2[2] == b:
                            return None
                g = (True, ("eq", a, b))
                return st if g in st.guards else self._with(st, g)
            for p2, l2 in st.guards:
                if l2[0] == "eq" and p2 and {l2[1], l2[2]} == {a, b}:
                    return None
                if l2[0] == "eq" and p2 and l2[1] == a and isinstance(l2[2], (Const, IRI)) and isinstance(b, (Const, IRI)) and l2[2] != b:
                    return st
            g = (False, ("eq", a, b))
            return st if g in st.guards else self._with(st, g)
        if k == "isa":
            x, T = l[1], l[2]
            if isinstance(x, (IRI, Const, Sym, App)):
                poss = self.poss_types(st, x)
                if poss is not None:
                    T2 = frozenset().union(*[ALLTYPES.get(t, frozenset({t})) for t in T])
                    new = poss & T2 if pol else poss - T2
                    if not new:
                        return None
                    if new == poss:
                        return st
                    return self._with(st, (pol, ("isa", x, T2)))
            g = (pol, l)
            if (not pol, l) in st.guards:
                return None
            return st if g in st.guards else self._with(st, g)
        if k == "memb":
            x, C = l[1], l[2]
            if isinstance(x, (IRI, Const)):
                return st if (x in C) == pol else None
            if isinstance(x, Tup) and all(isinstance(c, Tup) and len(c.items) == len(x.items) for c in C):
                if self.const_key(x):
                    return st if (x in C) == pol else None
                fixed = [(i, a) for i, a in enumerate(x.items) if self.const_key(a)]
                if fixed:
                    C = frozenset(c for c in C if all(c.items[i] == a for i, a in fixed))
                    if not C:
                        return None if pol else st
            for p2, l2 in st.guards:
                if l2[0] == "memb" and l2[1] == x and p2:
                    C2 = l2[2] & C if pol else l2[2] - C
                    if not C2:
                        return None
                    if pol:
                        C = C2
                    elif C2 == l2[2]:
                        return st
            g = (pol, ("memb", x, C))
            if (not pol, ("memb", x, C)) in st.guards:
                return None
            return st if g in st.guards else self._with(st, g)
        if k == "list" and pol:
            for p2, l2 in st.guards:
                if l2[0] == "list" and l2[1] == l[1]:
                    if len(l2[2]) != len(l[2]):
                        return None
                    cur = st
                    for a, b in zip(l2[2], l[2]):
                        cur = self.add(cur, True, ("eq", a, b))
                        if cur is None:
                            return None
                    return cur
            return self._with(st, (True, l))
        g = (pol, l)
        if (not pol, l) in st.guards:
            return None
        if g in st.guards:
            return st
        return self._with(st, g)

    def _with(self, st, g):
        return State(st.guards + (g,), st.subst, st.heap, st.trace)

    def poss_types(self, st, x):
        if isinstance(x, IRI):
            return frozenset({"URIRef"})
        if not isinstance(x, Sym):
            return None
        poss = RDFTYPES
        for p2, l2 in st.guards:
            if l2[0] == "isa" and l2[1] == x:
                poss = poss & l2[2] if p2 else poss - l2[2]
            if l2[0] == "in" and l2[2][1] == x and False:
                pass
        return poss

    def extra_guards(self, z, st):
        """The conditions of the later state z that the state st does not have (with what it says of the symbols of st)."""
        if z.subst is st.subst or z.subst == st.subst:
            have = set(st.guards)
            return tuple(g for g in z.guards if g not in have)
        outer = guards_syms(st.guards)
        eqs = tuple((True, ("eq", s, z.subst[s])) for s in sorted(outer, key=lambda s: s.id) if s in z.subst and s not in st.subst)
        have = set(st.guards)
        have |= {rename(g, z.subst) for g in have}
        return eqs + tuple(g for g in z.guards if g not in have)

    def _decide(self, st, pol, l):
        if (pol, l) in st.guards:
            return True
        if l[0] == "eq":
            f = self.eq(rename(l[1], st.subst), rename(l[2], st.subst), st)
            if isinstance(f, Const):
                return bool(f.v) == pol
        if l[0] == "memb" and isinstance(l[1], (IRI, Const)):
            return (l[1] in l[2]) == pol
        return None

    def _refutes(self, neg, guards):
        """Do the guards contain an instance of the negated conjunction?"""
        conj, bound = neg[1], neg[3]
        facts = [g[1] for g in guards if g[0] and g[1][0] == "in"]
        gs = set(guards)

        def m(i, b):
            if i == len(conj):
                return True
            p, l = conj[i]
            if l[0] == "in" and p:
                for f in facts:
                    if f[1] != l[1]:
                        continue
                    b2 = dict(b)
                    ok = True
                    for x, y in zip(l[2], f[2]):
                        if isinstance(x, Sym) and x in bound:
                            if b2.setdefault(x, y) != y:
                                ok = False
                                break
                        elif x != y:
                            ok = False
                            break
                    if ok and m(i + 1, b2):
                        return True
                return False
            l2 = rename1(l, b)
            if (p, l2) in gs:
                return m(i + 1, b)
            return False

        return m(0, {})

    def _subst(self, st, a, b):
        sub = {k: rename(v, {a: b}) for k, v in st.subst.items()}
        sub[a] = b
        new = State((), sub, st.heap, st.trace)
        for p, l in st.guards:
            l2 = rename(l, {a: b})
            if l2 is l or l2 == l:
                # (a literal whose symbols are not concerned stays as it is)
                new = State(new.guards + ((p, l),), sub, st.heap, st.trace) if (p, l) not in new.guards else new
                continue
            new = self.add(new, p, l2)
            if new is None:
                return None
        # negative literals may be refuted by now
        for p, l in new.guards:
            if l[0] == "neg" and self._refutes(l, new.guards):
                return None
        return new

    def assume(self, st, f, pol):
        if isinstance(f, Const):
            return [st] if bool(f.v) == pol else []
        if f.op == "lit":
            s = self.add(st, pol, f.args[0])
            return [s] if s is not None else []
        if f.op == "not":
            return self.assume(st, f.args[0], not pol)
        if (f.op == "and") == pol:
            cur = [st]
            for g in f.args:
                cur = [s2 for s in cur for s2 in self.assume(s, g, pol)]
            return cur
        # (the branches of a disjunction may overlap)
        out = []
        for g in f.args:
            out += self.assume(st, g, pol)
        return out

    def eq(self, a, b, st=None):
        if st is not None:
            a, b = rename(a, st.subst), rename(b, st.subst)
        if a == b:
            return TRUE
        if isinstance(a, BF) or isinstance(b, BF):
            if isinstance(b, BF) and not isinstance(a, BF):
                a, b = b, a
            if isinstance(b, Const) and isinstance(b.v, (bool, int)):
                return a if b.v else f_not(a)
            if isinstance(b, Const):
                return FALSE
            return lit("opq", ("eq", a, b))
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return Const(bool(a.v == b.v))
            except Exception:
                return FALSE
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return f_and(*[self.eq(x, y, st) for x, y in zip(a.items, b.items)])
        hard = (Const, IRI, Tup, Cls, Fn, Bound, GraphV, Mod, Ext)
        if isinstance(a, hard) and isinstance(b, hard):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Sym, Ref, GraphV, Slot)) and isinstance(y, Const):
                if isinstance(x, Sym) and y.v is not None:
                    return lit("eq", x, y)
                return FALSE
            if isinstance(x, Sym) and isinstance(y, (Tup, Cls, Fn, Bound, GraphV, Mod, Ref)):
                return FALSE
            if isinstance(x, Ref) and isinstance(y, (IRI, Tup, Sym, Cls, Fn)):
                return FALSE
        if isinstance(a, Ref) and isinstance(b, Ref) and st is not None:
            x, y = st.heap.get(a.id), st.heap.get(b.id)
            if isinstance(x, HColl) and isinstance(y, HColl) and x.exact and y.exact and x.kind == y.kind and x.kind in ("list", "tuple"):
                if len(x.items) != len(y.items):
                    return FALSE
                return f_and(*[self.eq(p, q, st) for p, q in zip(x.items, y.items)])
            if isinstance(x, HInst) and isinstance(y, HInst):
                return FALSE
            return lit("opq", ("eq", a, b))
        if isinstance(a, LenV) or isinstance(b, LenV):
            if isinstance(b, LenV) and not isinstance(a, LenV):
                a, b = b, a
            if isinstance(b, Const) and b.v == 0:
                return f_not(self.truth(a.ref, st))
            return lit("opq", ("eq", a, b))
        # canonical orientation: App on the left of a constant, older symbol first
        if isinstance(a, (Const, IRI)) or (isinstance(a, Sym) and isinstance(b, App)):
            a, b = b, a
        if type(a) is type(b) and repr(b) < repr(a):
            a, b = b, a
        return lit("eq", a, b)

    # ------------------------------------------------------------------ truth
    def exists(self, e, st, coll):
        """The formula saying that a guarded entry exists."""
        here = guards_syms(st.guards)
        gs = tuple(g for g in rename(e.guards, st.subst) if g not in st.guards)
        if not gs:
            return TRUE
        bound = frozenset(s for s in syms_of(gs) if s.id >= coll.scope and s not in here)
        return lit("ex", gs, bound)

    def truth(self, v, st):
        v = rename(v, st.subst)
        if isinstance(v, Const):
            return Const(bool(v.v))
        if isinstance(v, BF):
            return v
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if v.id in self.special:
                return lit("opq", ("nonempty", self.special[v.id], Const(self.buffer_version(st, v.id))))
            if isinstance(o, HColl):
                if o.exact:
                    return Const(len(o.items) > 0)
                fs = [self.exists(e, st, o) for e in o.items]
                for k in o.opaque:
                    fs.append(lit("opq", ("nonempty", k)))
                return f_or(*fs)
            if isinstance(o, HInst):
                for nm in ("__bool__", "__len__"):
                    m = self.class_attr(o.cls, nm, st)
                    if m is not None:
                        return lit("opq", ("truthy", v))
                return TRUE
            if isinstance(o, HTable):
                return lit("opq", ("truthy", Const(o.name)))
            return TRUE
        if isinstance(v, Tup):
            return Const(len(v.items) > 0)
        if isinstance(v, Slot):
            return lit("opq", ("slotnonempty", v))
        if isinstance(v, IRI):
            return Const(bool(v.v))
        if isinstance(v, LenV):
            return self.truth(v.ref, st)
        if isinstance(v, (Fn, Bound, Cls, Mod, SuperV, Partial, BoundExt)):
            return TRUE
        if isinstance(v, App) and v.fn == "lookup" and len(v.args) == 2:
            pass
        if isinstance(v, Ext):
            return TRUE
        return lit("opq", ("truthy", v))

    def buffer_version(self, st, rid):
        o = st.heap.get(rid)
        return len(o.items) if isinstance(o, HColl) else 0

    def branch(self, st, v):
        """-> (states where v is true, states where v is false)"""
        f = self.truth(v, st)
        return self.assume(st, f, True), self.assume(st, f, False)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, env, live):
        states, results = [st], []
        for i, s in enumerate(stmts):
            if not states:
                break
            live_i = live
            for t in stmts[i + 1:]:
                live_i = live_i | names_loaded(t)
            new = []
            for x in states:
                outs = self.exec_stmt(s, x, env, live_i)
                norm = [o[1] for o in outs if o[0] == "normal"]
                rest = [o for o in outs if o[0] != "normal"]
                if len(norm) > 1:
                    norm = self.merge(x, norm, live_i, env, exhaustive=not rest)
                new += norm
                results += rest
            if len(new) > 1:
                new = self.pairwise(new, live_i, env, st)
            if len(new) > 3000:
                raise TooComplex("%d paths at %s" % (len(new), self.loc(s)))
            states = new
        return [("normal", x, None) for x in states] + results

    def signature(self, pre, s, live, env, roots=()):
        diffs = []
        todo = list(roots)
        for i, o in s.heap.items():
            if i == env:
                continue
            if i in pre.heap:
                p = pre.heap[i]
                if o is not p and o != p:
                    diffs.append((i, o))
                    todo.append(o)
        ev = s.heap.get(env)
        vs = []
        if isinstance(ev, HEnv):
            for n in sorted(ev.vars):
                if n in live or n[0] == "%" or self.env_captured(env):
                    vs.append((n, ev.vars[n]))
                    todo.append(ev.vars[n])
        # the new objects that can be reached from there
        seen = {}
        while todo:
            x = todo.pop()
            if isinstance(x, (Ref, Slot)):
                i = x.id if isinstance(x, Ref) else x.ref.id
                if i not in pre.heap and i not in seen and i in s.heap:
                    seen[i] = s.heap[i]
                    todo.append(s.heap[i])
                if isinstance(x, Slot):
                    todo.append(x.key)
            elif isinstance(x, HColl):
                todo.extend(x.items)
            elif isinstance(x, Entry):
                todo.append(x.value)
            elif isinstance(x, HInst):
                todo.extend(x.attrs.values())
            elif isinstance(x, HEnv):
                todo.extend(x.vars.values())
            elif isinstance(x, (Tup, tuple)):
                todo.extend(x.items if isinstance(x, Tup) else x)
            elif isinstance(x, (App, Partial)):
                todo.extend(x.args)
            elif isinstance(x, LenV):
                todo.append(x.ref)
            elif isinstance(x, (Bound, BoundExt)):
                todo.append(x.self if isinstance(x, Bound) else x.recv)
            elif isinstance(x, Fn):
                todo.append(Ref(x.env))
        diffs += sorted(seen.items(), key=lambda z: z[0])
        return (tuple(vs), diffs, s.trace)

    def env_captured(self, env):
        return env in self._captured

    _captured = set()

    @staticmethod
    def sig_eq(a, b):
        return a[0] == b[0] and a[2] == b[2] and len(a[1]) == len(b[1]) and all(x[0] == y[0] and x[1] == y[1] for x, y in zip(a[1], b[1]))

    def merge(self, pre, outs, live, env, exhaustive, roots=()):
        """Join the paths that leave a statement in one and the same state."""
        if not exhaustive:
            return self.pairwise(outs, live, env, pre, roots)
        sigs = [self.signature(pre, s, live, env, roots) for s in outs]
        if all(self.sig_eq(sigs[0], x) for x in sigs[1:]):
            return [self.intersect(outs, pre)]
        g = self.grow_merge(pre, outs, sigs)
        if g is not None:
            return [g]
        return self.pairwise(outs, live, env, pre, roots)

    def grow_merge(self, pre, outs, sigs):
        """Same state but for the growth of inexact collections: take the union of the entries."""
        if any(s[0] != sigs[0][0] or s[2] != sigs[0][2] for s in sigs):
            return None
        ids = {}
        for s, (_, d, _) in zip(outs, sigs):
            for i, o in d:
                ids.setdefault(i, []).append(o)
        union = {}
        for i, os_ in ids.items():
            p = pre.heap.get(i)
            if not (isinstance(p, HColl) and not p.exact and all(isinstance(o, HColl) and not o.exact and o.items[: len(p.items)] == p.items for o in os_)):
                if all(o == os_[0] for o in os_) and len(os_) == len(outs):
                    union[i] = os_[0]
                    continue
                return None
            items = list(p.items)
            opq = p.opaque
            for o in os_:
                items = list(self.grown(pre, HColl(p.kind, False, tuple(items), p.scope, p.base), o.items[len(p.items):]))
                opq = opq + tuple(k for k in o.opaque if k not in opq)
            union[i] = HColl(p.kind, False, tuple(items), p.scope, p.base, opq, p.dflt, p.tag)
        r = self.intersect(outs, pre)
        h = dict(r.heap)
        h.update(union)
        return State(r.guards, r.subst, h, r.trace)

    def intersect(self, outs, pre=None):
        a = outs[0]
        if len(outs) == 1:
            return a
        gs = tuple(g for g in a.guards if all(g in s.guards for s in outs[1:]))
        sub = {k: v for k, v in a.subst.items() if all(s.subst.get(k) == v for s in outs[1:])}
        if pre is not None:
            base = tuple(rename(g, sub) for g in pre.guards)
            gs = base + tuple(g for g in gs if g not in base)
        heap = dict(a.heap)
        for s in outs[1:]:
            for i, o in s.heap.items():
                heap.setdefault(i, o)
        return State(gs, sub, heap, a.trace)

    def pairwise(self, outs, live, env, pre, roots=()):
        """Join two paths with the same state whose conditions differ by one complementary literal."""
        if len(outs) > 400:
            return outs
        sigs = [self.signature(pre, s, live, env, roots) for s in outs]
        items = list(zip(outs, sigs))
        changed = True
        while changed and len(items) > 1:
            changed = False
            for i in range(len(items)):
                for j in range(i + 1, len(items)):
                    if not self.sig_eq(items[i][1], items[j][1]):
                        continue
                    a, b = items[i][0], items[j][0]
                    ga, gb = set(a.guards), set(b.guards)
                    if ga == gb and a.subst == b.subst:
                        items.pop(j)
                        changed = True
                        break
                    da, db = ga - gb, gb - ga
                    if len(da) == 1 and len(db) == 1 and a.subst == b.subst:
                        (p1, l1), (p2, l2) = next(iter(da)), next(iter(db))
                        comp = (l1 == l2 and p1 != p2)
                        if l1[0] == "neg" and len(l1[1]) == 1 and not l1[3]:
                            comp = comp or l1[1][0] == (p2, l2)
                        if l2[0] == "neg" and len(l2[1]) == 1 and not l2[3]:
                            comp = comp or l2[1][0] == (p1, l1)
                        if comp:
                            items[i] = (self.intersect([a, b]), items[i][1])
                            items.pop(j)
                            changed = True
                            break
                if changed:
                    break
        return [x for x, _ in items]

    def exec_stmt(self, s, st, env, live):
        self.steps += 1
        if self.steps > self.fuel:
            raise TooComplex("analysis budget exhausted at %s" % (self.loc(s),))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.notes.append("statement not modelled: %s at %s" % (type(s).__name__, self.loc(s)))
            return [("normal", st, None)]
        return m(s, st, env, live)

    def outs_of(self, res):
        """Split the results of an expression into the normal ones and the outcomes of the others."""
        norm, rest = [], []
        for s, v in res:
            if isinstance(v, Exit):
                rest.append(("raise" if v.kind == "raise" else "unwind", s, v.val))
            else:
                norm.append((s, v))
        return norm, rest

    def s_Pass(self, s, st, env, live):
        return [("normal", st, None)]

    def s_Global(self, s, st, env, live):
        for n in s.names:
            st = self.setvar(st, env, "%scope:" + n, Const("global"))
        return [("normal", st, None)]

    def s_Nonlocal(self, s, st, env, live):
        for n in s.names:
            st = self.setvar(st, env, "%scope:" + n, Const("nonlocal"))
        return [("normal", st, None)]

    def s_Expr(self, s, st, env, live):
        if isinstance(s.value, ast.Constant):
            return [("normal", st, None)]
        norm, rest = self.outs_of(self.ev(s.value, st, env))
        return [("normal", x, None) for x, _ in norm] + rest

    def s_Return(self, s, st, env, live):
        if s.value is None:
            return [("return", st, NONE)]
        norm, rest = self.outs_of(self.ev(s.value, st, env))
        return [("return", x, v) for x, v in norm] + rest

    def s_Break(self, s, st, env, live):
        return [("break", st, None)]

    def s_Continue(self, s, st, env, live):
        return [("continue", st, None)]

    def s_Raise(self, s, st, env, live):
        if s.exc is None:
            cur = self.lookup("%exc", st, env)
            return [("raise", st, cur if cur is not None else App("exc", (Const("Exception"),)))]
        norm, rest = self.outs_of(self.ev(s.exc, st, env))
        out = []
        for x, v in norm:
            out.append(("raise", x, self.as_exc(v, x)))
        return out + rest

    def as_exc(self, v, st):
        if isinstance(v, App) and v.fn == "exc":
            return v
        if isinstance(v, Ext):
            return App("exc", (Const(v.path.replace("builtins.", "")),))
        if isinstance(v, Cls):
            return App("exc", (Const(v.name),))
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), HInst):
            return App("exc", (Const(st.heap[v.id].cls.name),))
        return App("exc", (Const("Exception"),))

    def s_Assert(self, s, st, env, live):
        norm, rest = self.outs_of(self.ev_test(s.test, st, env))
        out = rest
        for x, v in norm:
            t, f = self.branch(x, v)
            out = out + [("normal", y, None) for y in t] + [("raise", y, App("exc", (Const("AssertionError"),))) for y in f]
        return out

    def s_Import(self, s, st, env, live):
        for a in s.names:
            if a.name in self.modules:
                v = Mod(a.name)
            elif a.asname is None and "." in a.name:
                top = a.name.split(".")[0]
                v = Mod(top) if top in self.modules else Ext(top)
            else:
                v = self.canon_ext(a.name)
            st = self.assign_name(st, env, a.asname or a.name.split(".")[0], v)
        return [("normal", st, None)]

    def s_ImportFrom(self, s, st, env, live):
        mod = self._abs_module(s, self.cur_module())
        for a in s.names:
            if a.name == "*":
                if mod in self.modules and self.modules[mod].env is not None:
                    for k, v in st.heap[self.modules[mod].env].vars.items():
                        if not k.startswith("_"):
                            st = self.assign_name(st, env, k, v)
                else:
                    self.notes.append("star import of %s" % mod)
                continue
            if mod in self.modules and self.modules[mod].env is not None and a.name in st.heap[self.modules[mod].env].vars:
                v = st.heap[self.modules[mod].env].vars[a.name]
            elif mod + "." + a.name in self.modules:
                v = Mod(mod + "." + a.name)
            elif mod in self.modules:
                self.emit("unresolved", (Const(mod), Const(a.name)), st, s)
                v = Ext("unresolved:%s.%s" % (mod, a.name))
            else:
                v = self.canon_ext(mod + "." + a.name)
            st = self.assign_name(st, env, a.asname or a.name, v)
        return [("normal", st, None)]

    def s_FunctionDef(self, s, st, env, live):
        res = self.make_fn(s, st, env)
        out = []
        for x, v in res:
            if isinstance(v, Exit):
                out.append(("raise", x, v.val))
            else:
                out.append(("normal", self.assign_name(x, env, s.name, v), None))
        return out

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, s, st, env):
        kind = "plain"
        wrap = []
        for d in s.decorator_list:
            nm = ast.unparse(d)
            base = nm.split("(")[0].split(".")[-1]
            if base == "staticmethod":
                kind = "static"
            elif base == "classmethod":
                kind = "classm"
            elif base in ("property", "cached_property"):
                kind = "prop"
            elif base == "contextmanager":
                kind = "ctxm"
            elif base in ("lru_cache", "cache", "wraps", "abstractmethod", "overload", "setter"):
                pass
            else:
                wrap.append(d)
        defaults = {}
        a = s.args
        pos = a.posonlyargs + a.args
        exprs = list(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults)) + [
            (p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        states = [(st, {})]
        for n, e in exprs:
            nxt = []
            for x, d in states:
                for y, v in self.ev(e, x, env):
                    if isinstance(v, Exit):
                        return [(y, v)]
                    d2 = dict(d)
                    d2[n] = v
                    nxt.append((y, d2))
            states = nxt
        st, defaults = states[0]
        if self.in_init:
            for n, v in defaults.items():
                if isinstance(v, Ref):
                    self.global_ids[v.id] = "default value of argument %s of %s" % (n, s.name)
        self._captured.add(env)
        fn = Fn(self.qual(s.name), env, s, self.cur_module().name, None, kind, defaults)
        res = [(st, fn)]
        for d in reversed(wrap):
            nxt = []
            for x, f in res:
                for y, dv in self.ev(d, x, env):
                    if isinstance(dv, Exit):
                        nxt.append((y, dv))
                        continue
                    if isinstance(dv, (Fn, Cls, Bound)):
                        nxt += self.call(dv, [f], {}, y, s)
                    else:
                        nxt.append((y, f))
            res = nxt
        return res

    def qual(self, name):
        q = self.stack[-1][0]
        if q.startswith("<module"):
            return self.cur_module().name + ":" + name
        return q + "." + name

    def s_ClassDef(self, s, st, env, live):
        bases = []
        for b in s.bases:
            r = self.ev(b, st, env)
            st, v = r[0]
            bases.append(v)
        cenv = next(_counter)
        st = st.put(cenv, HEnv({}, env, "<class %s>" % s.name))
        cls = Cls(s.name, self.cur_module().name, tuple(bases), cenv, s.lineno)
        self.stack.append((self.cur_module().name + ":" + s.name if self.stack[-1][0].startswith("<module") else self.qual(s.name), self.cur_module()))
        outs = self.exec_block(s.body, st, cenv, names_loaded(s) | frozenset(n.name for n in s.body if hasattr(n, "name")))
        self.stack.pop()
        st = next(o[1] for o in outs if o[0] == "normal")
        h = st.heap[cenv]
        vs = {}
        for k, v in h.vars.items():
            if isinstance(v, Fn) and v.cls is None and v.node in s.body:
                v = Fn(v.qual, env, v.node, v.module, cls, v.kind, v.defaults)
            if isinstance(v, Ref) and self.in_init:
                self.global_ids[v.id] = "class attribute %s.%s" % (s.name, k)
            vs[k] = v
        # methods do not see the class scope: the parent of their environments is the enclosing scope
        st = st.put(cenv, HEnv(vs, None, h.fnname))
        self._captured.add(env)
        return [("normal", self.assign_name(st, env, s.name, cls), None)]

    def s_Assign(self, s, st, env, live):
        norm, rest = self.outs_of(self.ev(s.value, st, env))
        out = list(rest)
        for x, v in norm:
            states = [x]
            for t in s.targets:
                nxt = []
                for y in states:
                    n2, r2 = self.outs_of2(self.assign(t, v, y, env, s))
                    nxt += n2
                    out += r2
                states = nxt
            out += [("normal", y, None) for y in states]
        return out

    def outs_of2(self, res):
        norm, rest = [], []
        for r in res:
            if isinstance(r, tuple):
                norm_, rest_ = self.outs_of([r])
                rest += rest_
                norm += [a for a, _ in norm_]
            else:
                norm.append(r)
        return norm, rest

    def s_AnnAssign(self, s, st, env, live):
        if s.value is None:
            return [("normal", st, None)]
        return self.s_Assign(ast.copy_location(ast.Assign(targets=[s.target], value=s.value), s), st, env, live)

    def s_AugAssign(self, s, st, env, live):
        t = s.target
        load = ast.copy_location(
            ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else
            ast.Attribute(t.value, t.attr, ast.Load()) if isinstance(t, ast.Attribute) else
            ast.Subscript(t.value, t.slice, ast.Load()), t)
        out = []
        norm, rest = self.outs_of(self.ev_list([load, s.value], st, env))
        out += rest
        for x, vs in norm:
            a, b = vs.items
            if isinstance(a, (Ref, Slot)) and isinstance(s.op, (ast.Add, ast.BitOr, ast.Sub)):
                name = {ast.Add: "extend", ast.BitOr: "update", ast.Sub: "difference_update"}[type(s.op)]
                if isinstance(a, Ref) and isinstance(x.heap.get(a.id), HColl) and x.heap[a.id].kind == "tuple":
                    pass
                else:
                    n2, r2 = self.outs_of(self.coll_method(a, name, [b], {}, x, s))
                    out += r2
                    out += [("normal", y, None) for y, _ in n2]
                    continue
            if isinstance(a, GraphV) and isinstance(s.op, (ast.Add, ast.Sub)):
                y = self.graph_all(a, b, "gadd" if isinstance(s.op, ast.Add) else "gremove", False, x, s)
                n2, r2 = self.outs_of2(self.assign(t, a, y, env, s))
                out += r2 + [("normal", z, None) for z in n2]
                continue
            for y, v in self.binop(s.op, a, b, x, s):
                if isinstance(v, Exit):
                    out.append(("raise", y, v.val))
                    continue
                n2, r2 = self.outs_of2(self.assign(t, v, y, env, s))
                out += r2 + [("normal", z, None) for z in n2]
        return out

    def s_Delete(self, s, st, env, live):
        out = []
        states = [st]
        for t in s.targets:
            nxt = []
            for x in states:
                if isinstance(t, ast.Subscript):
                    norm, rest = self.outs_of(self.ev_list([t.value, t.slice], x, env) if not isinstance(t.slice, ast.Slice) else
                                              [(y, Tup((v, NONE))) for y, v in self.ev(t.value, x, env)])
                    out += rest
                    for y, vs in norm:
                        o = vs.items[0]
                        if isinstance(o, Ref) and isinstance(y.heap.get(o.id), HTable):
                            whole = isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None and t.slice.step is None
                            y = self.table_put(y, o.id, ("empty",) if whole else ("mod", y.heap[o.id].content, ("del", vs.items[1])), s)
                        elif isinstance(o, Ref) and isinstance(y.heap.get(o.id), HColl):
                            self.mutated(y, o.id, s, "del")
                            y = self.forget(y, o.id, "del")
                        nxt.append(y)
                elif isinstance(t, ast.Name):
                    h = x.heap[env]
                    v = {k: w for k, w in h.vars.items() if k != t.id}
                    nxt.append(x.put(env, HEnv(v, h.parent, h.fnname)))
                else:
                    nxt.append(x)
            states = nxt
        return out + [("normal", x, None) for x in states]

    def forget(self, st, rid, why):
        o = st.heap[rid]
        key = ("forgot", rid, why)
        if o.exact:
            items = tuple(Entry(v if o.kind != "dict" else Tup(v), ((True, ("opq", key)),)) for v in o.items)
        else:
            items = tuple(Entry(e.value, e.guards + ((True, ("opq", key)),), e.multi) for e in o.items)
        return st.put(rid, HColl(o.kind, False, items, o.scope, o.base, o.opaque, o.dflt, o.tag))

    def assign(self, t, v, st, env, node):
        """-> list of states (or (state, Exit))"""
        if isinstance(t, ast.Name):
            return [self.assign_name(st, env, t.id, v)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, env, node)
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st, env, node)
        if isinstance(t, ast.Attribute):
            out = []
            for x, o in self.ev(t.value, st, env):
                if isinstance(o, Exit):
                    out.append((x, o))
                    continue
                out.append(self.set_attr(x, o, t.attr, v, node))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                res = [(x, Tup((o, NONE))) if not isinstance(o, Exit) else (x, o) for x, o in self.ev(t.value, st, env)]
            else:
                res = self.ev_list([t.value, t.slice], st, env)
            for x, vs in res:
                if isinstance(vs, Exit):
                    out.append((x, vs))
                    continue
                o, k = vs.items
                out.append(self.set_item(x, o, k if not isinstance(t.slice, ast.Slice) else t.slice, v, node))
            return out
        return [st]

    def set_attr(self, st, o, attr, v, node):
        if isinstance(o, Ref) and isinstance(st.heap.get(o.id), HInst):
            h = st.heap[o.id]
            role = self.buffer_attrs.get(attr) if h.tag == "closure" else None
            if role:
                rid = next(i for i, r in self.special.items() if r == role)
                new = st.heap.get(v.id) if isinstance(v, Ref) else None
                empty = isinstance(new, HColl) and new.exact and not new.items
                self.emit("bufreset", (Const(role), Const(empty)), st, node)
                if self.tracing:
                    st = st.ev(("reset", role, empty, self.loc(node)))
                    st = self.bump(st, rid)
                return st
            if o.id in self.global_ids and not self.in_init:
                self.global_effect(st, self.global_ids[o.id], "sets attribute %s" % attr, node)
            a = dict(h.attrs)
            a[attr] = v
            return st.put(o.id, HInst(h.cls, a, h.tag))
        if isinstance(o, Cls):
            if not self.in_init:
                self.global_effect(st, "%s.%s" % (o.name, attr), "sets the class attribute", node)
            st = self.emit("setclsattr", (Const(o.name), Const(attr), v), st, node)
            return self.setvar(st, o.env, attr, v)
        if isinstance(o, Mod):
            if not self.in_init:
                self.global_effect(st, "%s.%s" % (o.name, attr), "sets the module attribute", node)
            return self.setvar(st, self.modules[o.name].env, attr, v)
        return self.emit("setattr", (o, Const(attr), v), st, node)

    def bump(self, st, rid):
        o = st.heap[rid]
        return st.put(rid, HColl(o.kind, False, o.items + (Entry(NONE, ()),), o.scope, o.base, o.opaque, o.dflt, o.tag))

    def set_item(self, st, o, k, v, node):
        if isinstance(o, Ref):
            h = st.heap.get(o.id)
            if isinstance(h, HTable):
                if isinstance(k, ast.Slice) and k.lower is None and k.upper is None and k.step is None:
                    return self.table_put(st, o.id, self.content_of(v, st), node)
                return self.table_put(st, o.id, ("mod", h.content, ("set", k, v)), node)
            if isinstance(h, HColl):
                self.mutated(st, o.id, node, "item assignment")
                if isinstance(k, ast.Slice):
                    if k.lower is None and k.upper is None and k.step is None:
                        src = self.as_coll(v, st)
                        if src is not None:
                            return st.put(o.id, HColl(h.kind, src.exact, src.items, src.scope, src.base, src.opaque, h.dflt, h.tag))
                    return self.forget(st, o.id, "slice")
                k = rename(k, st.subst)
                if h.kind == "dict":
                    if h.exact and self.const_key(k):
                        items = tuple((a, b) for a, b in h.items if a != k)
                        if any(a == k for a, b in h.items):
                            items = tuple((a, v if a == k else b) for a, b in h.items)
                        else:
                            items = h.items + ((k, v),)
                        return st.put(o.id, HColl("dict", True, items, h.scope, h.base, h.opaque, h.dflt, h.tag))
                    h = self.inexact(h)
                    return st.put(o.id, HColl("dict", False, self.grown(st, h, [Entry(Tup((k, v)), self.delta(st, h))]), h.scope, h.base, h.opaque, h.dflt, h.tag))
                if h.exact and isinstance(k, Const) and isinstance(k.v, int) and -len(h.items) <= k.v < len(h.items):
                    items = list(h.items)
                    items[k.v] = v
                    return st.put(o.id, HColl(h.kind, True, tuple(items), h.scope, h.base, h.opaque, h.dflt, h.tag))
                return self.forget(st, o.id, "setitem")
        return self.emit("setitem", (o, k if isinstance(k, Val) else NONE, v), st, node)

    def const_key(self, k):
        if isinstance(k, Tup):
            return all(self.const_key(x) for x in k.items)
        return isinstance(k, (Const, IRI, Cls, Fn))

    def delta(self, st, coll):
        return tuple(g for g in st.guards if g not in coll.base)

    def freeze(self, v, st):
        """Fixed lists of values kept in a collection of unknown size are represented by value."""
        if st.subst and isinstance(v, (Tup, Sym, App)):
            v = rename(v, st.subst)
        if isinstance(v, Tup):
            return Tup(tuple(self.freeze(x, st) for x in v.items))
        if isinstance(v, Ref) and v.id not in self.special and v.id not in self.global_ids:
            o = st.heap.get(v.id)
            if isinstance(o, HColl) and o.exact and o.kind in ("list", "tuple"):
                its = tuple(self.freeze(x, st) for x in o.items)
                if not any(isinstance(x, (Ref, Slot)) for x in its):
                    return App("listv", tuple(rename(x, st.subst) for x in its))
        return v

    def thaw(self, v, st):
        if isinstance(v, Tup) and any(isinstance(x, (App, Tup)) for x in v.items):
            items = []
            for x in v.items:
                st, y = self.thaw(x, st)
                items.append(y)
            return st, Tup(tuple(items))
        if isinstance(v, App) and v.fn == "listv":
            items = []
            for x in v.args:
                st, y = self.thaw(x, st)
                items.append(y)
            return self.new_coll(st, "list", items)
        return st, v

    def grown(self, st, h, entries, here=None):
        """The entries of h and the given ones, without those that add nothing."""
        here = guards_syms(st.guards) if here is None else here
        items = list(h.items)
        bindable = lambda s: s.id >= h.scope and s not in here
        for e in entries:
            g = fold(e.value, e.guards, bindable) if len(e.guards) > 1 else e.guards
            if g != e.guards:
                e = Entry(e.value, g, e.multi)
            if e not in items and not any(subsumes(x, e, bindable) for x in items):
                items.append(e)
        return tuple(items)

    def inexact(self, h, st=None):
        if not h.exact:
            return h
        fz = (lambda v: self.freeze(v, st)) if st is not None else (lambda v: v)
        if h.kind == "dict":
            items = tuple(Entry(Tup((k, fz(v))), ()) for k, v in h.items)
        else:
            items = tuple(Entry(fz(v), ()) for v in h.items)
        return HColl(h.kind, False, items, h.scope, h.base, h.opaque, h.dflt, h.tag)

    def unpack(self, elts, v, st, env, node):
        v = rename(v, st.subst)
        items = None
        if isinstance(v, Tup):
            items = list(v.items)
        elif isinstance(v, Ref) and isinstance(st.heap.get(v.id), HColl):
            o = st.heap[v.id]
            if o.exact and o.kind != "dict":
                items = list(o.items)
            elif o.exact:
                items = [k for k, _ in o.items]
            else:
                # an arbitrary element of a collection for every target
                items = []
                key = ("pick", node.lineno)
                for i in range(len(elts)):
                    got = self.pick(v, st, key, node)
                    if not got:
                        items.append(App("unpack", (v, Const(i))))
                        continue
                    st, val = got[0]
                    items.append(val)
        early = []
        if items is None:
            items = [App("item", (v, Const(i))) for i in range(len(elts))]
            if isinstance(v, App) and v.fn in ("m:split", "m:rsplit") and not any(isinstance(e, ast.Starred) for e in elts):
                # as many parts as targets, or a ValueError
                l = ("eq", App("len", (v,)), Const(len(elts)))
                no, st = self.add(st, False, l), self.add(st, True, l)
                if no is not None:
                    early.append((no, Exit("raise", App("exc", (Const("ValueError"),)))))
                if st is None:
                    return early
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                return [(st, Exit("raise", App("exc", (Const("ValueError"),))))]
            mid = items[i: len(items) - after]
            st, ref = self.new_coll(st, "list", mid)
            items = items[:i] + [ref] + (items[len(items) - after:] if after else [])
        if len(items) != len(elts):
            return [(st, Exit("raise", App("exc", (Const("ValueError"),))))]
        states = [st]
        for e, x in zip(elts, items):
            nxt = []
            for y in states:
                nxt += self.assign(e, x, y, env, node)
            states = [y for y in nxt if not isinstance(y, tuple)]
        return states + early

    def new_coll(self, st, kind, items, exact=True, opaque=(), dflt=False, scope=None, base=None):
        i = next(_counter)
        st = st.put(i, HColl(kind, exact, tuple(items), i if scope is None else scope, st.guards if base is None else base, tuple(opaque), dflt))
        if self.in_init:
            self.global_ids.setdefault(i, "module-level object")
        return st, Ref(i)

    # ---- compound statements
    def s_If(self, s, st, env, live):
        norm, rest = self.outs_of(self.ev_test(s.test, st, env))
        out = list(rest)
        for x, v in norm:
            t, f = self.branch(x, v)
            for y in t:
                out += self.exec_block(s.body, y, env, live)
            for y in f:
                out += self.exec_block(s.orelse, y, env, live) if s.orelse else [("normal", y, None)]
        return out

    def s_Match(self, s, st, env, live):
        norm, rest = self.outs_of(self.ev(s.subject, st, env))
        out = list(rest)
        for x, v in norm:
            cur = [x]
            for c in s.cases:
                nxt = []
                for y in cur:
                    yes, no = self.match_pat(c.pattern, v, y, env)
                    no2 = list(no)
                    for z in yes:
                        if c.guard is not None:
                            n2, r2 = self.outs_of(self.ev(c.guard, z, env))
                            out += r2
                            for w, g in n2:
                                t, f = self.branch(w, g)
                                for q in t:
                                    out += self.exec_block(c.body, q, env, live)
                                no2 += f
                        else:
                            out += self.exec_block(c.body, z, env, live)
                    nxt += no2
                cur = nxt
            out += [("normal", y, None) for y in cur]
        return out

    def match_pat(self, p, v, st, env):
        if isinstance(p, (ast.MatchValue, ast.MatchSingleton)):
            if isinstance(p, ast.MatchSingleton):
                pv, st2 = Const(p.value), st
            else:
                st2, pv = self.ev(p.value, st, env)[0]
            f = self.eq(v, pv, st2)
            return self.assume(st2, f, True), self.assume(st2, f, False)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                yes, no = self.match_pat(p.pattern, v, st, env)
            else:
                yes, no = [st], []
            if p.name:
                yes = [self.assign_name(y, env, p.name, v) for y in yes]
            return yes, no
        if isinstance(p, ast.MatchOr):
            yes, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for y in cur:
                    a, b = self.match_pat(q, v, y, env)
                    yes += a
                    nxt += b
                cur = nxt
            return yes, cur
        if isinstance(p, ast.MatchSequence) and isinstance(v, Tup) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            if len(p.patterns) != len(v.items):
                return [], [st]
            cur, no = [st], []
            for q, w in zip(p.patterns, v.items):
                nxt = []
                for y in cur:
                    a, b = self.match_pat(q, w, y, env)
                    nxt += a
                    no += b
                cur = nxt
            return cur, no
        self.notes.append("pattern not modelled")
        f = lit("opq", ("match", ast.unparse(p), v))
        return self.assume(st, f, True), self.assume(st, f, False)

    def s_With(self, s, st, env, live):
        return self.with_items(s.items, s.body, st, env, live, s)

    def with_items(self, items, body, st, env, live, node):
        if not items:
            return self.exec_block(body, st, env, live)
        it = items[0]
        norm, rest = self.outs_of(self.ev(it.context_expr, st, env))
        out = list(rest)
        for x, v in norm:
            if isinstance(v, Partial) and isinstance(v.fn, (Fn, Bound)) and v.kw == (("%ctxm", TRUE),):
                def cb(y, val, _it=it):
                    ys = [y]
                    if _it.optional_vars is not None:
                        ys, r = self.outs_of2(self.assign(_it.optional_vars, val, y, env, node))
                    o = []
                    for z in ys:
                        o += self.with_items(items[1:], body, z, env, live, node)
                    return o
                out += self.run_ctxm(v, cb, x, node)
                continue
            if isinstance(v, Ref) and isinstance(x.heap.get(v.id), HInst):
                h = x.heap[v.id]
                en, ex = self.class_attr(h.cls, "__enter__", x), self.class_attr(h.cls, "__exit__", x)
                if en is not None and ex is not None:
                    n2, r2 = self.outs_of(self.call(self.bind(en, v, h.cls), [], {}, x, node))
                    out += r2
                    for y, val in n2:
                        ys = [y]
                        if it.optional_vars is not None:
                            ys, r = self.outs_of2(self.assign(it.optional_vars, val, y, env, node))
                        for z in ys:
                            for k, w, r in self.with_items(items[1:], body, z, env, live, node):
                                args = [NONE, NONE, NONE] if k != "raise" else [App("exctype", ()), r if r else NONE, NONE]
                                n3, r3 = self.outs_of(self.call(self.bind(ex, v, h.cls), args, {}, w, node))
                                out += r3
                                for q, rv in n3:
                                    if k == "raise":
                                        t, f = self.branch(q, rv)
                                        out += [("normal", a, None) for a in t] + [(k, a, r) for a in f]
                                    else:
                                        out.append((k, q, r))
                    continue
            ys = [x]
            supp = isinstance(v, App) and v.fn.endswith("contextlib.suppress")
            if it.optional_vars is not None:
                ys, r = self.outs_of2(self.assign(it.optional_vars, App("enter", (v,)) if not isinstance(v, (Ref, GraphV)) else v, x, env, node))
            for y in ys:
                if supp:
                    self.try_stack.append([])
                    res = self.with_items(items[1:], body, y, env, live, node)
                    res += self.try_stack.pop()
                    for k, w, r in res:
                        if k == "raise" and any(self.exc_matches(r, a, w) for a in v.args):
                            out.append(("normal", w, None))
                        else:
                            out.append((k, w, r))
                else:
                    out += self.with_items(items[1:], body, y, env, live, node)
        return out

    def run_ctxm(self, v, cb, st, node):
        """Run a @contextmanager function: its yield runs the body of the with statement."""
        self.yield_cb.append(("ctx", cb))
        try:
            res = self.call_fn(v.fn.fn if isinstance(v.fn, Bound) else v.fn, ([v.fn.self] if isinstance(v.fn, Bound) else []) + list(v.args), {}, st, node, inline_gen=True)
        finally:
            self.yield_cb.pop()
        out = []
        for x, r in res:
            if isinstance(r, Exit):
                if r.kind == "unwind":
                    out.append(r.val if len(r.val) == 3 else r.val)
                    out[-1] = (r.val[0], x, r.val[2])
                else:
                    out.append(("raise", x, r.val))
            else:
                out.append(("normal", x, None))
        return out

    def exc_matches(self, exc, handler, st):
        """May an exception be caught by a handler of that type? (three-valued: True / False / None)"""
        name = exc.args[0].v if isinstance(exc, App) and exc.fn == "exc" else "Exception"
        if isinstance(handler, Tup):
            rs = [self.exc_matches(exc, h, st) for h in handler.items]
            return True if True in rs else None if None in rs else False
        if isinstance(handler, Ref) and isinstance(st.heap.get(handler.id), HColl):
            rs = [self.exc_matches(exc, h, st) for h in st.heap[handler.id].items]
            return True if True in rs else None if None in rs else False
        h = handler.path.replace("builtins.", "") if isinstance(handler, Ext) else handler.name if isinstance(handler, Cls) else None
        if h is None:
            return None
        return self.is_subexc(name, h)

    EXC_PARENT = {"InvalidOperation": "ArithmeticError", "decimal.InvalidOperation": "ArithmeticError", "binascii.Error": "ValueError",
                  "Error": "ValueError", "re.error": "Exception", "json.JSONDecodeError": "ValueError", "decimal.DecimalException": "ArithmeticError"}

    def is_subexc(self, name, h):
        seen = 0
        while name and seen < 20:
            seen += 1
            if name == h or name.split(".")[-1] == h.split(".")[-1]:
                return True
            b = getattr(builtins, name, None)
            hb = getattr(builtins, h, None)
            if isinstance(b, type) and issubclass(b, BaseException):
                if isinstance(hb, type):
                    return issubclass(b, hb)
                # a library exception below a builtin one
                if name == "Exception":
                    return None
                return False
            if name in self.EXC_PARENT:
                name = self.EXC_PARENT[name]
                continue
            for m in self.modules.values():
                if m.env is None:
                    continue
                c = self.init_state.heap[m.env].vars.get(name)
                if isinstance(c, Cls) and c.bases:
                    b = c.bases[0]
                    name = b.name if isinstance(b, Cls) else b.path.replace("builtins.", "") if isinstance(b, Ext) else "Exception"
                    break
            else:
                return True if h in ("Exception", "BaseException") else None
        return None

    def s_Try(self, s, st, env, live):
        livef = live
        for h in s.handlers:
            livef = livef | names_loaded(h)
        for x in s.orelse + s.finalbody:
            livef = livef | names_loaded(x)
        self.try_stack.append([])
        res = self.exec_block(s.body, st, env, livef)
        res = res + self.try_stack.pop()
        # keep handler entries small: one representative per (exception, condition) suffices
        out = []
        for k, x, v in res:
            if k == "normal" and s.orelse:
                out += self.exec_block(s.orelse, x, env, livef)
            elif k == "raise":
                out += self.handle(s, x, v, env, livef)
            else:
                out.append((k, x, v))
        if s.finalbody:
            fin = []
            for k, x, v in out:
                for k2, y, v2 in self.exec_block(s.finalbody, x, env, live):
                    fin.append((k, y, v) if k2 == "normal" else (k2, y, v2))
            out = fin
        return out

    s_TryStar = s_Try

    def handle(self, s, st, exc, env, live):
        out = []
        cur = st
        for h in s.handlers:
            if h.type is None:
                r = True
            else:
                res = self.ev(h.type, cur, env)
                cur, tv = res[0]
                r = self.exc_matches(exc, tv, cur) if not isinstance(tv, Exit) else None
            if r is False:
                continue
            x = cur
            if h.name:
                x = self.assign_name(x, env, h.name, exc)
            x = self.setvar(x, env, "%exc", exc)
            for k, y, v in self.exec_block(h.body, x, env, live):
                hv = y.heap.get(env)
                if isinstance(hv, HEnv) and "%exc" in hv.vars:
                    vs = {a: b for a, b in hv.vars.items() if a != "%exc" and a != h.name}
                    y = y.put(env, HEnv(vs, hv.parent, hv.fnname))
                out.append((k, y, v))
            if r is True:
                return out
        out.append(("raise", cur, exc))
        return out

    # ---- loops
    def s_While(self, s, st, env, live):
        live2 = live | names_loaded(s)
        out, cur = [], [st]
        n = 0
        bound = 80
        sym = 0
        while cur:
            n += 1
            nxt = []
            symbolic = False
            for x in cur:
                norm, rest = self.outs_of(self.ev_test(s.test, x, env))
                out += rest
                for y, v in norm:
                    t, f = self.branch(y, v)
                    if t and f:
                        symbolic = True
                    for z in f:
                        out += self.exec_block(s.orelse, z, env, live) if s.orelse else [("normal", z, None)]
                    for z in t:
                        for k, w, r in self.exec_block(s.body, z, env, live2):
                            if k in ("normal", "continue"):
                                nxt.append(w)
                            elif k == "break":
                                out.append(("normal", w, None))
                            else:
                                out.append((k, w, r))
            if symbolic or not isinstance(s.test, ast.Constant):
                pass
            if symbolic or isinstance(s.test, ast.Constant):
                sym += 1
            cur = self.pairwise(nxt, live2, env, st) if len(nxt) > 1 else nxt
            if (sym >= self.while_bound) or n > bound or len(cur) > 200:
                if cur:
                    self.notes.append("loop cut after %d rounds at %s" % (n, self.loc(s)))
                    for x in cur:
                        self.emit("loopcut", (), x, s)
                break
        return out

    while_bound = 3
    recursion_cap = 12
    frozen = frozenset()

    def s_For(self, s, st, env, live):
        norm, rest = self.outs_of(self.ev(s.iter, st, env))
        out = list(rest)
        for x, v in norm:
            out += self.for_over(v, s, x, env, live)
        return out

    s_AsyncFor = s_For

    def for_over(self, v, s, st, env, live):
        # (the iterable is evaluated once, before the loop)
        kill, treads = _targets(s.target)
        inner = frozenset((_block(s.body)[0] - kill) | treads | _block(s.orelse)[0])
        live2 = live | inner

        def body(y, val):
            ys, rest = self.outs_of2(self.assign(s.target, val, y, env, s))
            o = list(rest)
            for z in ys:
                o += self.exec_block(s.body, z, env, live2)
            return o

        orelse = (lambda y: self.exec_block(s.orelse, y, env, live)) if s.orelse else None
        return self.loop(v, body, st, env, live, s, orelse, inner)

    def loop(self, v, body, st, env, live, node, orelse=None, reads=frozenset()):
        """Iterate over a value; -> outcomes (break and continue are resolved)."""
        out = []
        for x, c in self.iter_of(v, st, node):
            if isinstance(c, Exit):
                out.append(("raise", x, c.val))
                continue
            if c.exact:
                items = c.items if c.kind != "dict" else tuple(k for k, _ in c.items)
                cur = [x]
                broke = []
                for it in items:
                    nxt = []
                    for y in cur:
                        outs = body(y, it)
                        norm = [o[1] for o in outs if o[0] in ("normal", "continue")]
                        rest = [o for o in outs if o[0] not in ("normal", "continue")]
                        if len(norm) > 1:
                            norm = self.merge(y, norm, live | reads, env, exhaustive=not rest)
                        nxt += norm
                        for o in rest:
                            if o[0] == "break":
                                broke.append(o[1])
                            else:
                                out.append(o)
                    cur = self.pairwise(nxt, live | reads, env, x) if len(nxt) > 1 else nxt
                    if len(cur) > 3000:
                        raise TooComplex("paths")
                if orelse:
                    for y in cur:
                        out += orelse(y)
                else:
                    out += [("normal", y, None) for y in cur]
                out += [("normal", y, None) for y in broke]
            else:
                out += self.generic_loop(c, body, x, env, live, node, orelse, reads)
        return out

    def bind_entry(self, e, coll, st):
        """The generic element of a guarded entry: -> (state, value, element symbols) or None."""
        here = guards_syms(st.guards)
        e2 = rename(e, st.subst)
        ren = {s: fresh(s.hint) for s in syms_of(e2) if s.id >= coll.scope and s not in here}
        e2 = rename1(e2, ren)
        cur = st
        for p, l in e2.guards:
            cur = self.add(cur, p, l)
            if cur is None:
                return None
        cur, val = self.thaw(rename(e2.value, cur.subst), cur)
        return cur, val, tuple(ren.values())

    def generic_loop(self, c, body, st, env, live, node, orelse, reads):
        entries = list(c.items)
        for k in c.opaque:
            x = fresh("e")
            entries.append(Entry(x, ((True, ("elem", k, x)),)))
        lid = next(_counter)
        lp = "loop%d@%s:%d" % (lid, self.stack[-1][1].name, node.lineno)
        heads = [st]
        allouts = []
        mark = len(self.sink)
        tmark = len(self.try_stack[-1]) if self.try_stack else 0
        results = []
        for rnd in range(2):
            outs = []
            for h in heads:
                for e in entries:
                    b = self.bind_entry(e, c, h)
                    if b is None:
                        continue
                    y, val, elems = b
                    self.loops.append((lp, rename(val, y.subst)))
                    o = body(y, val)
                    self.loops.pop()
                    outs += [(k, z, r, h, e) for k, z, r in o]
            allouts += outs
            post, changed = self.join_loop(st, outs, env, live | reads, node, lid)
            if rnd == 0:
                first = post[0].heap if len(post) == 1 else {}
            if rnd == 0 and changed:
                heads = [p for p in post if p is not st]
                for h in heads:
                    h.guards  # noqa
                continue
            break
        results = [(k, z, r, h, e) for k, z, r, h, e in allouts if k not in ("normal", "continue", "break")]
        breakers = [(z, h) for k, z, r, h, e in allouts if k in ("break",)]
        leavers = [(z, h) for k, z, r, h, e in results if k in ("return", "raise", "unwind")]
        # an exception caught outside the loop leaves it as well
        leavers += [(z, st) for k, z, r in (self.try_stack[-1][tmark:] if self.try_stack else ())]
        # effects of the generic iteration may be pre-empted by an earlier iteration that leaves the loop
        if breakers or leavers:
            negs = []
            for z, h in breakers + leavers:
                gs = self.extra_guards(z, st)
                if any(g[1][0] == "opq" and g[1][1][0] == "raises" for g in gs) and (z, h) in leavers:
                    pass
                bound = frozenset(s for s in syms_of(gs) if s not in guards_syms(st.guards) and s.id > lid - 0)
                negs.append((True, ("neg", gs, ("preempt", lp), bound)))
            for ef in self.sink[mark:]:
                if any(l[0] == lp for l in ef.loops):
                    ef.guards = ef.guards + tuple(n for n in negs if n not in ef.guards)
        post, changed = self.join_loop(st, allouts, env, live, node, lid, first)
        out = []
        # leaving paths
        for z, h in leavers:
            pass
        neg_leave = []
        for k, z, r, h, e in results:
            gs = self.extra_guards(z, st)
            bound = frozenset(s for s in syms_of(gs) if s not in guards_syms(st.guards) and s.id > lid)
            neg_leave.append((True, ("neg", gs, "cond", bound)))
            z2 = z
            if r is not None and (syms_of(r) & bound):
                z2 = self.add(z, True, ("opq", ("pick", lp)))
            if z2 is not None:
                out.append((k, z2, r))
        for p in post:
            cur = p
            if not getattr(p, "guards", None) is None:
                for n in neg_leave:
                    cur = self.add(cur, *n)
                    if cur is None:
                        break
            if cur is None:
                continue
            if orelse:
                # the else clause runs if the loop was not left by a break
                c2 = cur
                for z, h in breakers:
                    gs = self.extra_guards(z, st)
                    bound = frozenset(s for s in syms_of(gs) if s not in guards_syms(st.guards) and s.id > lid)
                    c2 = self.add(c2, True, ("neg", gs, "cond", bound)) if c2 is not None else None
                    c3 = self.add(cur, False, ("neg", gs, "cond", bound))
                    if c3 is not None:
                        out.append(("normal", c3, None))
                if c2 is not None:
                    out += orelse(c2)
            else:
                out.append(("normal", cur, None))
        return out

    def join_loop(self, pre, outs, env, live, node, lid, first=None):
        """States after any number of iterations."""
        groups = []  # (signature, state, kind)
        grow = {}
        changed = False
        ends = [(k, z, h) for k, z, r, h, e in outs if k in ("normal", "continue", "break")]
        preg = set(pre.guards)
        here = guards_syms(pre.guards)
        mods = []
        vgrow, vbad = {}, set()
        for k, z, h in ends:
            ev, pv = z.heap.get(env), pre.heap.get(env)
            for n, val in ev.vars.items() if isinstance(ev, HEnv) else ():
                old = pv.vars.get(n)
                if val != old and n in live:
                    p, o = self._coll(old, pre), self._coll(val, z)
                    if p is None or o is None or not self.is_growth(p, o, here, pre):
                        vbad.add(n)
        for k, z, h in ends:
            varmods, heapmods = {}, {}
            ev, pv = z.heap.get(env), pre.heap.get(env)
            if isinstance(ev, HEnv):
                for n, val in ev.vars.items():
                    old = pv.vars.get(n)
                    if n[0] == "%":
                        continue
                    if val != old and n in live and (old is not None or self._live_after(n, live)):
                        p, o = self._coll(old, pre), self._coll(val, z)
                        if p is not None and o is not None and n not in vbad and self.is_growth(p, o, here, pre):
                            # x = x + [...] is the same thing as x.extend([...])
                            full = tuple(g for g in z.guards if g not in set(p.base))
                            ents, opq = self.growth(p, o, z, preg)
                            if not o.exact:
                                ents = [Entry(e.value, e.guards + tuple(g for g in full if g not in e.guards), e.multi) for e in ents]
                            cur = vgrow.setdefault(n, [])
                            cur += [e for e in ents if e not in cur]
                            cur += [("opq", kk) for kk in opq if ("opq", kk) not in cur]
                            continue
                        varmods[n] = val
            for i, o in z.heap.items():
                if i == env or i not in pre.heap:
                    continue
                p = pre.heap[i]
                if o is p or o == p:
                    continue
                if isinstance(o, HColl) and isinstance(p, HColl) and self.is_growth(p, o, here, pre):
                    extra = self.growth(p, o, z, preg)
                    cur = grow.setdefault(i, [])
                    for en in extra[0]:
                        if en not in cur:
                            cur.append(en)
                    for kk in extra[1]:
                        if ("opq", kk) not in cur:
                            cur.append(("opq", kk))
                else:
                    heapmods[i] = o
            if varmods or heapmods:
                mods.append((varmods, heapmods, z, k))
        base = pre
        if grow:
            changed = True
            h = dict(pre.heap)
            for i, ents in grow.items():
                p = self.inexact(pre.heap[i], pre)
                opq = list(p.opaque)
                for en in ents:
                    if isinstance(en, tuple):
                        if en[1] not in opq:
                            opq.append(en[1])
                items = self.grown(pre, p, [en for en in ents if not isinstance(en, tuple)], here)
                f = (first or {}).get(i)
                if isinstance(f, HColl) and len(items) > self.recursion_cap and not f.exact and set(f.items) <= set(items):
                    # a recursively filled collection is unfolded once
                    self.notes.append("recursion of the loop at %s unfolded once" % (self.loc(node)[:2],))
                    items = f.items
                h[i] = HColl(p.kind, False, tuple(items), p.scope, p.base, tuple(opq), p.dflt, p.tag)
            # objects created in the loop that the entries refer to
            for k, z, hh in ends:
                for i, o in z.heap.items():
                    h.setdefault(i, o)
            base = State(pre.guards, pre.subst, h, pre.trace)
        if vgrow:
            h = dict(base.heap)
            vs = dict(h[env].vars)
            for n, ents in vgrow.items():
                p = self.inexact(self._coll(vs[n], base), base)
                items = self.grown(pre, p, [en for en in ents if not isinstance(en, tuple)], here)
                opq = tuple(dict.fromkeys(p.opaque + tuple(en[1] for en in ents if isinstance(en, tuple))))
                if items == p.items and opq == p.opaque and not self._coll(vs[n], base).exact:
                    continue
                changed = True
                i = next(_counter)
                h[i] = HColl(p.kind, False, items, p.scope, p.base, opq, p.dflt, p.tag)
                vs[n] = Ref(i)
            h[env] = HEnv(vs, h[env].parent, h[env].fnname)
            for k, z, hh in ends:
                for i, o in z.heap.items():
                    h.setdefault(i, o)
            base = State(base.guards, base.subst, h, base.trace)
        if self.tracing:
            tr = []
            for k, z, h in ends:
                t = z.trace[len(pre.trace):]
                if t and t[0][0] == "loop" and t[0][2] == self.loc(node):
                    t = t[1:]
                tr.append((t, z.guards))
            if any(t for t, g in tr):
                flags = frozenset(["break"] if any(k == "break" for k, z, h in ends) else [])
                base = State(base.guards, base.subst, base.heap, pre.trace + (("loop", tuple(dict.fromkeys(tr)), self.loc(node), pre.guards, flags),))
        if not mods:
            return [base], changed
        changed = True
        post = []
        b2 = base
        for vm, hm, z, k in mods:
            gs = self.extra_guards(z, pre)
            bound = frozenset(s for s in syms_of(gs) if s not in here and s.id > lid)
            if b2 is not None and gs:
                b2 = self.add(b2, True, ("neg", gs, "cond", bound))
            elif not gs:
                # every iteration modifies it; the initial value survives an empty collection only
                b2 = self.add(b2, True, ("opq", ("noiter", lid))) if b2 is not None else None
        if b2 is not None:
            post.append(b2)
        keys = []
        for vm, hm, z, k in mods:
            sig = (tuple(sorted(vm.items())), tuple(sorted(hm)))
            keys.append(sig)
        multi = len({repr(k) for k in keys}) > 1
        for vm, hm, z, k in mods:
            cur = base
            gs = tuple(g for g in z.guards if g not in preg)
            for p, l in gs:
                if cur is not None:
                    cur = self.add(cur, p, l)
            if cur is None:
                continue
            bound = frozenset(s for s in syms_of(gs) if s not in here and s.id > lid)
            h = dict(cur.heap)
            ev = h[env]
            vs = dict(ev.vars)
            vs.update(vm)
            h[env] = HEnv(vs, ev.parent, ev.fnname)
            h.update(hm)
            for i, o in z.heap.items():
                h.setdefault(i, o)
            sub = dict(cur.subst)
            cur = State(cur.guards, sub, h, cur.trace)
            dep = any(syms_of(v) & bound for v in vm.values()) or bool(hm) or any(self._refs_new(v, pre, z, bound) for v in vm.values())
            if dep or multi:
                cur = self.add(cur, True, ("opq", ("pick", "last value of loop at line %d" % node.lineno, lid)))
            if cur is not None:
                post.append(cur)
        return post, changed

    def _refs_new(self, v, pre, z, bound):
        if isinstance(v, Ref) and v.id not in pre.heap:
            o = z.heap.get(v.id)
            if isinstance(o, HColl):
                return bool(syms_of(o.items) & bound)
            return True
        return False

    def _live_after(self, n, live):
        return n in live

    def _coll(self, v, st):
        if isinstance(v, Ref) and v.id not in self.special:
            o = st.heap.get(v.id)
            if isinstance(o, HColl):
                return o
        return None

    def is_growth(self, p, o, here=frozenset(), st=None):
        if p.kind != o.kind and {p.kind, o.kind} != {"list", "iter"}:
            return False
        if p.exact and o.exact:
            if p.kind == "set":
                return set(p.items) <= set(o.items)
            if p.kind == "dict":
                return all(x in o.items for x in p.items)
            return o.items[: len(p.items)] == p.items
        if not o.exact:
            bindable = lambda s: s.id >= o.scope and s not in here
            return set(p.opaque) <= set(o.opaque) and all(
                q in o.items or any(subsumes(e, q, bindable) for e in o.items) for q in self.inexact(p, st).items)
        return False

    def growth(self, p, o, z, preg):
        dl = tuple(g for g in z.guards if g not in preg)
        base = set(p.base)
        dl = tuple(g for g in z.guards if g not in base)
        if o.exact:
            if o.kind == "dict":
                return [Entry(Tup((x[0], self.freeze(x[1], z))), dl) for x in o.items if x not in p.items], ()
            new = o.items[len(p.items):] if o.kind != "set" else tuple(x for x in o.items if x not in p.items)
            return [Entry(self.freeze(x, z), dl) for x in new], ()
        pi = self.inexact(p, z).items
        return [e for e in o.items if e not in pi], tuple(k for k in o.opaque if k not in p.opaque)
