"""Expressions, calls and the models of the library (rdflib graphs, Python collections, builtins)."""
from __future__ import annotations
import ast
import builtins
import itertools
import re
from .values import *
from .values import _counter

STRSAFE = {"strip", "lstrip", "rstrip", "lower", "upper", "split", "rsplit", "replace", "startswith", "endswith", "find", "rfind",
           "isalnum", "isdigit", "isalpha", "isspace", "isdecimal", "isnumeric", "isupper", "islower", "title", "capitalize", "ljust", "rjust", "zfill", "count", "join",
           "splitlines", "partition", "rpartition", "casefold", "n3", "toPython", "encode", "swapcase", "center", "expandtabs",
           "removeprefix", "removesuffix", "total_seconds", "groups", "group", "end", "start", "span", "isoformat"}
# library functions that may raise, and what (what is not listed is taken not to raise on what it is given here)
RAISES = {"builtins.int": ("ValueError",), "builtins.float": ("ValueError",), "decimal.Decimal": ("decimal.InvalidOperation",),
          "time.strptime": ("ValueError",), "datetime.datetime.strptime": ("ValueError",), "datetime.datetime": ("ValueError",),
          "datetime.time": ("ValueError",), "datetime.date": ("ValueError",), "binascii.unhexlify": ("ValueError",),
          "base64.standard_b64decode": ("ValueError",), "base64.b64decode": ("ValueError",), "base64.b16decode": ("ValueError",),
          "bytes.fromhex": ("ValueError",), "builtins.bytes.fromhex": ("ValueError",),
          "urllib.parse.urlsplit": ("ValueError",), "urllib.parse.urlparse": ("ValueError",),
          "xml.dom.minidom.parseString": ("Exception",), "fractions.Fraction": ("ValueError", "ZeroDivisionError"),
          "re.compile": ("re.error",), "builtins.open": ("OSError",), "datetime.datetime.fromisoformat": ("ValueError",),
          "datetime.date.fromisoformat": ("ValueError",), "datetime.time.fromisoformat": ("ValueError",), "builtins.chr": ("ValueError",),
          "builtins.ord": ("TypeError",), "datetime.timezone": ("ValueError",), "xml.etree.ElementTree.fromstring": ("Exception",),
          "json.loads": ("ValueError",)}
LITATTRS = {"value", "datatype", "language", "ill_typed"}


def exact(kind, items):
    return HColl(kind, True, tuple(items), 0)


class Exprs:
    lazy_dict = 3  # a mapping of at most that many keys is split into one path per key

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, env):
        self.steps += 1
        if self.steps > self.fuel:
            from .engine import TooComplex
            raise TooComplex("analysis budget exhausted")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.notes.append("expression not modelled: %s at %s" % (type(e).__name__, self.loc(e)))
            return [(st, App("?" + type(e).__name__))]
        return m(e, st, env)

    def Exit(self, exc):
        from .engine import Exit
        return Exit("raise", App("exc", (Const(exc),)))

    @staticmethod
    def is_exit(v):
        from .engine import Exit
        return isinstance(v, Exit)

    def ev_list(self, exprs, st, env):
        """-> [(state, Tup of the values | Exit)]"""
        cur = [(st, ())]
        out = []
        for e in exprs:
            nxt = []
            for x, vs in cur:
                for y, v in self.ev(e, x, env):
                    if self.is_exit(v):
                        out.append((y, v))
                    else:
                        nxt.append((y, vs + (v,)))
            cur = nxt
        return [(x, Tup(tuple(rename(v, x.subst) for v in vs))) for x, vs in cur] + out

    def e_Constant(self, e, st, env):
        return [(st, Const(e.value))]

    def e_Name(self, e, st, env):
        v = self.lookup(e.id, st, env)
        if v is None:
            self.emit("unresolved", (Const("name"), Const(e.id)), st, e)
            return [(st, self.Exit("NameError"))]
        return [(st, rename(v, st.subst) if st.subst else v)]

    def e_NamedExpr(self, e, st, env):
        out = []
        for x, v in self.ev(e.value, st, env):
            if not self.is_exit(v):
                x = self.assign_name(x, env, e.target.id, v)
            out.append((x, v))
        return out

    def e_Tuple(self, e, st, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.starred_items(e, st, env, "tuple")
        return self.ev_list(e.elts, st, env)

    def e_List(self, e, st, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.starred_items(e, st, env, "list")
        return self.mk(self.ev_list(e.elts, st, env), "list")

    def e_Set(self, e, st, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.starred_items(e, st, env, "set")
        return self.mk(self.ev_list(e.elts, st, env), "set")

    def starred_items(self, e, st, env, kind):
        out = []
        for x, vs in self.ev_list([z.value if isinstance(z, ast.Starred) else z for z in e.elts], st, env):
            if self.is_exit(vs):
                out.append((x, vs))
                continue
            cur = [(x, exact(kind, ()))]
            for z, v in zip(e.elts, vs.items):
                nxt = []
                for y, acc in cur:
                    if isinstance(z, ast.Starred):
                        for w, c in self.iter_of(v, y, e):
                            if not self.is_exit(c):
                                nxt.append((w, self.union(acc, c, kind, w)))
                    else:
                        nxt.append((y, self.union(acc, exact(kind, (v,)), kind, y)))
                cur = nxt
            for y, acc in cur:
                if kind == "tuple" and acc.exact:
                    out.append((y, Tup(acc.items)))
                else:
                    out.append(self.put_coll(y, acc, kind))
        return out

    def mk(self, res, kind):
        out = []
        for x, vs in res:
            if self.is_exit(vs):
                out.append((x, vs))
                continue
            items = vs.items
            if kind == "set":
                items = tuple(dict.fromkeys(items))
            x, r = self.new_coll(x, kind, items)
            out.append((x, r))
        return out

    def put_coll(self, st, c, kind=None):
        """Store a collection as a new object."""
        kind = kind or c.kind
        if c.exact:
            items = c.items
            if kind == "set":
                items = tuple(dict.fromkeys(items))
            return self.new_coll(st, kind, items)
        i = next(_counter)
        st = st.put(i, HColl(kind, False, c.items, c.scope, c.base or (), c.opaque, c.dflt))
        return st, Ref(i)

    def e_Dict(self, e, st, env):
        if any(k is None for k in e.keys):
            out = []
            for x, vs in self.ev_list(e.values, st, env):
                if self.is_exit(vs):
                    out.append((x, vs))
                    continue
                if len(e.keys) == 1 and isinstance(vs.items[0], Ref) and isinstance(x.heap.get(vs.items[0].id), HTable):
                    out += self.table_method(vs.items[0], "copy", [], {}, x, e)
                    continue
                x, r = self.new_coll(x, "dict", ())
                cur = [x]
                for k, v in zip(e.keys, vs.items):
                    nxt = []
                    for y in cur:
                        if k is None:
                            nxt += [z for z, w in self.coll_method(r, "update", [v], {}, y, e) if not self.is_exit(w)]
                        else:
                            for z, kv in self.ev(k, y, env):
                                nxt.append(self.set_item(z, r, kv, v, e))
                    cur = nxt
                out += [(y, r) for y in cur]
            return out
        out = []
        n = len(e.keys)
        for x, vs in self.ev_list(list(e.keys) + list(e.values), st, env):
            if self.is_exit(vs):
                out.append((x, vs))
                continue
            pairs = []
            for k, v in zip(vs.items[:n], vs.items[n:]):
                pairs = [(a, b) for a, b in pairs if a != k] + [(k, v)]
            if all(self.const_key(k) for k, _ in pairs):
                out.append(self.new_coll(x, "dict", tuple(pairs)))
            else:
                x, r = self.new_coll(x, "dict", tuple(Entry(Tup((k, v)), ()) for k, v in pairs), exact=False)
                out.append((x, r))
        return out

    def e_JoinedStr(self, e, st, env):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        out = []
        for x, vs in self.ev_list(parts, st, env):
            if self.is_exit(vs):
                out.append((x, vs))
                continue
            if all(isinstance(v, (Const, IRI)) for v in vs.items):
                try:
                    out.append((x, Const("".join(str(v.v) for v in vs.items))))
                    continue
                except Exception:
                    pass
            tmpl = "".join("%s" if isinstance(p, ast.FormattedValue) else str(p.value).replace("%", "%%") for p in e.values)
            args = [v for p, v in zip(e.values, vs.items) if isinstance(p, ast.FormattedValue)]
            out.append((x, App("fmt", (Const(tmpl),) + tuple(self.fold_args(args, x)))))
        return out

    def fold_args(self, args, st):
        return [self.reify(a, st) for a in args]

    def reify(self, v, st):
        """Replace references to exact sequences by tuples (for messages and opaque terms)."""
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, HColl) and o.exact and o.kind in ("list", "tuple"):
                return Tup(tuple(self.reify(x, st) for x in o.items))
        return v

    def e_FormattedValue(self, e, st, env):
        return [(x, v if self.is_exit(v) else App("str", (v,))) for x, v in self.ev(e.value, st, env)]

    def e_Lambda(self, e, st, env):
        self._captured.add(env)
        fn = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(e.body), e)], decorator_list=[], lineno=e.lineno)
        fn._lambda = e
        cached = getattr(e, "_fn", None)
        if cached is None:
            e._fn = cached = fn
        return self.make_fn(cached, st, env)

    def e_Starred(self, e, st, env):
        return self.ev(e.value, st, env)

    def e_Await(self, e, st, env):
        return self.ev(e.value, st, env)

    # ---- booleans
    def heap_same(self, a, b):
        if a is b:
            return True
        if a.keys() != b.keys():
            # new objects only are allowed if nothing old changed (they are garbage or results)
            if not set(a) <= set(b):
                return False
        return all(b[k] is a[k] for k in a)

    def e_BoolOp(self, e, st, env):
        is_and = isinstance(e.op, ast.And)
        return self.boolop(e.values, is_and, st, env)

    def boolop(self, values, is_and, st, env):
        out = []
        for x, v in self.ev(values[0], st, env):
            if self.is_exit(v) or len(values) == 1:
                out.append((x, v))
                continue
            f1 = self.truth(v, x)
            cont, stop = self.assume(x, f1, is_and), self.assume(x, f1, not is_and)
            if isinstance(f1, Const):
                if bool(f1.v) == is_and:
                    out += self.boolop(values[1:], is_and, x, env)
                else:
                    out.append((x, v))
                continue
            if not stop:
                for y in cont:
                    out += self.boolop(values[1:], is_and, y, env)
                continue
            done = False
            if len(cont) == 1:
                y = cont[0]
                mark, tmark = len(self.sink), [len(t) for t in self.try_stack]
                res = self.boolop(values[1:], is_and, y, env)
                if len(res) == 1 and not self.is_exit(res[0][1]):
                    z, w = res[0]
                    if self.heap_same(y.heap, z.heap) and z.guards == y.guards and z.subst == y.subst and z.trace == y.trace and \
                            (isinstance(w, BF) or (isinstance(w, Const) and isinstance(w.v, bool)) or self._boolctx):
                        if isinstance(v, BF) or (isinstance(v, Const) and isinstance(v.v, bool)) or self._boolctx:
                            f2 = self.truth(w, z)
                            h = dict(z.heap)
                            out.append((State(x.guards, x.subst, h, x.trace), f_and(f1, f2) if is_and else f_or(f1, f2)))
                            done = True
                if not done:
                    for y2 in stop:
                        out.append((y2, self.stopval(v, is_and)))
                    out += res
                    done = True
            if not done:
                for y in stop:
                    out.append((y, self.stopval(v, is_and)))
                for y in cont:
                    out += self.boolop(values[1:], is_and, y, env)
        return out

    def stopval(self, v, is_and):
        if isinstance(v, BF):
            return FALSE if is_and else TRUE
        return v

    _boolctx = False

    def ev_test(self, e, st, env):
        """Evaluate an expression of which only the truth matters."""
        if isinstance(e, ast.BoolOp):
            saved, self._boolctx = self._boolctx, True
            try:
                return self.boolop(e.values, isinstance(e.op, ast.And), st, env)
            finally:
                self._boolctx = saved
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, v if self.is_exit(v) else f_not(self.truth(v, x))) for x, v in self.ev_test(e.operand, st, env)]
        return self.ev(e, st, env)

    def e_UnaryOp(self, e, st, env):
        out = []
        if isinstance(e.op, ast.Not):
            return self.ev_test(e, st, env)
        for x, v in self.ev(e.operand, st, env):
            if self.is_exit(v):
                out.append((x, v))
            elif isinstance(v, Const) and isinstance(v.v, (int, float)):
                out.append((x, Const(-v.v if isinstance(e.op, ast.USub) else +v.v if isinstance(e.op, ast.UAdd) else ~v.v)))
            else:
                out.append((x, App(type(e.op).__name__, (v,))))
        return out

    def e_IfExp(self, e, st, env):
        out = []
        for x, v in self.ev_test(e.test, st, env):
            if self.is_exit(v):
                out.append((x, v))
                continue
            t, f = self.branch(x, v)
            for y in t:
                out += self.ev(e.body, y, env)
            for y in f:
                out += self.ev(e.orelse, y, env)
        return out

    def e_Compare(self, e, st, env):
        out = []
        saved, self._boolctx = self._boolctx, False
        res = self.ev_list([e.left] + e.comparators, st, env)
        self._boolctx = saved
        for x, vs in res:
            if self.is_exit(vs):
                out.append((x, vs))
                continue
            fs = []
            states = [(x, [])]
            for op, a, b in zip(e.ops, vs.items, vs.items[1:]):
                nxt = []
                for y, acc in states:
                    for z, f in self.compare(op, a, b, y, e):
                        nxt.append((z, acc + [f]))
                states = nxt
            for y, acc in states:
                bad = [f for f in acc if self.is_exit(f)]
                out.append((y, bad[0] if bad else f_and(*acc)))
        return out

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            for u, w in ((a, b), (b, a)):
                if isinstance(u, Ref) and isinstance(st.heap.get(u.id), HInst):
                    m = self.class_attr(st.heap[u.id].cls, "__eq__", st)
                    if isinstance(m, Fn):
                        r = self.call(self.bind(m, u, st.heap[u.id].cls), [w], {}, st, node)
                        return [(x, v if self.is_exit(v) else (f_not(self.truth(v, x)) if isinstance(op, ast.NotEq) else self.truth(v, x))) for x, v in r]
            f = self.eq(a, b, st)
            return [(st, f_not(f) if isinstance(op, ast.NotEq) else f)]
        if isinstance(op, (ast.Is, ast.IsNot)):
            f = self.eq(a, b, st)
            simple = (Const, Cls, Fn, GraphV, Ref, Mod, Ext)
            if not isinstance(f, Const) and not (isinstance(a, simple) or isinstance(b, simple)):
                f = f_and(f, lit("opq", ("identical", a, b)))
            elif isinstance(f, Const) and f.v and isinstance(a, IRI) and not (a is b):
                f = lit("opq", ("identical", a, b))
            return [(st, f_not(f) if isinstance(op, ast.IsNot) else f)]
        if isinstance(op, (ast.In, ast.NotIn)):
            out = []
            for x, f in self.contains(b, a, st, node):
                out.append((x, f if self.is_exit(f) else f_not(f) if isinstance(op, ast.NotIn) else f))
            return out
        # ordering; of sets: inclusion
        if all(isinstance(v, Ref) and isinstance(st.heap.get(v.id), HColl) and st.heap[v.id].kind in ("set", "frozenset") and v.id not in self.special
               for v in (a, b)) and isinstance(op, (ast.LtE, ast.GtE, ast.Lt, ast.Gt)):
            u, w = (a, b) if isinstance(op, (ast.LtE, ast.Lt)) else (b, a)
            r = self.coll_method(u, "issubset", [w], {}, st, node)
            if isinstance(op, (ast.LtE, ast.GtE)):
                return [(x, self.truth(v, x)) for x, v in r]
            out = []
            for x, v in r:
                for y, v2 in self.coll_method(w, "issubset", [u], {}, x, node):
                    out.append((y, f_and(self.truth(v, x), f_not(self.truth(v2, y)))))
            return out
        neg = False
        if isinstance(op, ast.Gt):
            a, b = b, a
        elif isinstance(op, ast.LtE):
            a, b, neg = b, a, True
        elif isinstance(op, ast.GtE):
            neg = True
        f = self.less(a, b, st)
        if self.may_be_uncomparable(a, b):
            s2 = self.mayraise(st, "TypeError", ("lt", a, b), node)
            if s2 is None:
                return []
            st = s2
        return [(st, f_not(f) if neg else f)]

    def may_be_uncomparable(self, a, b):
        def unk(v):
            return isinstance(v, App) and v.fn in ("attr:value",)
        return unk(a) or unk(b)

    def less(self, a, b, st):
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return Const(bool(a.v < b.v))
            except TypeError:
                return lit("opq", ("lt", a, b))
        if a == b:
            return FALSE
        lo = self.intlow(a)
        if lo is not None and isinstance(b, Const) and isinstance(b.v, int) and lo >= b.v:
            return FALSE
        lo = self.intlow(b)
        if lo is not None and isinstance(a, Const) and isinstance(a.v, int) and lo > a.v:
            return TRUE
        for u, w, flip in ((a, b, False), (b, a, True)):
            if isinstance(u, LenV) and isinstance(w, Const) and isinstance(w.v, int):
                # len(x) < k  or  k < len(x)
                if not flip and w.v == 1:
                    return f_not(self.truth(u.ref, st))
                if not flip and w.v <= 0:
                    return FALSE
                if flip and w.v == 0:
                    return self.truth(u.ref, st)
                if flip and w.v < 0:
                    return TRUE
        if isinstance(a, App) and a.fn == "len" and isinstance(b, Const) and isinstance(b.v, int):
            if b.v <= 0:
                return FALSE
            if b.v == 1:
                return self.eq(a, Const(0), st)
        if isinstance(b, App) and b.fn == "len" and isinstance(a, Const) and a.v == 0:
            return f_not(self.eq(b, Const(0), st))
        return lit("lt", a, b)

    @staticmethod
    def intlow(v):
        return v.args[0].v if isinstance(v, App) and v.fn == "intge" else None

    def ex_with(self, e, coll, st, f_of):
        """The formula  'some instance of the entry satisfies f'."""
        b = self.bind_entry(e, coll, st)
        if b is None:
            return FALSE
        y, val, elems = b
        f = f_of(val, y)
        fs = []
        here = guards_syms(st.guards)
        for z in self.assume(y, f, True):
            gs = self.extra_guards(z, st)
            if not gs:
                return TRUE
            # symbols of the entry that were identified with others are gone
            bound = frozenset(s for s in syms_of(gs) if s in elems and s not in here)
            fs.append(lit("ex", gs, bound))
        return f_or(*fs)

    def contains(self, c, x, st, node):
        """-> [(state, formula 'x in c')]"""
        if isinstance(c, GraphV):
            if isinstance(x, Ref) and isinstance(st.heap.get(x.id), HColl) and st.heap[x.id].exact:
                x = Tup(st.heap[x.id].items)
            if c.role in self.concrete and isinstance(x, Tup):
                return [(st, Const(any(all((isinstance(v, Const) and v.v is None) or v == y for v, y in zip(x.items, t)) for t in self.concrete[c.role][0])))]
            if isinstance(x, Tup) and len(x.items) == 3:
                return [(st, self.in_formula(c, x.items))]
            return [(st, lit("opq", ("in", c, x)))]
        if isinstance(c, Ref):
            o = st.heap.get(c.id)
            if c.id in self.special and isinstance(o, HColl):
                return [(st, lit("opq", ("inbuffer", self.special[c.id], x)))]
            if isinstance(o, HColl):
                return [(st, self.in_coll(o, x, st))]
            if isinstance(o, HInst):
                m = self.class_attr(o.cls, "__contains__", st)
                if isinstance(m, Fn):
                    return [(y, v if self.is_exit(v) else self.truth(v, y)) for y, v in self.call(self.bind(m, c, o.cls), [x], {}, st, node)]
            return [(st, lit("opq", ("in", c, x)))]
        if isinstance(c, Tup):
            return [(st, self.in_coll(exact("tuple", c.items), x, st))]
        if isinstance(c, Const) and isinstance(x, Const):
            try:
                return [(st, Const(x.v in c.v))]
            except TypeError:
                return [(st, FALSE)]
        if isinstance(c, Const) and isinstance(c.v, str):
            return [(st, lit("opq", ("substr", x, c)))]
        if isinstance(c, (Slot, App)):
            out = []
            for y, k in self.iter_of(c, st, node):
                if self.is_exit(k):
                    out.append((y, k))
                elif k.opaque:
                    out.append((y, lit("opq", ("in", c, x))))
                else:
                    out.append((y, self.in_coll(k, x, y)))
            return out
        return [(st, lit("opq", ("in", c, x)))]

    def in_formula(self, g, spo):
        m = []
        wild = set()
        for v in spo:
            if isinstance(v, Const) and v.v is None:
                v = fresh("w")
                wild.add(v)
            m.append(v)
        l = ("in", g.role, tuple(m))
        if wild:
            return lit("ex", ((True, l),), frozenset(wild))
        return lit(*l)

    def in_coll(self, o, x, st):
        if o.exact:
            items = [k for k, _ in o.items] if o.kind == "dict" else o.items
            x = rename(x, st.subst)
            if len(items) > 2 and all(isinstance(i, (IRI, Const)) for i in items) and isinstance(x, (Sym, App)):
                return lit("memb", x, frozenset(items))
            if len(items) > 2 and all(isinstance(i, (IRI, Const)) for i in items) and isinstance(x, (IRI, Const)):
                return Const(x in items)
            return f_or(*[self.eq(x, i, st) for i in items])
        fs = []
        for e in o.items:
            def f_of(val, y, e=e):
                if o.kind == "dict":
                    val = val.items[0]
                return self.eq(val, rename(x, y.subst), y)
            fs.append(self.ex_with(e, o, st, f_of))
        for k in o.opaque:
            fs.append(lit("opq", ("elem", k, x)))
        f = f_or(*fs)
        if (len(f.args) > 3 if o.kind != "dict" and isinstance(f, BF) else len(fs) > 1 and all(e.multi for e in o.items)) and isinstance(f, BF) and f.op == "or" and all(g.op == "lit" for g in f.args):
            bound = frozenset().union(*[g.args[0][2] for g in f.args if g.args[0][0] == "ex"])
            return lit("hask", x, f, bound)
        return f

    # ---- comprehensions
    def comp(self, e, gens, leaf, kind, st, env):
        cenv = next(_counter)
        st = st.put(cenv, HEnv({}, env, "<comp>"))
        st, acc = self.new_coll(st, kind, ())
        bodyreads = self.names_of(e)
        tnames = [frozenset(n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)) for g in gens]

        def level(i, x):
            if i == len(gens):
                return leaf(x, acc, cenv)
            g = gens[i]
            out = []
            res = self.ev(g.iter, x, cenv)
            for y, v in res:
                if self.is_exit(v):
                    out.append(("raise", y, v.val))
                    continue

                def body(z, val, g=g, i=i):
                    o = []
                    for w in self.assign(g.target, val, z, cenv, e):
                        if isinstance(w, tuple):
                            o.append(("raise", w[0], w[1].val))
                            continue
                        cur = [w]
                        for cond in g.ifs:
                            nxt = []
                            for q in cur:
                                for r, cv in self.ev_test(cond, q, cenv):
                                    if self.is_exit(cv):
                                        o.append(("raise", r, cv.val))
                                        continue
                                    t, f = self.branch(r, cv)
                                    nxt += t
                                    o += [("normal", a, None) for a in f]
                            cur = nxt
                        for q in cur:
                            o += level(i + 1, q)
                    return o
                live = bodyreads.difference(*tnames[i:])
                out += self.loop(v, body, y, cenv, live, e, None, live)
            return out

        out = []
        pre = st
        outs = level(0, st)
        norm = [o[1] for o in outs if o[0] == "normal"]
        if len(norm) > 1:
            norm = self.merge(pre, norm, frozenset(), cenv, exhaustive=len(norm) == len(outs), roots=(acc,))
        for x in norm:
            h = dict(x.heap)
            h.pop(cenv, None) if False else None
            out.append((x, acc))
        for k, x, v in outs:
            if k != "normal":
                from .engine import Exit
                out.append((x, Exit("raise" if k == "raise" else "unwind", v)))
        return out

    def names_of(self, e):
        from .engine import names_loaded
        return names_loaded(e)

    def e_ListComp(self, e, st, env, kind="list"):
        def leaf(x, acc, cenv):
            out = []
            for y, v in self.ev(e.elt, x, cenv):
                if self.is_exit(v):
                    out.append(("raise", y, v.val))
                    continue
                y2 = self.coll_add(y, acc, v, kind == "set")
                out.append(("normal", y2, None))
            return out
        return self.comp(e, e.generators, leaf, kind, st, env)

    def e_SetComp(self, e, st, env):
        return self.e_ListComp(e, st, env, "set")

    def e_GeneratorExp(self, e, st, env):
        return self.e_ListComp(e, st, env, "iter")

    def e_DictComp(self, e, st, env):
        def leaf(x, acc, cenv):
            out = []
            for y, kv in self.ev_list([e.key, e.value], x, cenv):
                if self.is_exit(kv):
                    out.append(("raise", y, kv.val))
                    continue
                out.append(("normal", self.set_item(y, acc, kv.items[0], kv.items[1], e), None))
            return out
        return self.comp(e, e.generators, leaf, "dict", st, env)

    def coll_add(self, st, ref, v, unique=False):
        o = st.heap[ref.id]
        if o.exact:
            items = o.items
            if not (unique and v in items):
                items = items + (v,)
            return st.put(ref.id, HColl(o.kind, True, items, o.scope, o.base, o.opaque, o.dflt, o.tag))
        e = Entry(self.freeze(v, st), self.delta(st, o))
        new = self.grown(st, o, [e])
        if new == o.items:
            return st
        return st.put(ref.id, HColl(o.kind, False, new, o.scope, o.base, o.opaque, o.dflt, o.tag))

    # ---- generators
    def e_Yield(self, e, st, env):
        res = self.ev(e.value, st, env) if e.value is not None else [(st, NONE)]
        out = []
        for x, v in res:
            if self.is_exit(v):
                out.append((x, v))
                continue
            g = self.lookup("%gen", x, env)
            if isinstance(g, Ref):
                out.append((self.coll_add(x, g, v), NONE))
            elif self.yield_cb and self.yield_cb[-1][0] == "ctx":
                tag, cb = self.yield_cb[-1]
                saved = self.yield_cb.pop()
                try:
                    outs = cb(x, v)
                finally:
                    self.yield_cb.append(saved)
                from .engine import Exit
                for k, y, r in outs:
                    if k == "normal":
                        out.append((y, NONE))
                    elif k == "raise":
                        out.append((y, Exit("raise", r)))
                    else:
                        out.append((y, Exit("unwind", (k, y, r))))
            else:
                out.append((x, NONE))
        return out

    def e_YieldFrom(self, e, st, env):
        out = []
        for x, v in self.ev(e.value, st, env):
            if self.is_exit(v):
                out.append((x, v))
                continue
            g = self.lookup("%gen", x, env)
            if isinstance(g, Ref):
                for y, c in self.iter_of(v, x, e):
                    if self.is_exit(c):
                        out.append((y, c))
                    else:
                        for z, r in self.coll_method(g, "extend", [v], {}, y, e):
                            out.append((z, NONE))
            else:
                out.append((x, NONE))
        return out

    # ---- subscripts
    def e_Subscript(self, e, st, env):
        out = []
        if isinstance(e.slice, ast.Slice):
            parts = [p if p is not None else ast.Constant(value=None) for p in (e.slice.lower, e.slice.upper, e.slice.step)]
            for p in parts:
                if not hasattr(p, "lineno"):
                    ast.copy_location(p, e)
            for x, vs in self.ev_list([e.value] + parts, st, env):
                if self.is_exit(vs):
                    out.append((x, vs))
                else:
                    out.append(self.slice(vs.items[0], vs.items[1:], x, e))
            return out
        for x, vs in self.ev_list([e.value, e.slice], st, env):
            if self.is_exit(vs):
                out.append((x, vs))
            else:
                out += self.get_item(vs.items[0], vs.items[1], x, e)
        return out

    def slice(self, v, parts, st, node):
        consts = all(isinstance(p, Const) for p in parts)
        sl = slice(*[p.v for p in parts]) if consts else None
        if isinstance(v, Const) and sl is not None:
            try:
                return st, Const(v.v[sl])
            except Exception:
                return st, self.Exit("TypeError")
        if isinstance(v, Tup) and sl is not None:
            return st, Tup(v.items[sl])
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), HColl):
            o = st.heap[v.id]
            if o.exact and o.kind != "dict" and sl is not None:
                return self.new_coll(st, o.kind, o.items[sl])
            if sl is not None and sl.start in (None, 0) and sl.stop is None and sl.step in (None, 1, -1):
                return self.put_coll(st, o)
            o2 = self.inexact(o)
            def key(e):
                # the first k elements, or all but these, of arbitrarily many
                if sl is not None and sl.step is None and isinstance(e.value, (Sym, Tup, App)):
                    a, b = sl.start or 0, sl.stop
                    if isinstance(b, int) and b > 0 and a == 0:
                        return True, ("opq", ("sliced", e.value, b))
                    if b is None and isinstance(a, int) and a > 0:
                        return False, ("opq", ("sliced", e.value, a))
                return True, ("opq", ("slice", node.lineno))
            return self.put_coll(st, HColl(o.kind, False, tuple(Entry(e.value, e.guards + (key(e),), e.multi) for e in o2.items), o2.scope, o2.base, o2.opaque))
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), HTable):
            i = next(_counter)
            return st.put(i, HTable("copy", st.heap[v.id].content)), Ref(i)
        return st, App("slice", (v,) + tuple(parts))

    def get_item(self, v, k, st, node):
        if isinstance(v, Ext) and v.path.startswith("ns:"):
            if isinstance(k, Const):
                from .engine import NS
                return [(st, IRI(NS[v.path[3:]] + str(k.v)))]
            return [(st, App("iri", (v, k)))]
        if isinstance(v, Tup) and isinstance(k, Const) and isinstance(k.v, int):
            if -len(v.items) <= k.v < len(v.items):
                return [(st, v.items[k.v])]
            return [(st, self.Exit("IndexError"))]
        if isinstance(v, Const) and isinstance(k, Const):
            try:
                r = v.v[k.v]
                return [(st, Const(r))]
            except Exception as ex:
                return [(st, self.Exit(type(ex).__name__))]
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, HColl):
                if o.kind == "dict":
                    return self.dict_get(v, o, k, st, node, None)
                if o.exact and isinstance(k, Const) and isinstance(k.v, int):
                    if -len(o.items) <= k.v < len(o.items):
                        return [(st, o.items[k.v])]
                    return [(st, self.Exit("IndexError"))]
                if not o.exact or not isinstance(k, Const):
                    got = []
                    x = st
                    t = self.truth(v, st)
                    res = []
                    for y in self.assume(st, t, False):
                        res.append((y, self.Exit("IndexError")))
                    for y, val in self.pick(v, st, ("item", node.lineno), node):
                        res.append((y, val))
                    return res
            if isinstance(o, HTable):
                return [(st, App("lookup", (v, k)))]
            if isinstance(o, HInst):
                m = self.class_attr(o.cls, "__getitem__", st)
                if isinstance(m, Fn):
                    return self.call(self.bind(m, v, o.cls), [k], {}, st, node)
        if isinstance(v, GraphV):
            return [(st, App("getitem", (v, k)))]
        if isinstance(v, (Cls, Ext)):
            return [(st, v)]  # a generic type
        if isinstance(v, App) and v.fn == "call:re.groups" and isinstance(k, Const):
            return [(st, App("group", v.args + (Const(k.v + 1),)))]
        if isinstance(v, (Sym, App)):
            st2 = st
            if not self.index_safe(v, k, st):
                st2 = self.mayraise(st, "IndexError", ("index", v, k), node)
                if st2 is None:
                    return []
            return [(st2, App("item", (v, k)))]
        return [(st, App("item", (v, k)))]

    def index_safe(self, v, k, st):
        if not isinstance(k, Const):
            return isinstance(v, App) and v.fn in ("os.environ",)
        if not isinstance(k.v, int):
            return False
        if isinstance(v, App) and v.fn == "m:split":
            return k.v in (0, -1) or self.len_at_least(v, k.v + 1 if k.v >= 0 else -k.v, st)
        if isinstance(v, App) and v.fn in ("m:partition", "m:rpartition", "call:urllib.parse.urlsplit", "call:urllib.parse.urlparse"):
            return True
        return self.len_at_least(v, k.v + 1 if k.v >= 0 else -k.v, st)

    def len_at_least(self, v, n, st):
        L = App("len", (v,))
        w = self.min_width(v, st)
        if w is not None and w >= n:
            return True
        for p, l in st.guards:
            if l[0] == "eq" and l[1] == L and isinstance(l[2], Const):
                if p and l[2].v >= n:
                    return True
                if not p and l[2].v == 0 and n <= 1:
                    return True
            if l[0] == "lt":
                if p and l[2] == L and isinstance(l[1], Const) and l[1].v + 1 >= n:
                    return True
                if not p and l[1] == L and isinstance(l[2], Const) and l[2].v >= n:
                    return True
            if l[0] == "eq" and not p and l[1] == v and l[2] == Const("") and n <= 1:
                return True
            if l[0] == "opq" and p and l[1] == ("truthy", v) and n <= 1:
                return True
            if l[0] == "opq" and p and l[1][0] in ("mtrue",) and l[1][2] == v and n <= 1:
                return True
            if l[0] == "eq" and p and l[1] == v and isinstance(l[2], Const) and isinstance(l[2].v, str) and len(l[2].v) >= n:
                return True
        return False

    def min_width(self, v, st):
        """A lower bound of the length of a string matched by (a group of) a regular expression."""
        if isinstance(v, App) and v.fn == "group":
            g = group_info(v.args[0], v.args[-1])
            return g[0] if g else None
        if isinstance(v, App) and v.fn == "fmt":
            try:
                return len(re.sub(r"%.", "", v.args[0].v))
            except Exception:
                return 0
        if isinstance(v, App) and v.fn == "Add":
            a = [len(x.v) if isinstance(x, Const) and isinstance(x.v, str) else (self.min_width(x, st) or 0) for x in v.args]
            return sum(a)
        # a successful match of the whole value
        for p, l in st.guards:
            if p and l[0] == "opq" and l[1][0] == "matched" and l[1][2] == v and isinstance(l[1][1], Const):
                g = group_info(l[1][1], Const(0))
                if g:
                    return g[0]
        return None

    def dict_get(self, ref, o, k, st, node, default):
        """d[k] (default None: KeyError) or d.get(k, default)."""
        k = rename(k, st.subst)
        if o.dflt and default is None:
            if o.exact and self.const_key(k):
                for a, b in o.items:
                    if a == k:
                        return [(st, b)]
                return [(st, Slot(ref, k))]
            return [(st, Slot(ref, k))]
        if o.exact:
            if self.const_key(k):
                for a, b in o.items:
                    if a == k:
                        return [(st, b)]
                return [(st, self.Exit("KeyError") if default is None else default)]
            if len(o.items) <= self.lazy_dict or (len(o.items) <= 40 and not self.const_dict(o, st)):
                out = []
                cur = [st]
                for a, b in o.items:
                    nxt = []
                    for x in cur:
                        f = self.eq(k, a, x)
                        out += [(y, b) for y in self.assume(x, f, True)]
                        nxt += self.assume(x, f, False)
                    cur = nxt
                for x in cur:
                    out.append((x, self.Exit("KeyError") if default is None else default))
                return out
            f = lit("memb", k, frozenset(a for a, _ in o.items))
            out = [(y, App("lookup", (ref, k))) for y in self.assume(st, f, True)]
            if default is None:
                key = ("key", k)
                for y in self.assume(st, f, False):
                    out.append((y, self.Exit("KeyError")))
            else:
                out += [(y, default) for y in self.assume(st, f, False)]
            return out
        out = []
        conds = []
        for e in o.items:
            b = self.bind_entry(e, o, st)
            if b is None:
                continue
            y, val, elems = b
            if e.multi and any(q is not e and q.multi for q in o.items):
                f = self.in_coll(o, k, st)
                out += [(z, Slot(ref, k)) for z in self.assume(st, f, True) if not any(w == Slot(ref, k) for _, w in out)]
                continue
            if e.multi:
                out += [(z, Slot(ref, k)) for z in self.assume(y, self.eq(val.items[0], rename(k, y.subst), y), True)]
                continue
            for z in self.assume(y, self.eq(val.items[0], rename(k, y.subst), y), True):
                # several entries may have that key: the one that counts is not known
                w = rename(val.items[1], z.subst)
                if len(o.items) > 1 or (syms_of(w) & set(elems)):
                    if not self.functional(e, o):
                        z = self.add(z, True, ("opq", ("pick", node.lineno)))
                if z is not None:
                    out.append((z, w))
        for kk in o.opaque:
            z = self.add(st, True, ("opq", ("haskey", kk, k)))
            if z is not None:
                out.append((z, App("lookup", (ref, k))))
        miss = self.assume(st, self.in_coll(o, k, st), False)
        for y in miss:
            out.append((y, self.Exit("KeyError") if default is None else default))
        return out

    def functional(self, e, o):
        """Is the value of the entry determined by its key?"""
        if not (isinstance(e.value, Tup) and len(e.value.items) == 2):
            return False
        k, v = e.value.items
        return syms_of(v) <= syms_of(k)

    def const_dict(self, o, st):
        """A dictionary whose values are callables or constant collections (looked up lazily)."""
        for _, b in o.items:
            if isinstance(b, (Fn, Bound, Ext, Partial, Const, IRI, Cls)):
                continue
            if isinstance(b, Ref) and isinstance(st.heap.get(b.id), HColl):
                continue
            return False
        return True

    # ------------------------------------------------------------------ attributes
    def e_Attribute(self, e, st, env):
        out = []
        for x, v in self.ev(e.value, st, env):
            if self.is_exit(v):
                out.append((x, v))
            else:
                out += self.get_attr(v, e.attr, x, e)
        return out

    def get_attr(self, v, name, st, node):
        if isinstance(v, Mod):
            m = self.modules.get(v.name)
            if m is not None and m.env is not None:
                vs = st.heap[m.env].vars
                if name in vs:
                    return [(st, vs[name])]
            if v.name + "." + name in self.modules:
                return [(st, Mod(v.name + "." + name))]
            if name.startswith("__"):
                return [(st, App("modattr", (v, Const(name))))]
            self.emit("unresolved", (Const("attribute of module " + v.name), Const(name)), st, node)
            return [(st, self.Exit("AttributeError"))]
        if isinstance(v, Ext):
            if v.path.startswith("ns:"):
                if name in ("_fail", "_warn"):
                    return [(st, FALSE)]
                if name in ("term", "__getitem__"):
                    return [(st, BoundExt(v, name))]
                from .engine import ns_term
                t = ns_term(v.path[3:], name)
                if t is None:
                    self.emit("badterm", (v, Const(name)), st, node)
                    return [(st, self.Exit("AttributeError"))]
                return [(st, t)]
            if v.path.startswith("builtins."):
                return [(st, Ext(v.path + "." + name))]
            if v.path.startswith("nsobj:"):
                return [(st, IRI(v.path[6:] + name))]
            return [(st, self.canon_ext(v.path + "." + name))]
        if isinstance(v, Cls):
            a = self.class_attr(v, name, st)
            if a is not None:
                if isinstance(a, Fn) and a.kind == "classm":
                    return [(st, Bound(a, v))]
                return [(st, a)]
            if name == "__name__":
                return [(st, Const(v.name))]
            if name.startswith("__") or any(not isinstance(b, Cls) for c in self.mro(v) for b in getattr(c, "bases", ())):
                return [(st, App("clsattr", (v, Const(name))))]
            self.emit("unresolved", (Const("attribute of class " + v.name), Const(name)), st, node)
            return [(st, self.Exit("AttributeError"))]
        if isinstance(v, SuperV):
            mro = self.mro(self.cls_of(v.self, st))
            if v.cls in mro:
                mro = mro[mro.index(v.cls) + 1:]
            for c in mro:
                if isinstance(c, Cls):
                    vs = st.heap[c.env].vars
                    if name in vs:
                        return [(st, self.bind(vs[name], v.self, c))] if not (isinstance(vs[name], Fn) and vs[name].kind == "prop") else \
                            self.call(self.bind(vs[name], v.self, c), [], {}, st, node)
            return [(st, BoundExt(v, name))]
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, HInst):
                if name in o.attrs:
                    return [(st, rename(o.attrs[name], st.subst))]
                a = self.class_attr(o.cls, name, st)
                if a is not None:
                    if isinstance(a, Fn) and a.kind == "prop":
                        return self.call_fn(a, [v], {}, st, node)
                    return [(st, self.bind(a, v, o.cls))]
                if name == "__class__":
                    return [(st, o.cls)]
                if name == "__dict__":
                    return [(st, App("dict", (v,)))]
                ga = self.class_attr(o.cls, "__getattr__", st)
                if isinstance(ga, Fn):
                    return self.call(self.bind(ga, v, o.cls), [Const(name)], {}, st, node)
                if isinstance(o.cls, Cls) and any(not isinstance(b, Cls) and b != Ext("builtins.object") for c in self.mro(o.cls) if isinstance(c, Cls) for b in c.bases):
                    return [(st, App("attr:" + name, (v,)))]
                self.emit("unresolved", (Const("attribute of an instance of %s" % getattr(o.cls, "name", o.cls)), Const(name)), st, node)
                return [(st, self.Exit("AttributeError"))]
            return [(st, BoundExt(v, name))]
        if isinstance(v, GraphV):
            if name == "store":
                return [(st, App("store", (v,)))]
            if name == "default_context":
                return [(st, GraphV(v.role + ".default", "plain"))]
            if name in ("default_union", "identifier", "namespace_manager"):
                return [(st, App("attr:" + name, (v,)))]
            return [(st, BoundExt(v, name))]
        if isinstance(v, Const):
            if v.v is None:
                return [(st, self.Exit("AttributeError"))]
            if not hasattr(v.v, name):
                return [(st, self.Exit("AttributeError"))]
            return [(st, BoundExt(v, name))]
        if isinstance(v, IRI):
            if name in LITATTRS:
                return [(st, self.Exit("AttributeError"))]
            return [(st, BoundExt(v, name))]
        if isinstance(v, App) and v.fn == "options":
            # the attributes of an option object: each one is a parameter of the analysis
            return self.option_attr(v, name, st, node)
        if isinstance(v, App) and v.fn == "restriction":
            if name in ("checkValue", "converter", "toPython"):
                return [(st, BoundExt(v, name))]
            return [(st, App("attr:" + name, (v,)))]
        if isinstance(v, (Sym, App)):
            if name in LITATTRS and isinstance(v, Sym):
                out = []
                t = self.poss_types(st, v)
                if t is not None and t == frozenset({"Literal"}):
                    return [(st, self.attr_hooks.get((v, name), App("attr:" + name, (v,))))]
                if t is not None and "Literal" not in t:
                    return [(st, self.Exit("AttributeError"))]
                self.emit("attr", (v, Const(name)), st, node)
                if self.try_stack:
                    s1 = self.add(st, False, ("isa", v, frozenset({"Literal"})))
                    if s1 is not None:
                        self.try_stack[-1].append(("raise", s1, App("exc", (Const("AttributeError"),))))
                else:
                    self.emit("mayraise", (Const("AttributeError"), v, Const(name)), st, node)
                s2 = self.add(st, True, ("isa", v, frozenset({"Literal"})))
                return [(s2, App("attr:" + name, (v,)))] if s2 is not None else []
            if name in LITATTRS or (isinstance(v, App) and v.fn in ("call:time.strptime", "call:datetime.datetime.strptime")):
                return [(st, App("attr:" + name, (v,)))]
            if name[:1].isupper() or name in ("netloc", "scheme", "path", "hostname", "fragment", "numerator", "denominator", "args", "prefixes", "options"):
                return [(st, App("attr:" + name, (v,)))]
            return [(st, BoundExt(v, name))]
        if isinstance(v, (Fn, Bound)):
            if name == "__name__":
                f = v.fn if isinstance(v, Bound) else v
                return [(st, Const(f.qual.split(".")[-1].split(":")[-1]))]
            return [(st, BoundExt(v, name))]
        return [(st, BoundExt(v, name))]

    def option_attr(self, v, name, st, node):
        return [(st, App("opt:" + name, ()))]

    # ---- classes
    def mro(self, c):
        if not isinstance(c, Cls):
            return [c]
        seqs = [self.mro(b) for b in c.bases] + [list(c.bases)]
        res = [c]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                break
            res.append(h)
            seqs = [[x for x in t if x != h] if t[0] == h else t for t in seqs]
            seqs = [t for t in seqs if t]
        return res

    def class_attr(self, c, name, st):
        if not isinstance(c, Cls):
            return None
        for k in self.mro(c):
            if isinstance(k, Cls):
                vs = st.heap[k.env].vars if k.env in st.heap else {}
                if name in vs:
                    return vs[name]
        return None

    def cls_of(self, v, st):
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), HInst):
            return st.heap[v.id].cls
        return v

    def bind(self, a, self_, cls):
        if isinstance(a, Fn):
            if a.kind == "static":
                return a
            if a.kind == "classm":
                return Bound(a, cls)
            return Bound(a, self_)
        return a

    def subclass(self, c, d):
        return d in self.mro(c)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, env):
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.lookup("super", st, env) == Ext("builtins.super"):
            if e.args:
                for x, vs in self.ev_list(e.args, st, env):
                    out.append((x, SuperV(vs.items[0], vs.items[1])))
                return out
            return [(st, SuperV(self.lookup("%cls", st, env), self.lookup("%self", st, env)))]
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars"):
            return [(st, App(e.func.id))]
        exprs = [e.func] + [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        saved, self._boolctx = self._boolctx, False
        res = self.ev_list(exprs, st, env)
        self._boolctx = saved
        self.calls_seen += 1
        for x, vs in res:
            if self.is_exit(vs):
                out.append((x, vs))
                continue
            f = vs.items[0]
            states = [(x, [])]
            for a, v in zip(e.args, vs.items[1:]):
                nxt = []
                for y, acc in states:
                    if isinstance(a, ast.Starred):
                        if isinstance(v, Tup):
                            nxt.append((y, acc + list(v.items)))
                            continue
                        for z, c in self.iter_of(v, y, e):
                            if not self.is_exit(c) and c.exact:
                                nxt.append((z, acc + list(c.items)))
                            else:
                                nxt.append((z, acc + [App("*", (v,))]))
                    else:
                        nxt.append((y, acc + [v]))
                states = nxt
            kw = {}
            for k, v in zip(e.keywords, vs.items[1 + len(e.args):]):
                if k.arg is None:
                    if isinstance(v, Ref) and isinstance(x.heap.get(v.id), HColl) and x.heap[v.id].exact:
                        for a, b in x.heap[v.id].items:
                            kw[a.v] = b
                else:
                    kw[k.arg] = v
            for y, args in states:
                out += self.call(f, args, kw, y, e)
        return out

    def call(self, f, args, kw, st, node):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st, node)
        if isinstance(f, Bound):
            if f.fn.kind == "ctxm":
                return [(st, Partial(f, tuple(args), (("%ctxm", TRUE),)))]
            return self.call_fn(f.fn, [f.self] + list(args), kw, st, node)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k, st, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, st, node)
        if isinstance(f, BoundExt):
            return self.method(f.recv, f.name, args, kw, st, node)
        if isinstance(f, Ext):
            return self.call_ext(f.path, args, kw, st, node)
        if isinstance(f, Ref) and isinstance(st.heap.get(f.id), HInst):
            m = self.class_attr(st.heap[f.id].cls, "__call__", st)
            if isinstance(m, Fn):
                return self.call(self.bind(m, f, None), args, kw, st, node)
        if isinstance(f, Const):
            return [(st, self.Exit("TypeError"))]
        return self.call_unknown(f, args, kw, st, node)

    def call_unknown(self, f, args, kw, st, node):
        if isinstance(f, App) and f.fn == "lookup":
            exc = "ValueError"
        else:
            exc = "Exception"
        s2 = self.mayraise(st, exc, ("call", f) + tuple(args), node)
        st = self.emit("callunknown", (f, Tup(tuple(args))), s2, node) if s2 is not None else None
        if st is None:
            return []
        return [(st, App("call", (f,) + tuple(self.reify(a, st) for a in args)))]

    def instantiate(self, c, args, kw, st, node):
        ov = self.overrides.get(c.name) or self.overrides.get("new:" + c.name)
        if ov is not None:
            r = ov(self, c, args, kw, st, node)
            if r is not None:
                return r
        if any(isinstance(b, Ext) and b.path in ("builtins.Exception", "builtins.ValueError", "builtins.BaseException") for k in self.mro(c) if isinstance(k, Cls) for b in k.bases):
            return [(st, App("exc", (Const(c.name),)))]
        i = next(_counter)
        st = st.put(i, HInst(c, {}))
        if self.in_init:
            self.global_ids.setdefault(i, "module-level object")
        init = self.class_attr(c, "__init__", st)
        ref = Ref(i)
        if isinstance(init, Fn):
            out = []
            for x, v in self.call_fn(init, [ref] + list(args), kw, st, node):
                out.append((x, v if self.is_exit(v) else ref))
            return out
        # named tuples and data classes
        fields = [n.target.id for n in self.class_fields(c)]
        if fields and (args or kw):
            attrs = dict(zip(fields, args))
            attrs.update(kw)
            for n in self.class_fields(c):
                if n.target.id not in attrs:
                    d = self.class_attr(c, n.target.id, st)
                    if d is not None:
                        attrs[n.target.id] = d
            st = st.put(i, HInst(c, attrs))
        return [(st, ref)]

    def class_fields(self, c):
        for m in self.modules.values():
            if m.name == c.module:
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.ClassDef) and n.name == c.name and n.lineno == c.line:
                        return [s for s in n.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        return []

    max_depth = 40

    def call_fn(self, fn, args, kw, st, node, inline_gen=False):
        name = fn.qual.split(".")[-1].split(":")[-1]
        ov = self.overrides.get(fn.qual) or self.overrides.get("fn:" + name)
        if ov is not None:
            r = ov(self, fn, args, kw, st, node)
            if r is not None:
                return r
        if fn.kind == "ctxm" and not inline_gen:
            return [(st, Partial(fn, tuple(args), (("%ctxm", TRUE),) + tuple(kw.items())))]
        depth = sum(1 for s in self.stack if s[0] == fn.qual)
        if depth >= 4 or len(self.stack) > self.max_depth:
            self.notes.append("recursion cut: %s" % fn.qual)
            st = self.emit("recursion", (Const(fn.qual),), st, node)
            return [(st, App("rec:" + fn.qual, tuple(args)))]
        bound = self.bind_args(fn, args, kw, st, node)
        if bound is None:
            self.emit("badcall", (Const(fn.qual),), st, node)
            return [(st, self.Exit("TypeError"))]
        st, vars_ = bound
        self.functions_seen.add((fn.module, fn.qual))
        m = self.modules[fn.module]
        env = next(_counter)
        from .engine import Exit, has_yield, names_loaded
        if fn.cls is not None:
            vars_["%cls"] = fn.cls
            if args:
                vars_["%self"] = args[0]
        else:
            # nested functions: super() of the enclosing method
            pass
        gen = None
        isgen = has_yield(fn.node)
        if isgen and not inline_gen:
            st, gen = self.new_coll(st, "iter", ())
            vars_["%gen"] = gen
        elif inline_gen:
            vars_["%gen"] = NONE
        pre = st
        st = st.put(env, HEnv(vars_, fn.env, fn.qual))
        self.stack.append((fn.qual, m))
        try:
            outs = self.exec_block(fn.node.body, st, env, frozenset())
        finally:
            self.stack.pop()
        res = []
        for k, x, v in outs:
            if k == "normal":
                res.append((x, gen if gen is not None else NONE))
            elif k == "return":
                res.append((x, gen if gen is not None else rename(v, x.subst)))
            elif k == "raise":
                res.append((x, Exit("raise", v)))
            elif k == "unwind":
                res.append((x, Exit("unwind", v)))
            else:
                res.append((x, NONE))
        # the environment of the call is garbage unless a closure was made in it
        if env not in self._captured:
            res2 = []
            for x, v in res:
                h = dict(x.heap)
                h.pop(env, None)
                res2.append((State(x.guards, x.subst, h, x.trace), v))
            res = res2
        return self.merge_results(pre, res)

    def merge_results(self, pre, res):
        if len(res) < 2:
            return res
        groups = {}
        for x, v in res:
            try:
                groups.setdefault(v, []).append(x)
            except TypeError:
                groups.setdefault(id(v), []).append(x)
        if len(groups) == len(res):
            return res
        out = []
        allsame = len(groups) == 1
        for v, xs in groups.items():
            if self.is_exit(v):
                out += [(x, v) for x in xs]
                continue
            if len(xs) > 1:
                xs = self.merge(pre, xs, frozenset(), -1, exhaustive=allsame, roots=(v,))
            out += [(x, v) for x in xs]
        return out

    def bind_args(self, fn, args, kw, st, node):
        a = fn.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        for n, v in zip(names, args):
            out[n] = v
        extra = args[len(names):]
        if a.vararg:
            out[a.vararg.arg] = Tup(tuple(extra))
        elif extra:
            return None
        kwo = [p.arg for p in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k.startswith("%"):
                continue
            if k in names or k in kwo:
                out[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            st, r = self.new_coll(st, "dict", tuple((Const(k), v) for k, v in rest.items()))
            out[a.kwarg.arg] = r
        elif rest:
            return None
        for n in names + kwo:
            if n not in out:
                d = (fn.defaults or {}).get(n)
                if d is None:
                    return None
                out[n] = d
        return st, out

    # ------------------------------------------------------------------ operators
    def e_BinOp(self, e, st, env):
        out = []
        for x, vs in self.ev_list([e.left, e.right], st, env):
            if self.is_exit(vs):
                out.append((x, vs))
            else:
                out += self.binop(e.op, vs.items[0], vs.items[1], x, e)
        return out

    def binop(self, op, a, b, st, node):
        n = type(op).__name__
        if n == "Mod" and isinstance(a, Const) and isinstance(a.v, str):
            args = list(b.items) if isinstance(b, Tup) else [b]
            if all(isinstance(x, (Const, IRI)) for x in args):
                try:
                    return [(st, Const(a.v % tuple(x.v for x in args)))]
                except Exception as ex:
                    return [(st, self.Exit(type(ex).__name__))]
            want = len(re.findall(r"%[^%]", a.v.replace("%%", "")))
            if want != len(args):
                self.emit("badformat", (a,), st, node)
                return [(st, self.Exit("TypeError"))]
            return [(st, App("fmt", (a,) + tuple(self.fold_args(args, st))))]
        if isinstance(a, Const) and isinstance(b, Const):
            import operator as o
            f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv, "Mod": o.mod, "Pow": o.pow,
                 "BitOr": o.or_, "BitAnd": o.and_, "BitXor": o.xor, "LShift": o.lshift, "RShift": o.rshift}.get(n)
            if f:
                try:
                    if n == "Pow" and (abs(b.v) > 4096):
                        raise ValueError
                    return [(st, Const(f(a.v, b.v)))]
                except Exception as ex:
                    return [(st, self.Exit(type(ex).__name__))]
        if isinstance(a, Tup) and isinstance(b, Tup) and n == "Add":
            return [(st, Tup(a.items + b.items))]
        if n == "Mult":
            for u, w in ((a, b), (b, a)):
                if isinstance(w, Const) and isinstance(w.v, int) and isinstance(u, Ref) and isinstance(st.heap.get(u.id), HColl) and st.heap[u.id].exact:
                    return [self.new_coll(st, st.heap[u.id].kind, st.heap[u.id].items * w.v)]
        if isinstance(a, GraphV) or isinstance(b, GraphV):
            return [(st, App(n, (a, b)))]
        if n in ("Add", "BitOr"):
            ca, cb = self.as_coll(a, st), self.as_coll(b, st)
            if ca is not None and cb is not None:
                c = self.union(ca, cb, ca.kind, st)
                if c.kind == "tuple" and c.exact:
                    return [(st, Tup(c.items))]
                return [self.put_coll(st, c)]
        if n in ("Sub", "BitAnd", "BitXor"):
            ca, cb = self.as_coll(a, st), self.as_coll(b, st)
            if ca is not None and cb is not None and n != "BitXor":
                return [self.put_coll(st, self.filter_coll(ca, cb, st, n == "BitAnd"))]
        if n in ("Mod", "FloorDiv", "Div") and isinstance(b, Const) and b.v == 0:
            return [(st, self.Exit("ZeroDivisionError"))]
        return [(st, App(n, (a, b)))]

    def union(self, a, b, kind, st):
        if a.exact and b.exact:
            ai = a.items if not (a.kind == "dict" and kind != "dict") else tuple(k for k, _ in a.items)
            bi = b.items if not (b.kind == "dict" and kind != "dict") else tuple(k for k, _ in b.items)
            if kind == "dict":
                d = dict(ai)
                d.update(dict(bi))
                return exact("dict", tuple(d.items()))
            items = ai + bi
            if kind == "set":
                items = tuple(dict.fromkeys(items))
            return HColl(kind, True, items, 0)
        a2, b2 = self.inexact(a, st), self.inexact(b, st)
        scope = min([c.scope for c in (a, b) if not c.exact] or [0])
        return HColl(kind, False, a2.items + tuple(e for e in b2.items if e not in a2.items), scope, (),
                     a2.opaque + tuple(k for k in b2.opaque if k not in a2.opaque), a.dflt)

    def filter_coll(self, a, b, st, keep):
        """Intersection (keep) or difference."""
        if a.exact and b.exact and all(self.const_key(x) for x in a.items) and all(self.const_key(x) for x in b.items):
            return exact(a.kind, [x for x in a.items if (x in b.items) == keep])
        out = []
        a2 = self.inexact(a)
        scope = a.scope if not a.exact else next(_counter)
        for e in a2.items:
            r = self.bind_entry(e, HColl(a.kind, False, (), scope), st)
            if r is None:
                continue
            y, val, _ = r
            f = self.in_coll(b, val, y)
            for z in self.assume(y, f, keep):
                gs = self.extra_guards(z, st)
                out.append(Entry(rename(val, z.subst), gs))
        return HColl(a.kind, False, tuple(out), scope, (), a2.opaque)

    # ------------------------------------------------------------------ iteration
    def iter_of(self, v, st, node):
        """-> [(state, HColl | Exit)]"""
        v = rename(v, st.subst)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if v.id in self.special and isinstance(o, HColl):
                x = fresh("b")
                i = next(_counter)
                return [(st, HColl("iter", False, (), i, st.guards, (("buffer", self.special[v.id], v),)))]
            if isinstance(o, HColl):
                if o.kind == "dict" and not o.exact and len(o.items) > 1 and all(e.multi for e in o.items):
                    i = next(_counter)
                    x = fresh("k")
                    f = self.in_coll(o, x, st)
                    if isinstance(f, BF) and f.op == "lit" and f.args[0][0] == "hask":
                        return [(st, HColl("list", False, (Entry(x, ((True, f.args[0]),)),), i, st.guards))]
                if o.kind == "dict" and not o.exact:
                    return [(st, HColl("list", False, tuple(Entry(e.value.items[0], e.guards) for e in o.items), o.scope, o.base, o.opaque))]
                return [(st, o)]
            if isinstance(o, HInst):
                m = self.class_attr(o.cls, "__iter__", st)
                if isinstance(m, Fn):
                    out = []
                    for x, r in self.call(self.bind(m, v, o.cls), [], {}, st, node):
                        if self.is_exit(r):
                            out.append((x, r))
                        else:
                            out += self.iter_of(r, x, node)
                    return out
            return [(st, HColl("iter", False, (), next(_counter), st.guards, (("iter", v),)))]
        if isinstance(v, Tup):
            return [(st, exact("tuple", v.items))]
        if isinstance(v, GraphV):
            return [(st, self.graph_coll(v, (NONE, NONE, NONE), "spo"))]
        if isinstance(v, Slot):
            return [(st, self.slot_coll(v, st))]
        if isinstance(v, Const):
            if v.v is None or isinstance(v.v, (int, float, bool)):
                return [(st, self.Exit("TypeError"))]
            try:
                return [(st, exact("list", [Const(x) for x in v.v]))]
            except TypeError:
                return [(st, self.Exit("TypeError"))]
        if isinstance(v, App) and v.fn == "lookup" and isinstance(v.args[0], Ref):
            o = st.heap.get(v.args[0].id)
            if isinstance(o, HColl) and o.exact:
                es = []
                ok = True
                for k, w in o.items:
                    c = self.as_coll(w, st)
                    if c is None or not c.exact:
                        ok = False
                        break
                    for it in c.items:
                        es.append(Entry(it, ((True, ("eq", v.args[1], k)),)))
                if ok and len(es) > 8 and all(self.const_key(e.value) and self.const_key(e.guards[0][1][2]) for e in es):
                    # the pairs of the table, as a relation
                    i = next(_counter)
                    x = fresh("t")
                    pairs = frozenset(Tup((e.guards[0][1][2], e.value)) for e in es)
                    return [(st, HColl("list", False, (Entry(x, ((True, ("memb", Tup((v.args[1], x)), pairs)),)),), i, st.guards))]
                if ok:
                    return [(st, HColl("list", False, tuple(es), next(_counter), st.guards))]
        if isinstance(v, App) and v.fn == "*" and len(v.args) == 1:
            # f(*xs), where f runs through each of its arguments
            out = []
            for x, r in self.x_chain_from([v.args[0]], {}, st, node):
                out += self.iter_of(r, x, node)
            return out
        if isinstance(v, App) and v.fn == "range":
            i = next(_counter)
            x = fresh("i")
            return [(st, HColl("list", False, (Entry(x, ((True, ("range", v.args, x)),)),), i, st.guards))]
        i = next(_counter)
        return [(st, HColl("iter", False, (), i, st.guards, (("iter", v),)))]

    def as_coll(self, v, st):
        v = rename(v, st.subst)
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), HColl):
            return st.heap[v.id]
        if isinstance(v, Tup):
            return exact("tuple", v.items)
        if isinstance(v, Slot):
            return self.slot_coll(v, st)
        return None

    def slot_coll(self, v, st):
        o = st.heap[v.ref.id]
        if o.exact:
            for k, w in o.items:
                if k == v.key:
                    c = self.as_coll(w, st)
                    if c is not None:
                        return c
            return exact("set", ())
        scope = next(_counter)
        es = []
        for e in o.items:
            if not e.multi:
                continue
            b = self.bind_entry(e, o, st)
            if b is None:
                continue
            y, val, elems = b
            k, w = val.items
            for z in self.assume(y, self.eq(k, rename(v.key, y.subst), y), True):
                gs = self.extra_guards(z, st)
                es.append(Entry(rename(w, z.subst), gs))
        return HColl("set", False, tuple(es), scope, st.guards, tuple(("slot", k, v.key) for k in o.opaque))

    def pick(self, v, st, key, node):
        """One arbitrary element of a collection: [(state, value)]"""
        out = []
        for x, c in self.iter_of(v, st, node):
            if self.is_exit(c):
                continue
            if c.exact:
                items = [k for k, _ in c.items] if c.kind == "dict" else c.items
                if items:
                    out.append((x, items[0]))
                continue
            for e in c.items:
                b = self.bind_entry(e, c, x)
                if b is None:
                    continue
                y, val, elems = b
                y = self.add(y, True, ("opq", ("pick",) + tuple(key)))
                if y is not None:
                    out.append((y, val))
            for k in c.opaque:
                w = fresh("e")
                y = self.add(x, True, ("elem", k, w))
                if y is not None:
                    out.append((y, w))
        return out

    # ------------------------------------------------------------------ graphs
    def graph_all(self, g, v, kind, quads, st, node):
        """All the triples of v are added (or removed)."""
        for x, c in self.iter_of(v, st, node):
            if self.is_exit(c):
                continue
            if c.exact:
                for t in c.items:
                    x = self.emit(kind, (g, self.triple_of(t, quads, x)), x, node)
                if len(list(self.iter_of(v, st, node))) == 1:
                    return x
                continue
            for e in c.items:
                b = self.bind_entry(e, c, x)
                if b is not None:
                    self.emit(kind, (g, self.triple_of(b[1], quads, b[0])), b[0], node)
            if c.opaque:
                self.emit("gaddall", (g, v), x, node)
        return st

    def triple_of(self, t, quads, st):
        c = self.as_coll(t, st)
        if c is not None and c.exact:
            return Tup(tuple(c.items)[:3] if quads else tuple(c.items))
        return t

    def graph_coll(self, g, pat, what):
        scope = next(_counter)
        if g.role in self.concrete:
            items = []
            for t in self.concrete[g.role][0]:
                if all((isinstance(v, Const) and v.v is None) or v == x for v, x in zip(pat, t)):
                    items.append({"spo": Tup(t), "s": t[0], "p": t[1], "o": t[2], "so": Tup((t[0], t[2])), "po": Tup(t[1:]), "sp": Tup(t[:2])}[what])
            return exact("iter", items)
        spo = []
        for v, h in zip(pat, "spo"):
            if isinstance(v, Const) and v.v is None:
                v = fresh(h)
            spo.append(v)
        sel = {"spo": Tup(tuple(spo)), "s": spo[0], "p": spo[1], "o": spo[2], "so": Tup((spo[0], spo[2])),
               "po": Tup((spo[1], spo[2])), "sp": Tup((spo[0], spo[1]))}[what]
        return HColl("iter", False, (Entry(sel, ((True, ("in", g.role, tuple(spo))),)),), scope, ())

    GSEL = {"subjects": ("s", "po"), "objects": ("o", "sp"), "predicates": ("p", "so"), "subject_objects": ("so", "p"),
            "predicate_objects": ("po", "s"), "subject_predicates": ("sp", "o")}
    GARGN = {"s": "subject", "p": "predicate", "o": "object"}

    def method(self, recv, name, args, kw, st, node):
        if isinstance(recv, GraphV):
            return self.graph_method(recv, name, args, kw, st, node)
        if isinstance(recv, Ref):
            o = st.heap.get(recv.id)
            if isinstance(o, HColl):
                return self.coll_method(recv, name, args, kw, st, node)
            if isinstance(o, HTable):
                return self.table_method(recv, name, args, kw, st, node)
        if isinstance(recv, Slot):
            return self.coll_method(recv, name, args, kw, st, node)
        if isinstance(recv, SuperV):
            if name in ("__init__", "__setattr__", "__init_subclass__", "__enter__", "__exit__"):
                if name == "__setattr__" and isinstance(args[0], Const):
                    return [(self.set_attr(st, recv.self, args[0].v, args[1], node), NONE)]
                return [(st, NONE)]
            return [(st, App("super." + name, tuple(args)))]
        if isinstance(recv, Ext) and recv.path.startswith("ns:"):
            return self.get_item(recv, args[0], st, node) if args else [(st, App("ns", (recv,)))]
        if isinstance(recv, Const):
            return self.const_method(recv, name, args, kw, st, node)
        if isinstance(recv, IRI):
            if all(isinstance(a, Const) for a in args) and hasattr(str, name):
                try:
                    return [(st, Const(getattr(str, name)(recv.v, *[a.v for a in args])))]
                except Exception:
                    pass
            return [(st, App("m:" + name, (recv,) + tuple(args)))]
        if isinstance(recv, (Fn, Bound)):
            return [(st, App("m:" + name, (recv,) + tuple(args)))]
        return self.value_method(recv, name, args, kw, st, node)

    def const_method(self, recv, name, args, kw, st, node):
        if name == "format" and isinstance(recv.v, str):
            allv = list(args) + list(kw.values())
            if all(isinstance(a, (Const, IRI)) for a in allv):
                try:
                    return [(st, Const(recv.v.format(*[a.v for a in args], **{k: v.v for k, v in kw.items()})))]
                except Exception as ex:
                    return [(st, self.Exit(type(ex).__name__))]
            return [(st, App("fmt", (recv,) + tuple(self.fold_args(allv, st))))]
        if name == "join" and isinstance(recv.v, str) and args:
            c = self.as_coll(args[0], st)
            if c is not None and c.exact and all(isinstance(i, (Const, IRI)) for i in c.items):
                try:
                    return [(st, Const(recv.v.join(i.v for i in c.items)))]
                except TypeError:
                    pass
            if c is not None and c.exact:
                return [(st, App("fmt", (recv,) + tuple(self.fold_args(c.items, st))))]
            return [(st, App("join", (recv,) + tuple(args)))]
        if name in ("startswith", "endswith") and args and isinstance(args[0], Tup) and all(isinstance(a, (Const, IRI)) for a in args[0].items):
            args = [Const(tuple(a.v for a in args[0].items))] + list(args[1:])
        if all(isinstance(a, Const) for a in args) and not kw:
            try:
                r = getattr(recv.v, name)(*[a.v for a in args])
                if isinstance(r, list):
                    return [self.new_coll(st, "list", [Const(x) for x in r])]
                if isinstance(r, tuple):
                    return [(st, Tup(tuple(Const(x) for x in r)))]
                return [(st, Const(r))]
            except Exception as ex:
                return [(st, self.Exit(type(ex).__name__))]
        return [(st, App("m:" + name, (recv,) + tuple(args)))]

    def value_method(self, recv, name, args, kw, st, node):
        """A method of an opaque value."""
        if name in ("__eq__", "__ne__") and len(args) == 1:
            f = self.eq(recv, args[0], st)
            return [(st, f if name == "__eq__" else f_not(f))]
        if name == "__hash__":
            return [(st, App("hash", (recv,)))]
        if isinstance(recv, App) and recv.fn == "call:re.compile" and name in ("match", "fullmatch", "search", "findall", "finditer", "sub"):
            return self.call_ext("re." + name, [recv.args[0]] + list(args) + list(recv.args[1:]), kw, st, node)
        if isinstance(recv, App) and recv.fn == "re" and name in ("groups", "group", "groupdict", "__getitem__"):
            if name == "groups":
                return [(st, App("call:re.groups", recv.args))]
            if name == "group":
                if len(args) <= 1:
                    return [(st, App("group", recv.args + (args[0] if args else Const(0),)))]
                return [(st, Tup(tuple(App("group", recv.args + (a,)) for a in args)))]
        vals = tuple(self.reify(a, st) for a in args)
        if name == "format" and not kw:
            return [(st, App("fmt", (recv,) + vals))]
        r = App("m:" + name, (recv,) + vals + tuple(kw[k] for k in sorted(kw)))
        if name in ("startswith", "endswith", "isalnum", "isdigit", "isalpha", "isspace", "isdecimal", "isnumeric"):
            return [(st, lit("opq", ("mtrue", Const(name), recv) + vals))]
        if name in ("index", "rindex") or (name == "decode"):
            s2 = self.mayraise(st, "ValueError", (name, recv) + vals, node)
            return [(s2, r)] if s2 is not None else []
        if isinstance(recv, App) and recv.fn == "restriction":
            # a value may not be comparable with the value of a facet
            s2 = self.mayraise(st, "TypeError" if name == "checkValue" else "ValueError", (name, recv) + vals, node)
            return [(s2, r)] if s2 is not None else []
        if name not in STRSAFE:
            st = self.emit("methodcall", (recv, Const(name), Tup(vals)), st, node)
        return [(st, r)]

    def graph_method(self, g, name, args, kw, st, node):
        def arg(i, n):
            v = args[i] if i < len(args) else kw.get(n, NONE)
            return v
        if name == "triples":
            t = args[0]
            if isinstance(t, Ref) and isinstance(st.heap.get(t.id), HColl) and st.heap[t.id].exact:
                t = Tup(st.heap[t.id].items)
            if isinstance(t, Tup) and len(t.items) == 3:
                return [self.put_coll(st, self.graph_coll(g, t.items, "spo"))]
            return [(st, App("triples", (g, t)))]
        if name in self.GSEL:
            what, names = self.GSEL[name]
            pat = dict(s=NONE, p=NONE, o=NONE)
            for i, n in enumerate(names):
                pat[n] = arg(i, self.GARGN[n])
            return [self.put_coll(st, self.graph_coll(g, (pat["s"], pat["p"], pat["o"]), what))]
        if name == "value":
            s, p, o = arg(0, "subject"), arg(1, "predicate") if (len(args) > 1 or "predicate" in kw) else IRI(PFXI["rdf"] + "value"), arg(2, "object")
            dflt = arg(3, "default")
            holes = [i for i, v in enumerate((s, p, o)) if v == NONE]
            if g.role in self.concrete and len(holes) == 1:
                r = self.graph_coll(g, (s, p, o), "spo"[holes[0]]).items
                return [(st, r[0] if r else dflt)]
            if len(holes) != 1:
                return [(st, App("value", (g, s, p, o)))]
            what = "spo"[holes[0]]
            c = self.graph_coll(g, (s, p, o), what)
            out = []
            for e in c.items:
                y, val, elems = self.bind_entry(e, c, st)
                y2 = self.add(y, True, ("opq", ("pick", "value", node.lineno, node.col_offset)))
                if y2 is not None:
                    out.append((y2, val))
            f = f_or(*[self.exists(e, st, c) for e in c.items])
            out += [(y, dflt) for y in self.assume(st, f, False)]
            return out
        if name == "items" and args:
            return self.list_items(g, args[0], st, node)
        if name in ("add", "remove"):
            t = args[0]
            if isinstance(t, Ref) and isinstance(st.heap.get(t.id), HColl) and st.heap[t.id].exact:
                t = Tup(st.heap[t.id].items)
            return [(self.emit("gadd" if name == "add" else "gremove", (g, t), st, node), g)]
        if name == "set":
            t = args[0]
            st = self.emit("gremove", (g, Tup(t.items[:2] + (NONE,)) if isinstance(t, Tup) else t), st, node)
            return [(self.emit("gadd", (g, t), st, node), g)]
        if name in ("addN", "__iadd__", "update", "__isub__"):
            return [(self.graph_all(g, args[0], "gremove" if name == "__isub__" else "gadd", name == "addN", st, node), g)]
        if name in ("transitive_objects", "transitive_subjects", "transitiveClosure"):
            return [(st, App(name, (g,) + tuple(args)))]
        if name == "__contains__":
            return [(x, f) for x, f in self.contains(g, args[0], st, node)]
        if name == "__len__":
            return [(st, App("len", (g,)))]
        if name in ("get_context", "graph", "get_graph"):
            return [(st, GraphV("%s.ctx:%r" % (g.role, args[0] if args else next(iter(kw.values()), NONE)), "plain"))]
        if name in ("bind", "parse", "serialize", "remove_graph", "close", "commit", "add_graph", "query", "update"):
            pay = (g,) + tuple(self.reify(a, st) for a in args) + tuple(Tup((Const(k), self.reify(kw[k], st))) for k in sorted(kw))
            st = self.emit("g" + name, pay, st, node)
            if name == "parse" and st is not None:
                pass
            return [(st, App("g" + name, pay))]
        if name == "collection":
            return self.list_items(g, args[0], st, node)
        self.notes.append("graph method %s" % name)
        return [(self.emit("gmethod", (g, Const(name)) + tuple(args), st, node), App("g:" + name, (g,) + tuple(args)))]

    def list_items(self, g, head, st, node):
        """The elements of an RDF list: one path per length."""
        head = rename(head, st.subst)
        if g.role in self.concrete and head in self.concrete[g.role][1]:
            return [self.new_coll(st, "iter", self.concrete[g.role][1][head])]
        for p, l in st.guards:
            if p and l[0] == "list" and l[1] == head:
                return [self.new_coll(st, "iter", l[2])]
        out = []
        for n in self.listlens:
            elems = tuple(fresh("l") for _ in range(n))
            x = self.add(st, True, ("list", head, elems))
            if x is None:
                continue
            out.append(self.new_coll(x, "iter", elems))
        # a circular list makes rdflib raise a ValueError
        if self.try_stack:
            x = self.add(st, True, ("opq", ("raises", "ValueError", "items", head)))
            if x is not None:
                self.try_stack[-1].append(("raise", x, App("exc", (Const("ValueError"),))))
        else:
            self.emit("mayraise", (Const("ValueError"), Const("a circular list"), head), st, node)
        return out

    # ------------------------------------------------------------------ collections
    not_methods = {"list": frozenset("add discard update union difference intersection issubset issuperset isdisjoint get items keys values setdefault".split()),
                   "set": frozenset("append extend insert sort reverse index count get items keys values setdefault".split()),
                   "dict": frozenset("add append extend discard remove insert sort reverse index count".split())}

    def coll_method(self, recv, name, args, kw, st, node):
        if isinstance(recv, Slot):
            return self.slot_method(recv, name, args, kw, st, node)
        if isinstance(recv, Ref) and isinstance(st.heap.get(recv.id), HTable):
            return self.table_method(recv, name, args, kw, st, node)
        rid = recv.id
        o = st.heap[rid]
        role = self.special.get(rid)
        if role:
            return self.special_method(recv, role, name, args, kw, st, node)
        if not o.tag and not o.dflt and name in self.not_methods.get(o.kind, ()):
            st = self.mayraise(st, "AttributeError", (name, recv), node)
            if st is None:
                return []
        if name in ("append", "add", "insert", "appendleft"):
            v = args[-1]
            self.mutated(st, rid, node, name)
            if name == "insert" and o.exact and isinstance(args[0], Const) and isinstance(args[0].v, int):
                items = list(o.items)
                items.insert(args[0].v, v)
                return [(st.put(rid, HColl(o.kind, True, tuple(items), o.scope, o.base, o.opaque, o.dflt, o.tag)), NONE)]
            if name == "appendleft" and o.exact:
                return [(st.put(rid, HColl(o.kind, True, (v,) + o.items, o.scope, o.base, o.opaque, o.dflt, o.tag)), NONE)]
            return [(self.coll_add(st, recv, v, o.kind == "set"), NONE)]
        if name in ("extend", "update", "extendleft", "__ior__", "__iadd__"):
            self.mutated(st, rid, node, name)
            cur = [st]
            for a in args:
                nxt = []
                for x in cur:
                    if o.kind == "dict":
                        c = self.as_coll(a, x)
                        if c is not None and c.kind == "dict" and c.exact and x.heap[rid].exact:
                            for k, v in c.items:
                                x = self.set_item(x, recv, k, v, node)
                            nxt.append(x)
                            continue
                    for y, c in self.iter_of(a, x, node):
                        if self.is_exit(c):
                            continue
                        nxt.append(self.extend(y, rid, c, o.kind))
                cur = nxt
            for k, v in kw.items():
                cur = [self.set_item(x, recv, Const(k), v, node) for x in cur]
            return [(x, NONE) for x in cur]
        if name in ("union", "__or__"):
            c = o
            for a in args:
                for y, k in self.iter_of(a, st, node):
                    c = self.union(c, k, o.kind, st)
                    st = y
            return [self.put_coll(st, c)]
        if name in ("intersection", "difference") and len(args) == 1:
            for y, k in self.iter_of(args[0], st, node):
                return [self.put_coll(y, self.filter_coll(o, k, y, name == "intersection"))]
        if name == "isdisjoint" and len(args) == 1:
            k = self.as_coll(args[0], st)
            if k is not None and not k.opaque:
                c = self.filter_coll(self.inexact(o), k, st, True)
                y, r = self.put_coll(st, c)
                return [(y, f_not(self.truth(r, y)))]
        if name in ("issubset", "issuperset") and len(args) == 1:
            k = self.as_coll(args[0], st)
            if k is not None and not k.opaque:
                a, b = (o, k) if name == "issubset" else (k, o)
                if a.exact:
                    return [(st, f_and(*[self.in_coll(b, x, st) for x in a.items]))]
                c = self.filter_coll(self.inexact(a), b, st, False)
                y, r = self.put_coll(st, c)
                return [(y, f_not(self.truth(r, y)))]
        if name == "clear":
            self.mutated(st, rid, node, name)
            return [(st.put(rid, HColl(o.kind, True, (), o.scope, st.guards, (), o.dflt, o.tag)), NONE)]
        if name == "copy":
            return [self.put_coll(st, o)]
        if name in ("sort", "reverse"):
            self.mutated(st, rid, node, name)
            if name == "reverse" and o.exact:
                st = st.put(rid, HColl(o.kind, True, o.items[::-1], o.scope, o.base, o.opaque, o.dflt, o.tag))
            return [(st, NONE)]
        if name in ("remove", "discard"):
            self.mutated(st, rid, node, name)
            if o.exact and all(self.const_key(x) for x in o.items) and self.const_key(args[0]):
                if args[0] in o.items:
                    items = list(o.items)
                    items.remove(args[0])
                    return [(st.put(rid, HColl(o.kind, True, tuple(items), o.scope, o.base, o.opaque, o.dflt, o.tag)), NONE)]
                return [(st, NONE if name == "discard" else self.Exit("ValueError"))]
            return [(self.forget(st, rid, name), NONE)]
        if name in ("pop", "popleft", "popitem"):
            self.mutated(st, rid, node, name)
            if o.kind == "dict" and args:
                res = self.dict_get(recv, o, args[0], st, node, args[1] if len(args) > 1 else None)
                out = []
                for x, v in res:
                    oo = x.heap[rid]
                    if oo.exact and self.const_key(args[0]):
                        x = x.put(rid, HColl("dict", True, tuple((a, b) for a, b in oo.items if a != args[0]), oo.scope, oo.base, oo.opaque, oo.dflt, oo.tag))
                    else:
                        x = self.forget(x, rid, "pop")
                    out.append((x, v))
                return out
            if o.exact and o.kind in ("list", "iter", "tuple", "set"):
                if not o.items:
                    return [(st, self.Exit("IndexError"))]
                i = args[0].v if args and isinstance(args[0], Const) else (0 if name == "popleft" or o.kind == "set" else -1)
                if -len(o.items) <= i < len(o.items):
                    items = list(o.items)
                    v = items.pop(i)
                    return [(st.put(rid, HColl(o.kind, True, tuple(items), o.scope, o.base, o.opaque, o.dflt, o.tag)), v)]
                return [(st, self.Exit("IndexError"))]
            out = []
            for y, v in self.pick(recv, st, ("pop", node.lineno), node):
                out.append((y, v))
            for y in self.assume(st, self.truth(recv, st), False):
                out.append((y, self.Exit("IndexError")))
            return out
        if o.kind == "dict":
            if name == "get":
                return self.dict_get(recv, o, args[0], st, node, args[1] if len(args) > 1 else NONE)
            if name == "setdefault":
                if o.exact and self.const_key(args[0]):
                    for a, b in o.items:
                        if a == args[0]:
                            return [(st, b)]
                    d = args[1] if len(args) > 1 else NONE
                    return [(self.set_item(st, recv, args[0], d, node), d)]
                # a mapping of collections: from now on as a default dictionary
                d = args[1] if len(args) > 1 else NONE
                if isinstance(d, Ref) and isinstance(st.heap.get(d.id), HColl) and st.heap[d.id].exact and not st.heap[d.id].items:
                    o2 = self.inexact(o)
                    st = st.put(rid, HColl("dict", False, o2.items, o2.scope, o2.base, o2.opaque, True, o2.tag))
                    return [(st, Slot(recv, args[0]))]
                out = []
                for x, v in self.dict_get(recv, o, args[0], st, node, App("%missing")):
                    if v == App("%missing"):
                        out.append((self.set_item(x, recv, args[0], d, node), d))
                    else:
                        out.append((x, v))
                return out
            if name in ("items", "keys", "values", "iteritems"):
                return [self.dict_view(recv, o, name, st)]
            if name == "fromkeys":
                pass
        if name in ("index",):
            if o.exact:
                out, cur = [], [st]
                for i, it in enumerate(o.items):
                    nxt = []
                    for x in cur:
                        f = self.eq(it, args[0], x)
                        out += [(y, Const(i)) for y in self.assume(x, f, True)]
                        nxt += self.assume(x, f, False)
                    cur = nxt
                return out + [(x, self.Exit("ValueError")) for x in cur]
        if name == "__contains__":
            return self.contains(recv, args[0], st, node)
        if name == "__len__":
            return self.call_ext("builtins.len", [recv], {}, st, node)
        if name == "__getitem__":
            return self.get_item(recv, args[0], st, node)
        if name == "__iter__":
            return [(st, recv)]
        if name == "count" and o.exact and all(self.const_key(x) for x in o.items) and self.const_key(args[0]):
            return [(st, Const(o.items.count(args[0])))]
        if name == "difference_update":
            self.mutated(st, rid, node, name)
            for y, k in self.iter_of(args[0], st, node):
                c = self.filter_coll(o, k, y, False)
                return [(y.put(rid, HColl(o.kind, c.exact, c.items, c.scope, o.base, c.opaque, o.dflt, o.tag)), NONE)]
        self.notes.append("collection method %s" % name)
        return [(st, App("m:" + name, (recv,) + tuple(args)))]

    def extend(self, st, rid, c, kind):
        o = st.heap[rid]
        items = c.items
        if c.kind == "dict" and kind != "dict" and c.exact:
            items = tuple(k for k, _ in c.items)
        if o.exact and c.exact:
            new = o.items + tuple(items)
            if kind == "dict":
                d = dict(o.items)
                for it in items:
                    if isinstance(it, tuple):
                        d[it[0]] = it[1]
                    elif isinstance(it, Tup) and len(it.items) == 2:
                        d[it.items[0]] = it.items[1]
                new = tuple(d.items())
            if kind == "set":
                new = tuple(dict.fromkeys(new))
            return st.put(rid, HColl(o.kind, True, new, o.scope, o.base, o.opaque, o.dflt, o.tag))
        o2 = self.inexact(o, st)
        dl = self.delta(st, o)
        ents = []
        for e in (self.inexact(c).items):
            b = self.bind_entry(e, c if not c.exact else HColl(c.kind, False, (), 1 << 60), st)
            if b is None:
                continue
            y, val, elems = b
            ents.append(Entry(self.freeze(val, y), tuple(g for g in y.guards if g not in o.base), e.multi))
        new = self.grown(st, o2, ents)
        return st.put(rid, HColl(o.kind, False, new, o.scope, o.base, o.opaque + tuple(k for k in c.opaque if k not in o.opaque), o.dflt, o.tag))

    def dict_view(self, ref, o, name, st):
        if o.exact:
            if name == "keys":
                return self.new_coll(st, "list", [k for k, _ in o.items])
            if name == "values":
                return self.new_coll(st, "list", [v for _, v in o.items])
            return self.new_coll(st, "list", [Tup((k, v)) for k, v in o.items])
        es = []
        for e in o.items:
            k, v = e.value.items
            if e.multi:
                v = Slot(ref, k)
            val = k if name == "keys" else v if name == "values" else Tup((k, v))
            es.append(Entry(val, e.guards))
        return self.put_coll(st, HColl("list", False, tuple(es), o.scope, o.base, tuple((name, k) for k in o.opaque)))

    def slot_method(self, slot, name, args, kw, st, node):
        rid = slot.ref.id
        o = st.heap[rid]
        if name in ("add", "append"):
            self.mutated(st, rid, node, name)
            o2 = self.inexact(o)
            e = Entry(Tup((slot.key, args[0])), self.delta(st, o), True)
            items = self.grown(st, o2, [e])
            return [(st.put(rid, HColl("dict", False, items, o2.scope, o2.base, o2.opaque, o2.dflt, o2.tag)), NONE)]
        if name in ("update", "extend"):
            out = []
            for y, c in self.iter_of(args[0], st, node):
                if self.is_exit(c):
                    out.append((y, c))
                    continue
                o2 = self.inexact(y.heap[rid])
                items = []
                for e in self.inexact(c).items:
                    b = self.bind_entry(e, c if not c.exact else HColl(c.kind, False, (), 1 << 60), y)
                    if b is None:
                        continue
                    z, val, elems = b
                    ne = Entry(Tup((rename(slot.key, z.subst), val)), tuple(g for g in z.guards if g not in o2.base), True)
                    items.append(ne)
                out.append((y.put(rid, HColl("dict", False, self.grown(y, o2, items), o2.scope, o2.base, o2.opaque, o2.dflt, o2.tag)), NONE))
            return out
        if name == "copy":
            return [self.put_coll(st, self.slot_coll(slot, st))]
        if name in ("__contains__",):
            return self.contains(slot, args[0], st, node)
        self.notes.append("slot method %s" % name)
        return [(st, App("m:" + name, (slot,) + tuple(args)))]

    # ---- the buffer of stored triples and the list of errors
    def special_method(self, recv, role, name, args, kw, st, node):
        if name in ("add", "append"):
            st = self.emit("store" if role == "buffer" else "error", (args[0],), st, node)
            return [(st, NONE)]
        if name in ("update", "extend"):
            outs = []
            for y, c in self.iter_of(args[0], st, node):
                if self.is_exit(c):
                    continue
                for e in self.inexact(c).items:
                    b = self.bind_entry(e, c if not c.exact else HColl(c.kind, False, (), 1 << 60), y)
                    if b is not None:
                        self.emit("store" if role == "buffer" else "error", (b[1],), b[0], node)
                if self.tracing:
                    y = y.ev(("store", (), self.loc(node)))
                outs.append((y, NONE))
            return outs
        if name == "clear":
            self.emit("bufreset", (Const(role), TRUE), st, node)
            if self.tracing:
                st = st.ev(("reset", role, True, self.loc(node)))
                st = self.bump(st, recv.id)
            return [(st, NONE)]
        if name in ("copy",):
            return [(st, recv)]
        return [(self.emit("bufother", (Const(role), Const(name)), st, node), App("m:" + name, (recv,) + tuple(args)))]

    # ---- process-wide tables followed by their contents
    def content_of(self, v, st):
        if isinstance(v, Tup) and not v.items:
            return ("empty",)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, HTable):
                return o.content
            if isinstance(o, HColl):
                if o.exact and not o.items:
                    return ("empty",)
                if o.exact and o.kind == "dict" and o.tag == "":
                    return ("coll", o.items)
                return ("coll", o.items, o.opaque)
        return ("unknown", v)

    def table_put(self, st, rid, content, node):
        o = st.heap[rid]
        if o.name != "copy" and self.table_event is not None:
            self.table_event(o.name, o.content, content, node, st)
        return st.put(rid, HTable(o.name, content))

    table_event = None

    def table_method(self, recv, name, args, kw, st, node):
        o = st.heap[recv.id]
        if name == "clear":
            return [(self.table_put(st, recv.id, ("empty",), node), NONE)]
        if name in ("update", "extend", "__ior__"):
            c = self.content_of(args[0], st) if args else ("mod", o.content, "kw")
            new = c if o.content == ("empty",) else (o.content if c == o.content else ("mod", o.content, ("update", c)))
            return [(self.table_put(st, recv.id, new, node), NONE)]
        if name == "copy":
            i = next(_counter)
            return [(st.put(i, HTable("copy", o.content)), Ref(i))]
        if name in ("append", "pop", "setdefault", "insert", "remove", "popitem"):
            return [(self.table_put(st, recv.id, ("mod", o.content, (name,) + tuple(args)), node), App("m:" + name, (recv,) + tuple(args)))]
        if name in ("items", "keys", "values"):
            i = next(_counter)
            return [(st.put(i, HTable("copy", (o.content if name == "items" else (name, o.content)))), Ref(i))]
        if name == "get":
            return [(st, App("lookup", (recv,) + tuple(args[:1])))]
        return [(st, App("m:" + name, (recv,) + tuple(args)))]

    # ------------------------------------------------------------------ library functions
    def call_ext(self, path, args, kw, st, node):
        ov = self.overrides.get("ext:" + path)
        if ov is not None:
            r = ov(self, path, args, kw, st, node)
            if r is not None:
                return r
        b = path.split(".", 1)
        if b[0] == "builtins":
            m = getattr(self, "b_" + b[1].replace(".", "_"), None)
            if m is not None:
                return m(args, kw, st, node)
            t = getattr(builtins, b[1], None)
            if isinstance(t, type) and issubclass(t, BaseException):
                return [(st, App("exc", (Const(b[1]),) + tuple(self.reify(a, st) for a in args)))]
        m = self.MODELS.get(path)
        if m is not None:
            return getattr(self, m)(args, kw, st, node)
        if path.startswith("unresolved:"):
            return [(st, self.Exit("NameError"))]
        return self.ext_opaque(path, args, kw, st, node)

    def ext_opaque(self, path, args, kw, st, node):
        vals = tuple(self.reify(a, st) for a in args) + tuple(Tup((Const(k), self.reify(kw[k], st))) for k in sorted(kw))
        for exc in RAISES.get(path, ()):
            if path in ("builtins.int",) and args and self.int_safe(args[0], st):
                continue
            if args and all(isinstance(a, Const) for a in args) and not kw and path in ("re.compile", "decimal.Decimal"):
                continue
            st = self.mayraise(st, exc, (path,) + vals, node)
            if st is None:
                return []
        if path not in RAISES:
            st = self.emit("extcall", (Const(path),) + vals, st, node)
        return [(st, App("call:" + path, vals))]

    def int_safe(self, v, st):
        if isinstance(v, App) and v.fn == "group":
            g = group_info(v.args[0], v.args[-1])
            return bool(g and g[0] >= 1 and g[1])
        return isinstance(v, App) and v.fn in ("len", "int", "Add", "Sub", "Mult", "intge")

    MODELS = {"collections.defaultdict": "x_defaultdict", "itertools.product": "x_product", "itertools.combinations": "x_combinations",
              "itertools.permutations": "x_permutations", "itertools.chain": "x_chain", "itertools.chain.from_iterable": "x_chain_from",
              "itertools.islice": "x_islice", "functools.reduce": "x_reduce", "functools.partial": "x_partial", "itertools.starmap": "x_starmap",
              "copy.copy": "x_copy", "copy.deepcopy": "x_copy", "collections.OrderedDict": "b_dict", "rdflib.URIRef": "x_uriref",
              "rdflib.BNode": "x_bnode", "rdflib.Literal": "x_literal", "rdflib.Namespace": "x_namespace", "rdflib.Graph": "x_graph",
              "rdflib.Dataset": "x_graph", "rdflib.ConjunctiveGraph": "x_graph", "collections.deque": "b_list", "collections.Counter": "b_list",
              "re.match": "x_rematch", "re.fullmatch": "x_refullmatch", "re.search": "x_research", "re.compile": "x_recompile", "operator.itemgetter": "x_itemgetter",
              "rdflib.collection.Collection": "x_collection", "contextlib.suppress": "x_suppress", "itertools.count": "x_count",
              "re.escape": "x_reescape", "typing.cast": "x_second", "itertools.pairwise": "x_pairwise", "itertools.repeat": "x_repeat"}

    def x_second(self, args, kw, st, node):
        return [(st, args[1])]

    def x_suppress(self, args, kw, st, node):
        return [(st, App("contextlib.suppress", tuple(args)))]

    def x_reescape(self, args, kw, st, node):
        if isinstance(args[0], Const):
            return [(st, Const(re.escape(args[0].v)))]
        return [(st, App("call:re.escape", tuple(args)))]

    def x_count(self, args, kw, st, node):
        return [(st, App("range", (args[0] if args else Const(0), NONE)))]

    def x_collection(self, args, kw, st, node):
        if len(args) >= 2 and isinstance(args[0], GraphV):
            return self.list_items(args[0], args[1], st, node)
        return [(st, App("Collection", tuple(args)))]

    def x_repeat(self, args, kw, st, node):
        return [(st, App("repeat", tuple(args)))]

    def x_recompile(self, args, kw, st, node):
        if not isinstance(args[0], Const):
            st = self.mayraise(st, "re.error", ("re.compile",) + tuple(args), node)
            if st is None:
                return []
        return [(st, App("call:re.compile", (self.re_flags(args[0], args[1] if len(args) > 1 else kw.get("flags")),)))]

    RE_FLAGS = {"A": "a", "ASCII": "a", "I": "i", "IGNORECASE": "i", "S": "s", "DOTALL": "s", "M": "m", "MULTILINE": "m", "X": "x", "VERBOSE": "x"}

    def re_flags(self, pat, f):
        """The pattern with its flags written into it."""
        if f is None or f == Const(0):
            return pat
        k = self.RE_FLAGS.get(f.path[3:]) if isinstance(f, Ext) and f.path.startswith("re.") else None
        if isinstance(f, Const) and isinstance(f.v, int):
            k = "".join(b for a, b in ((256, "a"), (2, "i"), (16, "s"), (8, "m"), (64, "x")) if f.v & a) or None
        if k and isinstance(pat, Const):
            return Const("(?%s)" % k + pat.v)
        return App("reflags", (pat, f))

    def x_refullmatch(self, args, kw, st, node):
        return self.x_rematch(args, kw, st, node, "fullmatch")

    def x_research(self, args, kw, st, node):
        return self.x_rematch(args, kw, st, node, "search")

    def x_rematch(self, args, kw, st, node, how="match"):
        pat = args[0]
        if isinstance(pat, App) and pat.fn == "call:re.compile":
            pat = pat.args[0]
        elif len(args) > 2 or "flags" in kw:
            pat = self.re_flags(pat, args[2] if len(args) > 2 else kw.get("flags"))
        s = args[1] if len(args) > 1 else NONE
        if isinstance(pat, Const) and isinstance(s, Const) and isinstance(s.v, str):
            fn = getattr(node, "func", None)
            return [(st, App("re", (pat, s)))]
        key = ("matched", pat, s, Const(how))
        out = []
        t = self.add(st, True, ("opq", key))
        f = self.add(st, False, ("opq", key))
        if t is not None:
            out.append((t, App("re", (pat, s))))
        if f is not None:
            out.append((f, NONE))
        return out

    def x_itemgetter(self, args, kw, st, node):
        return [(st, App("itemgetter", tuple(args)))]

    def x_uriref(self, args, kw, st, node):
        if args and isinstance(args[0], Const) and isinstance(args[0].v, str) and len(args) == 1:
            return [(st, IRI(args[0].v))]
        if args and isinstance(args[0], IRI):
            return [(st, args[0])]
        return [(st, App("URIRef", tuple(args)))]

    def x_bnode(self, args, kw, st, node):
        return [(st, App("BNode", (fresh("bn"),) + tuple(args)))]

    def x_literal(self, args, kw, st, node):
        return [(st, App("Literal", tuple(args) + tuple(Tup((Const(k), kw[k])) for k in sorted(kw))))]

    def x_namespace(self, args, kw, st, node):
        return [(st, Ext("nsobj:" + args[0].v))] if args and isinstance(args[0], Const) else [(st, App("Namespace", tuple(args)))]

    def x_graph(self, args, kw, st, node):
        return [(st, GraphV("graph@%s:%d" % (self.stack[-1][0], getattr(node, "lineno", 0)), "plain"))]

    def x_copy(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, HColl):
                return [self.put_coll(st, o)]
            if isinstance(o, HTable):
                return self.table_method(v, "copy", [], {}, st, node)
            if isinstance(o, HInst):
                i = next(_counter)
                return [(st.put(i, HInst(o.cls, dict(o.attrs), o.tag)), Ref(i))]
        return [(st, v)]

    def x_partial(self, args, kw, st, node):
        return [(st, Partial(args[0], tuple(args[1:]), tuple(kw.items())))]

    def x_reduce(self, args, kw, st, node):
        out = []
        for x, c in self.iter_of(args[1], st, node):
            if self.is_exit(c):
                out.append((x, c))
                continue
            if not c.exact:
                out.append((x, App("reduce", tuple(args))))
                continue
            items = list(c.items if c.kind != "dict" else [k for k, _ in c.items])
            if len(args) > 2:
                cur = [(x, args[2])]
            elif items:
                cur = [(x, items.pop(0))]
            else:
                out.append((x, self.Exit("TypeError")))
                continue
            for it in items:
                nxt = []
                for y, a in cur:
                    if self.is_exit(a):
                        nxt.append((y, a))
                    else:
                        nxt += self.call(args[0], [a, it], {}, y, node)
                cur = nxt
            out += cur
        return out

    def x_defaultdict(self, args, kw, st, node):
        f = args[0] if args else NONE
        if f in (Ext("builtins.set"), Ext("builtins.list")):
            return [self.new_coll(st, "dict", (), dflt=True)]
        return [self.new_coll(st, "dict", (), dflt=isinstance(f, (Fn, Bound, Ext)))]

    def colls(self, args, st, node):
        cur = [(st, [])]
        for a in args:
            nxt = []
            for x, acc in cur:
                for y, c in self.iter_of(a, x, node):
                    if not self.is_exit(c):
                        if c.exact and c.kind == "dict":
                            c = exact("list", [k for k, _ in c.items])
                        nxt.append((y, acc + [c]))
            cur = nxt
        return cur

    def x_product(self, args, kw, st, node):
        out = []
        rep = kw.get("repeat")
        if isinstance(rep, Const):
            args = list(args) * rep.v
        for x, cs in self.colls(args, st, node):
            if all(c.exact for c in cs):
                out.append(self.new_coll(x, "iter", [Tup(p) for p in itertools.product(*[c.items for c in cs])]))
                continue
            scope = next(_counter)
            acc = [((), x)]
            for c in cs:
                nxt = []
                for vals, y in acc:
                    for e in self.inexact(c).items:
                        b = self.bind_entry(e, c if not c.exact else HColl(c.kind, False, (), 1 << 60), y)
                        if b is not None:
                            nxt.append((vals + (b[1],), b[0]))
                    for k in c.opaque:
                        w = fresh("e")
                        z = self.add(y, True, ("elem", k, w))
                        nxt.append((vals + (w,), z))
                acc = nxt
            es = [Entry(Tup(tuple(rename(v, y.subst) for v in vals)), tuple(g for g in y.guards if g not in x.guards)) for vals, y in acc]
            out.append(self.put_coll(x, HColl("iter", False, tuple(es), scope, x.guards)))
        return out

    def x_pairs(self, args, kw, st, node, fn):
        out = []
        k = args[1].v if len(args) > 1 and isinstance(args[1], Const) else 2
        for x, cs in self.colls(args[:1], st, node):
            c = cs[0]
            if c.exact:
                out.append(self.new_coll(x, "iter", [Tup(p) for p in fn(c.items, k)]))
            elif k == 2:
                # pairs of elements at different positions: in both orders, for all we know
                for y, r in self.x_product([args[0], args[0]], {}, x, node):
                    o = y.heap[r.id]
                    es = []
                    for e in o.items:
                        a, b = e.value.items
                        es.append(Entry(e.value, e.guards + ((True, ("opq", ("ordered", node.lineno))),) if fn is itertools.combinations else e.guards))
                    out.append((y.put(r.id, HColl("iter", False, tuple(es), o.scope, o.base, o.opaque)), r))
            else:
                out.append((x, App("pairs", tuple(args))))
        return out

    def x_combinations(self, args, kw, st, node):
        return self.x_pairs(args, kw, st, node, itertools.combinations)

    def x_permutations(self, args, kw, st, node):
        return self.x_pairs(args, kw, st, node, itertools.permutations)

    def x_pairwise(self, args, kw, st, node):
        out = []
        for x, cs in self.colls(args[:1], st, node):
            if cs[0].exact:
                out.append(self.new_coll(x, "iter", [Tup(p) for p in zip(cs[0].items, cs[0].items[1:])]))
            else:
                out.append((x, App("pairwise", tuple(args))))
        return out

    def x_chain(self, args, kw, st, node):
        out = []
        for x, cs in self.colls(args, st, node):
            c = exact("iter", ())
            for k in cs:
                c = self.union(c, k, "iter", x)
            out.append(self.put_coll(x, c, "iter"))
        return out

    def x_chain_from(self, args, kw, st, node):
        out = []
        for x, cs in self.colls(args, st, node):
            c = cs[0]
            if c.exact:
                out += self.x_chain(list(c.items), {}, x, node)
                continue
            x, acc = self.new_coll(x, "iter", (), exact=False)
            for e in c.items:
                b = self.bind_entry(e, c, x)
                if b is None:
                    continue
                y, val, elems = b
                for z, d in self.iter_of(val, y, node):
                    if self.is_exit(d):
                        continue
                    z = self.extend(z, acc.id, d, "iter")
                    x = State(x.guards, x.subst, z.heap, x.trace)
            out.append((x, acc))
        return out

    def x_islice(self, args, kw, st, node):
        out = []
        for x, cs in self.colls(args[:1], st, node):
            ps = [a.v if isinstance(a, Const) else None for a in args[1:]]
            if cs[0].exact and all(isinstance(a, Const) for a in args[1:]):
                out.append(self.new_coll(x, "iter", list(itertools.islice(cs[0].items, *ps))))
            elif len(ps) >= 2 and ps[1] is None and ps[0] in (0, None):
                out.append(self.put_coll(x, cs[0]))
            else:
                y, r = self.put_coll(x, cs[0])
                out.append((self.forget(y, r.id, ("islice", node.lineno)), r))
        return out

    def x_starmap(self, args, kw, st, node):
        return self.map_over(args[1], lambda y, v: self.call(args[0], list(v.items) if isinstance(v, Tup) else [v], {}, y, node), st, node)

    def map_over(self, coll, f, st, node, flt=False):
        """map(f, coll), as a new collection."""
        st, acc = self.new_coll(st, "iter", ())
        env = next(_counter)
        st = st.put(env, HEnv({}, None, "<map>"))

        def body(y, val):
            out = []
            for z, r in f(y, val):
                if self.is_exit(r):
                    out.append(("raise", z, r.val))
                elif flt:
                    t, n = self.branch(z, r)
                    out += [("normal", self.coll_add(q, acc, rename(val, q.subst)), None) for q in t]
                    out += [("normal", q, None) for q in n]
                else:
                    out.append(("normal", self.coll_add(z, acc, r), None))
            return out
        res = []
        from .engine import Exit
        for k, x, v in self.loop(coll, body, st, env, frozenset(), node):
            res.append((x, acc if k == "normal" else Exit("raise" if k == "raise" else "unwind", v)))
        return res

    # ---- builtins
    def b_isinstance(self, args, kw, st, node):
        v, t = args
        types = []

        def flat(x):
            if isinstance(x, Tup):
                for y in x.items:
                    flat(y)
            elif isinstance(x, Ref) and isinstance(st.heap.get(x.id), HColl):
                for y in st.heap[x.id].items:
                    flat(y)
            elif isinstance(x, App) and x.fn == "BitOr":
                for y in x.args:
                    flat(y)
            else:
                types.append(x)
        flat(t)
        names = {x.path.split(".")[-1] if isinstance(x, Ext) else x.name if isinstance(x, Cls) else repr(x) for x in types}
        v = rename(v, st.subst)
        if isinstance(v, (Sym,)):
            return [(st, lit("isa", v, frozenset(names)))]
        if isinstance(v, IRI):
            return [(st, Const(bool(names & {"URIRef", "Identifier", "Node", "str", "IdentifiedNode", "object"})))]
        if isinstance(v, Const):
            ts = tuple(getattr(builtins, n) for n in names if isinstance(getattr(builtins, n, None), type))
            if v.v is None:
                return [(st, Const("NoneType" in names))]
            return [(st, Const(isinstance(v.v, ts)))]
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, HInst):
                mro = self.mro(o.cls)
                return [(st, Const(any(x in mro for x in types)))]
            if isinstance(o, HColl):
                return [(st, Const(o.kind in names or (o.kind == "iter" and bool(names & {"Iterator", "Iterable", "Generator"}))))]
        if isinstance(v, Tup):
            return [(st, Const("tuple" in names))]
        if isinstance(v, Cls):
            return [(st, Const("type" in names))]
        if isinstance(v, (Fn, Bound)):
            return [(st, Const(bool(names & {"Callable", "FunctionType"})))]
        if isinstance(v, GraphV):
            if v.kind == "plain":
                return [(st, Const("Graph" in names))]
            if v.kind == "dataset":
                return [(st, Const(bool(names & {"Dataset", "ConjunctiveGraph", "Graph"})))]
            return [(st, lit("opq", ("isa", v, Const(tuple(sorted(names))))))]
        if isinstance(v, App) and v.fn in ("URIRef", "BNode", "Literal"):
            return [(st, Const(v.fn in names or bool(names & {"Identifier", "Node", "str"})))]
        if isinstance(v, App):
            return [(st, lit("opq", ("isa", v, Const(tuple(sorted(names))))))]
        return [(st, lit("opq", ("isa", v, Const(tuple(sorted(names))))))]

    def b_issubclass(self, args, kw, st, node):
        if isinstance(args[0], Cls):
            t = args[1].items if isinstance(args[1], Tup) else (args[1],)
            return [(st, Const(any(x in self.mro(args[0]) for x in t)))]
        return [(st, lit("opq", ("issubclass",) + tuple(args)))]

    def b_len(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Const):
            try:
                return [(st, Const(len(v.v)))]
            except TypeError:
                return [(st, self.Exit("TypeError"))]
        if isinstance(v, Tup):
            return [(st, Const(len(v.items)))]
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, HColl):
                if v.id in self.special:
                    return [(st, LenV(v))]
                if o.exact:
                    return [(st, Const(len(o.items)))]
                return [(st, LenV(v))]
            if isinstance(o, HInst):
                m = self.class_attr(o.cls, "__len__", st)
                if isinstance(m, Fn):
                    return self.call(self.bind(m, v, o.cls), [], {}, st, node)
        if isinstance(v, Slot):
            y, r = self.put_coll(st, self.slot_coll(v, st))
            return [(y, LenV(r) if not y.heap[r.id].exact else Const(len(y.heap[r.id].items)))]
        if isinstance(v, App) and v.fn == "lookup":
            return [(st, App("len", (v,)))]
        return [(st, App("len", (v,)))]

    def b_bool(self, args, kw, st, node):
        return [(st, self.truth(args[0], st))] if args else [(st, FALSE)]

    def b_any(self, args, kw, st, node):
        return self.anyall(args, st, node, True)

    def b_all(self, args, kw, st, node):
        return self.anyall(args, st, node, False)

    def anyall(self, args, st, node, is_any):
        out = []
        for x, c in self.iter_of(args[0], st, node):
            if self.is_exit(c):
                out.append((x, c))
                continue
            if c.exact:
                items = c.items if c.kind != "dict" else [k for k, _ in c.items]
                fs = [self.truth(i, x) for i in items]
                out.append((x, f_or(*fs) if is_any else f_and(*fs)))
                continue
            fs = []
            for e in c.items:
                fs.append(self.ex_with(e, c, x, lambda val, y: self.truth(val, y) if is_any else f_not(self.truth(val, y))))
            for k in c.opaque:
                fs.append(lit("opq", ("anyall", k)))
            out.append((x, f_or(*fs) if is_any else f_not(f_or(*fs))))
        return out

    def copy_as(self, kind, args, st, node):
        if not args:
            return [self.new_coll(st, kind, ())]
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), HTable):
            return self.table_method(v, "copy", [], {}, st, node)
        out = []
        for x, c in self.iter_of(v, st, node):
            if self.is_exit(c):
                out.append((x, c))
                continue
            if c.exact and c.kind == "dict":
                c = exact("list", [k for k, _ in c.items])
            out.append(self.put_coll(x, c, kind))
        return out

    def b_list(self, args, kw, st, node):
        return self.copy_as("list", args, st, node)

    def b_set(self, args, kw, st, node):
        return self.copy_as("set", args, st, node)

    def b_frozenset(self, args, kw, st, node):
        return self.copy_as("set", args, st, node)

    def b_iter(self, args, kw, st, node):
        return self.copy_as("iter", args, st, node)

    def b_sorted(self, args, kw, st, node):
        out = []
        for x, v in self.copy_as("list", args[:1], st, node):
            if not self.is_exit(v) and isinstance(x.heap.get(v.id), HColl) and x.heap[v.id].exact and all(isinstance(i, Const) for i in x.heap[v.id].items):
                o = x.heap[v.id]
                try:
                    if "key" not in kw:
                        items = sorted(o.items, key=lambda c: c.v, reverse=bool(kw.get("reverse", FALSE).v))
                        x = x.put(v.id, HColl("list", True, tuple(items), o.scope, o.base))
                except Exception:
                    pass
            out.append((x, v))
        return out

    def b_reversed(self, args, kw, st, node):
        out = []
        for x, v in self.copy_as("list", args[:1], st, node):
            if not self.is_exit(v) and isinstance(x.heap.get(v.id), HColl) and x.heap[v.id].exact:
                o = x.heap[v.id]
                x = x.put(v.id, HColl(o.kind, True, o.items[::-1], o.scope, o.base))
            out.append((x, v))
        return out

    def b_tuple(self, args, kw, st, node):
        if not args:
            return [(st, Tup(()))]
        out = []
        for x, v in self.copy_as("tuple", args, st, node):
            if not self.is_exit(v) and isinstance(x.heap.get(v.id), HColl) and x.heap[v.id].exact:
                v = Tup(x.heap[v.id].items)
            out.append((x, v))
        return out

    def b_dict(self, args, kw, st, node):
        if args:
            v = args[0]
            if isinstance(v, Ref) and isinstance(st.heap.get(v.id), HTable):
                return self.table_method(v, "copy", [], {}, st, node)
            if isinstance(v, Ref) and isinstance(st.heap.get(v.id), HColl) and st.heap[v.id].kind == "dict":
                st, r = self.put_coll(st, st.heap[v.id])
            else:
                st, r = self.new_coll(st, "dict", ())
                res = self.coll_method(r, "update", [v], {}, st, node)
                st = res[0][0] if res else st
        else:
            st, r = self.new_coll(st, "dict", ())
        for k, v in kw.items():
            st = self.set_item(st, r, Const(k), v, node)
        return [(st, r)]

    def b_dict_fromkeys(self, args, kw, st, node):
        out = []
        d = args[1] if len(args) > 1 else NONE
        for x, c in self.iter_of(args[0], st, node):
            if self.is_exit(c):
                out.append((x, c))
            elif c.exact and all(self.const_key(i) for i in c.items):
                out.append(self.new_coll(x, "dict", tuple(dict.fromkeys([(i, d) for i in c.items]))))
            else:
                c = self.inexact(c)
                out.append(self.put_coll(x, HColl("dict", False, tuple(Entry(Tup((e.value, d)), e.guards) for e in c.items), c.scope, c.base, c.opaque)))
        return out

    def b_range(self, args, kw, st, node):
        if all(isinstance(a, Const) and isinstance(a.v, int) for a in args):
            r = range(*[a.v for a in args])
            if len(r) <= 2000:
                return [self.new_coll(st, "iter", [Const(i) for i in r])]
        a = list(args)
        if len(a) == 1:
            a = [Const(0)] + a
        if len(a) == 2:
            a.append(Const(1))
        return [(st, App("range", tuple(a)))]

    def b_enumerate(self, args, kw, st, node):
        start = args[1] if len(args) > 1 else kw.get("start", Const(0))
        out = []
        for x, cs in self.colls(args[:1], st, node):
            c = cs[0]
            if c.exact and isinstance(start, Const):
                out.append(self.new_coll(x, "iter", [Tup((Const(i + start.v), v)) for i, v in enumerate(c.items)]))
            else:
                c = self.inexact(c)
                out.append(self.put_coll(x, HColl("iter", False, tuple(Entry(Tup((App("index", (e.value,)), e.value)), e.guards) for e in c.items), c.scope, c.base,
                                                  tuple(("enum", k) for k in c.opaque))))
        return out

    def b_zip(self, args, kw, st, node):
        out = []
        for x, cs in self.colls(args, st, node):
            if all(c.exact for c in cs):
                out.append(self.new_coll(x, "iter", [Tup(t) for t in zip(*[c.items for c in cs])]))
            else:
                out.append((x, App("zip", tuple(args))))
        return out

    def b_map(self, args, kw, st, node):
        f = args[0]
        if len(args) == 2:
            return self.map_over(args[1], lambda y, v: self.call(f, [v], {}, y, node), st, node)
        out = []
        for x, z in self.b_zip(args[1:], {}, st, node):
            out += self.map_over(z, lambda y, v: self.call(f, list(v.items) if isinstance(v, Tup) else [v], {}, y, node), x, node)
        return out

    def b_filter(self, args, kw, st, node):
        f = args[0]
        if f == NONE:
            return self.map_over(args[1], lambda y, v: [(y, v)], st, node, flt=True)
        return self.map_over(args[1], lambda y, v: self.call(f, [v], {}, y, node), st, node, flt=True)

    def b_next(self, args, kw, st, node):
        v = args[0]
        out = []
        for x, c in self.iter_of(v, st, node):
            if self.is_exit(c):
                out.append((x, c))
                continue
            if c.exact:
                if c.items:
                    if isinstance(v, Ref) and v.id in x.heap:
                        x = x.put(v.id, HColl(c.kind, True, c.items[1:], c.scope, c.base, c.opaque, c.dflt, c.tag))
                    out.append((x, c.items[0]))
                else:
                    out.append((x, args[1] if len(args) > 1 else self.Exit("StopIteration")))
                continue
            y0, r = self.put_coll(x, c)
            out += self.pick(r, y0, ("next", node.lineno), node)
            if not c.opaque:
                for y in self.assume(y0, self.truth(r, y0), False):
                    out.append((y, args[1] if len(args) > 1 else self.Exit("StopIteration")))
            elif len(args) > 1:
                out.append((y0, args[1]))
        return out

    def b_str(self, args, kw, st, node):
        if not args:
            return [(st, Const(""))]
        v = rename(args[0], st.subst)
        if isinstance(v, Const):
            return [(st, Const(str(v.v)))]
        if isinstance(v, IRI):
            return [(st, Const(v.v))]
        if isinstance(v, Ext) and v.path.startswith("ns:"):
            from .engine import NS
            return [(st, Const(NS[v.path[3:]]))]
        if isinstance(v, Ext) and v.path.startswith("nsobj:"):
            return [(st, Const(v.path[6:]))]
        if isinstance(v, App) and v.fn in ("str", "fmt"):
            return [(st, v)]
        return [(st, App("str", (self.reify(v, st),)))]

    b_repr = b_str

    def b_int(self, args, kw, st, node):
        if args and isinstance(args[0], Const):
            try:
                return [(st, Const(int(args[0].v)))]
            except Exception as ex:
                return [(st, self.Exit(type(ex).__name__))]
        if args and isinstance(args[0], App) and self.int_safe(args[0], st):
            return [(st, App("int", tuple(args)))]
        st = self.mayraise(st, "ValueError", ("int",) + tuple(self.reify(a, st) for a in args), node)
        return [(st, App("int", tuple(self.reify(a, st) for a in args)))] if st is not None else []

    def b_float(self, args, kw, st, node):
        if args and isinstance(args[0], Const):
            try:
                return [(st, Const(float(args[0].v)))]
            except Exception as ex:
                return [(st, self.Exit(type(ex).__name__))]
        st = self.mayraise(st, "ValueError", ("float",) + tuple(args), node)
        return [(st, App("float", tuple(args)))] if st is not None else []

    def b_abs(self, args, kw, st, node):
        return [(st, Const(abs(args[0].v)) if isinstance(args[0], Const) else App("abs", tuple(args)))]

    def b_print(self, args, kw, st, node):
        return [(self.emit("print", tuple(self.reify(a, st) for a in args), st, node), NONE)]

    def b_type(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), HInst):
            return [(st, st.heap[v.id].cls)]
        if isinstance(v, Cls):
            return [(st, Ext("builtins.type"))]
        if isinstance(v, Const):
            return [(st, Ext("builtins." + type(v.v).__name__))]
        return [(st, App("type", (v,)))]

    def b_getattr(self, args, kw, st, node):
        if isinstance(args[1], Const):
            out = []
            mark = len(self.sink)
            v = args[0]
            if isinstance(v, App) and v.fn == "options" and len(args) > 2:
                return self.option_attr(v, args[1].v, st, node)
            for x, r in self.get_attr(v, args[1].v, st, node):
                if self.is_exit(r) and len(args) > 2:
                    r = args[2]
                    self.sink[mark:] = [ef for ef in self.sink[mark:] if ef.kind not in ("unresolved", "badterm")]
                out.append((x, r))
            return out
        if isinstance(args[0], Ext) and args[0].path.startswith("ns:"):
            return [(st, App("iri", (args[0], args[1])))]
        return [(st, App("getattr", tuple(args)))]

    def b_setattr(self, args, kw, st, node):
        if isinstance(args[1], Const):
            return [(self.set_attr(st, args[0], args[1].v, args[2], node), NONE)]
        return [(self.emit("setattr", tuple(args), st, node), NONE)]

    def b_hasattr(self, args, kw, st, node):
        v = args[0]
        if isinstance(args[1], Const):
            if isinstance(v, (Ref, Cls, Mod, Const, IRI)):
                mark = len(self.sink)
                r = self.get_attr(v, args[1].v, st, node)
                del self.sink[mark:]
                return [(st, Const(not self.is_exit(r[0][1])))]
            if isinstance(v, Sym) and args[1].v in LITATTRS:
                return [(st, lit("isa", v, frozenset({"Literal"})))]
        return [(st, lit("opq", ("hasattr",) + tuple(args)))]

    def b_callable(self, args, kw, st, node):
        if isinstance(args[0], (Fn, Bound, Cls, Ext, Partial)):
            return [(st, TRUE)]
        if isinstance(args[0], (Const, IRI)):
            return [(st, FALSE)]
        return [(st, lit("opq", ("callable", args[0])))]

    def b_max(self, args, kw, st, node):
        return self.minmax(args, kw, st, node, True)

    def b_min(self, args, kw, st, node):
        return self.minmax(args, kw, st, node, False)

    def minmax(self, args, kw, st, node, mx):
        name = "max" if mx else "min"
        if len(args) >= 2 and "key" not in kw:
            if all(isinstance(a, Const) for a in args):
                try:
                    return [(st, Const((max if mx else min)(a.v for a in args)))]
                except TypeError:
                    return [(st, self.Exit("TypeError"))]
            cur = [(st, args[0])]
            for b in args[1:]:
                nxt = []
                for x, a in cur:
                    f = self.less(a, b, x) if mx else self.less(b, a, x)
                    nxt += [(y, b) for y in self.assume(x, f, True)] + [(y, a) for y in self.assume(x, f, False)]
                cur = nxt
            return cur
        out = []
        for x, c in self.iter_of(args[0], st, node):
            if self.is_exit(c):
                out.append((x, c))
                continue
            if c.exact:
                if c.items:
                    out += self.minmax(list(c.items), kw, x, node, mx) if len(c.items) > 1 else [(x, c.items[0])]
                else:
                    out.append((x, kw["default"] if "default" in kw else self.Exit("ValueError")))
            else:
                y, r = self.put_coll(x, c)
                ents = []
                for e in c.items:
                    b = self.bind_entry(e, c, y)
                    if b is not None:
                        ents.append(Tup((b[1], Tup(tuple(App("g", (Const(lit_str(g)),)) for g in b[0].guards if g not in y.guards)))))
                out.append((y, App(name, (r,) + ((kw["default"],) if "default" in kw else ()))))
        return out

    def b_sum(self, args, kw, st, node):
        c = self.as_coll(args[0], st)
        if c is not None and c.exact and len(args) > 1:
            cur = [(st, args[1])]
            for it in c.items:
                cur = [r for x, a in cur for r in self.binop(ast.Add(), a, it, x, node)]
            return cur
        if c is not None and c.exact and all(isinstance(i, Const) for i in c.items):
            return [(st, Const(sum(i.v for i in c.items)))]
        return [(st, App("sum", tuple(args)))]

    def b_id(self, args, kw, st, node):
        return [(st, App("id", tuple(args)))]

    def b_hash(self, args, kw, st, node):
        return [(st, App("hash", tuple(args)))]

    def b_object(self, args, kw, st, node):
        i = next(_counter)
        return [(st.put(i, HInst(Ext("builtins.object"), {})), Ref(i))]


PFXI = {"rdf": "http://www.w3.org/1999/02/22-rdf-syntax-ns#"}


def group_info(pat, group):
    """(minimal width, digits only?) of a group of a constant regular expression."""
    if isinstance(pat, App) and pat.fn == "call:re.compile":
        pat = pat.args[0]
    if not (isinstance(pat, Const) and isinstance(group, Const) and isinstance(pat.v, str)):
        return None
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    try:
        tree = sp.parse(pat.v)
    except Exception:
        return None
    if group.v == 0:
        return tree.getwidth()[0], False

    def find(t):
        for op, av in t:
            if str(op) == "SUBPATTERN":
                g, _, _, sub = av
                names = tree.state.groupdict
                if g == group.v or names.get(group.v) == g:
                    return sub
                r = find(sub)
                if r is not None:
                    return r
            elif isinstance(av, sp.SubPattern):
                r = find(av)
                if r is not None:
                    return r
            elif isinstance(av, tuple):
                for x in av:
                    if isinstance(x, sp.SubPattern):
                        r = find(x)
                        if r is not None:
                            return r
                    if isinstance(x, list):
                        for y in x:
                            if isinstance(y, sp.SubPattern):
                                r = find(y)
                                if r is not None:
                                    return r
        return None

    sub = find(tree)
    if sub is None:
        return None

    def digits(t):
        for op, av in t:
            o = str(op)
            if o == "LITERAL":
                if not chr(av).isdigit():
                    return False
            elif o == "IN":
                for k, v in av:
                    if str(k) == "RANGE":
                        if not (48 <= v[0] and v[1] <= 57):
                            return False
                    elif str(k) == "LITERAL":
                        if not 48 <= v <= 57:
                            return False
                    elif str(k) == "CATEGORY":
                        if "DIGIT" not in str(v) or "NOT" in str(v):
                            return False
                    else:
                        return False
            elif o in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                if not digits(av[2]):
                    return False
            elif o == "SUBPATTERN":
                if not digits(av[3]):
                    return False
            else:
                return False
        return True
    return sub.getwidth()[0], digits(sub)
