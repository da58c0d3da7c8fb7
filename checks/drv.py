"""The closure driver as a typestate problem: a finite abstract domain, the loops are iterated to their fixpoint.

The hooks (pre_process, axioms, one-time rules, rules, post_process) are opaque: each of them puts a token (its name) into the container of new
triples and into the list of messages. What is followed exactly is where these containers are emptied, copied, tested and written to the result.
"""
from __future__ import annotations
import ast
from sa.extract import *
from sa.engine import TooComplex
from sa.rules import PROBLEM
from sa.report import Report

CLASSES = ("RDFS_Semantics", "OWLRL_Semantics", "RDFS_OWLRL_Semantics", "OWLRL_Extension", "OWLRL_Extension_Trimming")
HOOKS = ("pre_process", "add_axioms", "add_d_axioms", "one_time_rules", "rules", "post_process")
OPTS = {"add_axioms": "axioms", "add_d_axioms": "daxioms"}
C = lambda v: ("const", v)
NONEV, T, F = C(None), C(True), C(False)
ENV, ELEM, LOST = ("unk", "env"), ("unk", "elem"), ("unk", "lost")


class S:
    __slots__ = ("v", "a", "b", "tok", "und", "calls", "cycles", "opts", "bad", "unk", "it", "conds")

    def __init__(self):
        self.v, self.a, self.b, self.tok, self.opts = {}, {}, {}, {}, {}
        self.und = frozenset()      # tokens that have not reached the destination
        self.calls, self.cycles = (), 0
        self.bad, self.unk, self.conds = frozenset(), frozenset(), frozenset()
        self.it = ()                # facts about the current iteration, innermost last

    def copy(self):
        n = S.__new__(S)
        for k in S.__slots__:
            x = getattr(self, k)
            setattr(n, k, dict(x) if isinstance(x, dict) else x)
        return n

    def key(self):
        f = lambda d: tuple(sorted(d.items(), key=repr))
        return (f(self.v), f(self.a), f(self.b), f(self.tok), f(self.opts), self.und, self.calls, self.cycles, self.bad, self.unk, self.it)

    def fail(self, key, text, loc):
        n = self.copy()
        n.bad = self.bad | {(key, text, loc)}
        return n

    def lost(self, why):
        n = self.copy()
        n.unk = self.unk | {why}
        return n

    def fact(self, f):
        if not self.it:
            return self
        n = self.copy()
        n.it = self.it[:-1] + (self.it[-1] | {f},)
        return n


def lossy(call):
    """Does the label of a blank node take the same value for different messages?"""
    parts = list(call.args) + [k.value for k in call.keywords]
    for p in parts:
        for n in ast.walk(p):
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.BitAnd, ast.FloorDiv)) and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) or isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("hash", "len"):
                return True
    return bool(parts) and all(isinstance(p, ast.Constant) and p.value is not None for p in parts)


class Drv:
    def __init__(self, c, dest):
        self.c, self.eng = c, c.eng
        self.dest = "D" if dest is not NONE else "G"
        self.steps = 0
        self.sites = set()
        self.ids = {}
        self.depth = 0
        self.endless = set()

    # ---- the initial state
    def initial(self):
        s = S()
        o = self.c.st.heap[self.c.ref.id]
        self.bufattr, self.errattr = self.c.buffer[0], self.c.errors[0]
        for a, w in o.attrs.items():
            s.a[a] = self.of(w)
        for a, role in ((self.bufattr, "triples"), (self.errattr, "errors")):
            s.b[role] = (role, frozenset())
            s.a[a] = ("buf", role)
        return s

    def of(self, w):
        if isinstance(w, GraphV):
            return ("graph", w.role)
        if w == AX:
            return ("opt", "axioms")
        if w == DAX:
            return ("opt", "daxioms")
        if isinstance(w, Const) and not isinstance(w.v, (dict, list, set)):
            return C(w.v) if not isinstance(w.v, int) or isinstance(w.v, bool) else num(w.v)
        if isinstance(w, IRI):
            return ("iri", w.v)
        if isinstance(w, Fn):
            return ("fn", w)
        if isinstance(w, Bound):
            return ("fn", w.fn)
        if isinstance(w, Ext):
            return ("ext", w.path)
        if isinstance(w, Cls):
            return ("cls", w)
        if isinstance(w, Ref) and w == self.c.ref:
            return ("self",)
        return ENV

    # ---- emptiness
    def empt(self, s, bid):
        es = [s.tok.get(t, "E") for t in s.b[bid][1]]
        return "N" if "N" in es else ("U" if "U" in es else "E")

    def refine(self, s, bid, e):
        """Assume that the container is (not) empty."""
        cur = self.empt(s, bid)
        if cur != "U":
            return s if cur == e else None
        n = s.copy()
        us = [t for t in s.b[bid][1] if s.tok.get(t) == "U"]
        if e == "E":
            for t in us:
                n.tok[t] = "E"
        elif len(us) == 1:
            n.tok[us[0]] = "N"
        return n

    def split(self, s, bid):
        return [(e, x) for e in "EN" for x in (self.refine(s, bid, e),) if x is not None]

    def deliver(self, s, bid):
        n = s.copy()
        n.und = s.und - s.b[bid][1]
        if self.empt(s, bid) == "N":
            for d in (n.v, n.a):
                for k, v in list(d.items()):
                    if v[0] == "gs" and v[1] == self.dest:
                        d[k] = ("gs", v[1], 1)
        return n

    # ---- hooks
    def hook(self, s, name, args, loc):
        self.sites.add(loc[:2] + (name,))
        n = s.copy()
        tok = "cycle" if name == "rules" else name
        if name == "rules":
            return self.rules_call(n, args, loc)
        n.calls = (s.calls + (name,))[-12:]
        if name in ("one_time_rules", "post_process"):
            n = self.stale(n, name, loc)
        return self.produce(n, tok, loc)

    def stale(self, s, name, loc):
        late = sorted(t for t in s.und if s.tok.get(t, "E") != "E" and not t.startswith("err"))
        if late:
            s = s.fail("stale/" + name, "%s works on a graph that does not contain yet what %s has produced" % (name, ", ".join(late)), loc)
        return s

    def produce(self, s, tok, loc):
        n = s.copy()
        for attr, t in ((self.bufattr, tok), (self.errattr, "err")):
            v = n.a.get(attr)
            if v is None or v[0] != "buf":
                return n.lost("the container of the results is not followed at %s:%d" % loc[:2])
            role, content = n.b[v[1]]
            if t in n.tok and n.tok[t] == "N" and t in content and t in n.und:
                pass
            else:
                n.tok[t] = "U" if not (t in content and n.tok.get(t) == "N" and t in n.und) else "N"
            n.b[v[1]] = (role, content | {t})
            n.und = n.und | {t}
        return n

    def rules_call(self, s, args, loc):
        if not s.it:
            s = s.fail("rules-once", "the rules are applied outside a loop over the triples of the graph", loc)
            return self.produce(s, "cycle", loc)
        a = args[0] if args else ENV
        if "rules" in s.it[-1]:
            s = s.fail("rules-twice", "the rules are applied twice to one triple", loc)
        if a == ("triple",):
            s = s.fact("rules")
        elif a[0] in ("elem", "triple", "trip-some"):
            s = s.fact("rules")
            s = s.fail("rules-other", "the rules are not applied to every triple of the graph", loc)
        else:
            s = s.lost("the triple given to the rules at %s:%d" % loc[:2])
        if len(args) > 1:
            num_ = args[1]
            first = s.cycles == 1
            if num_[0] in ("const", "big", "pos"):
                if num_ == ("pos",):
                    s = s.lost("the number of the cycle")
                elif first != (num_ == C(1)):
                    s = s.fail("cycle-number", "the rules are told the wrong number of the cycle (the first one has to be 1, and only the first one)", loc)
            else:
                s = s.lost("the number of the cycle")
        return self.produce(s, "cycle", loc)

    def begin_cycle(self, s, loc):
        """A loop over the graph that applies the rules starts."""
        s = self.stale(s, "the cycle of the rules", loc)
        n = s.copy()
        if "cycle" in n.tok:
            n.opts["idle"] = min(3, s.opts.get("idle", 0) + 1) if n.tok["cycle"] == "E" else 0
            if n.opts["idle"] == 3:
                self.endless.add((loc, "; ".join(sorted(s.conds)[:3])))
            for b, (role, content) in n.b.items():
                if "cycle" in content:
                    n.b[b] = (role, content - {"cycle"} | {"cycle-old"})
            if n.tok.get("cycle-old", "E") != "N":
                n.tok["cycle-old"] = n.tok["cycle"]
            n.und = n.und - {"cycle"}
        n.tok["cycle"] = "E"
        n.cycles = min(2, n.cycles + 1)
        if not n.calls or n.calls[-1] != "cycle":
            n.calls = (n.calls + ("cycle",))[-12:]
        return n

    # ---- statements: exec -> [(kind, state, value)]
    def block(self, stmts, s, ctx):
        cur, out = [s], []
        for st in stmts:
            nxt, seen = [], set()
            for x in cur:
                for k, y, v in self.stmt(st, x, ctx):
                    if k == "normal":
                        key = y.key()
                        if key not in seen:
                            seen.add(key)
                            nxt.append(y)
                    else:
                        out.append((k, y, v))
            cur = nxt
            if len(cur) > 4000:
                raise TooComplex("too many states at line %d" % st.lineno)
        return out + [("normal", x, None) for x in cur]

    def loc(self, node, ctx):
        return (ctx[2], getattr(node, "lineno", 0), ctx[3])

    def stmt(self, st, s, ctx):
        self.steps += 1
        if self.steps > 400000:
            raise TooComplex("too many steps")
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            return [("normal", s.lost("%s at line %d" % (type(st).__name__, st.lineno)), None)]
        return m(st, s, ctx)

    def s_Pass(self, st, s, ctx):
        return [("normal", s, None)]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_FunctionDef(self, st, s, ctx):
        n = s.copy()
        n.v[(self.depth, st.name)] = ("def", st.name, id(st))
        self.ids[id(st)] = st
        return [("normal", n, None)]

    def s_Expr(self, st, s, ctx):
        return [self.wrap(x, v) for x, v in self.ev(st.value, s, ctx)]

    def wrap(self, x, v):
        return ("raise", x, v) if v and v[0] == "raised" else ("normal", x, None)

    def s_Assign(self, st, s, ctx):
        out = []
        for x, v in self.ev(st.value, s, ctx):
            if v[0] == "raised":
                out.append(("raise", x, v))
                continue
            for t in st.targets:
                x = self.assign(t, x, v, ctx)
            out.append(("normal", x, None))
        return out

    def s_AnnAssign(self, st, s, ctx):
        if st.value is None:
            return [("normal", s, None)]
        out = []
        for x, v in self.ev(st.value, s, ctx):
            out.append(("normal", self.assign(st.target, x, v, ctx), None))
        return out

    def s_AugAssign(self, st, s, ctx):
        out = []
        load = ast.copy_location(ast.fix_missing_locations(as_load(st.target)), st)
        for x, cur in self.ev(load, s, ctx):
            for y, v in self.ev(st.value, x, ctx):
                if cur[0] == "graph" and isinstance(st.op, ast.Add):
                    out.append(("normal", self.bulk(y, cur, v, self.loc(st, ctx)), None))
                elif cur[0] == "buf":
                    if isinstance(st.op, (ast.BitOr, ast.Add)):
                        y = self.into(y, cur, v)
                    else:
                        y = y.lost("update of a container at line %d" % st.lineno)
                    out.append(("normal", y, None))
                else:
                    for z, r in self.binop(y, st.op, cur, v):
                        out.append(("normal", self.assign(st.target, z, r, ctx), None))
        return out

    def assign(self, t, s, v, ctx):
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.parts(v, len(t.elts))
            for e, i in zip(t.elts, items):
                s = self.assign(e, s, i, ctx)
            return s
        n = s.copy()
        if isinstance(t, ast.Name):
            n.v[(self.depth, t.id)] = v
            return n
        if isinstance(t, ast.Attribute):
            for x, o in self.ev(t.value, s, ctx):
                n = x.copy()
                if o == ("self",):
                    if t.attr in (self.bufattr, self.errattr) and v[0] != "buf":
                        return n.lost("the container of the results is replaced at line %d" % t.lineno)
                    n.a[t.attr] = v
                    return n
                if v[0] == "buf":
                    return n.lost("a container escapes at line %d" % t.lineno)
                return n
        if v[0] == "buf" or isinstance(t, ast.Starred):
            return n.lost("a container escapes at line %d" % t.lineno)
        return n

    def parts(self, v, k):
        if v[0] == "tup" and len(v[1]) == k:
            return list(v[1])
        if v[0] in ("elem", "triple") and k == 3:
            return [("part", v, i) for i in range(3)]
        return [LOST if v == LOST else ELEM if v[0] in ("elem", "triple", "part") or v == ELEM else ENV] * k

    def s_Return(self, st, s, ctx):
        if st.value is None:
            return [("return", s, NONEV)]
        return [("raise" if v[0] == "raised" else "return", x, v) for x, v in self.ev(st.value, s, ctx)]

    def s_Break(self, st, s, ctx):
        return [("break", s, None)]

    def s_Continue(self, st, s, ctx):
        return [("continue", s, None)]

    def s_Raise(self, st, s, ctx):
        return [("raise", s, ("raised", self.loc(st, ctx)))]

    def s_Assert(self, st, s, ctx):
        out = []
        for x, b in self.test(st.test, s, ctx):
            out.append(("normal", x, None) if b else ("raise", x, ("raised", self.loc(st, ctx))))
        return out

    def s_Delete(self, st, s, ctx):
        n = s.copy()
        for t in st.targets:
            if isinstance(t, ast.Name):
                n.v.pop((self.depth, t.id), None)
            else:
                n = n.lost("del at line %d" % st.lineno)
        return [("normal", n, None)]

    def s_If(self, st, s, ctx):
        out = []
        for x, b in self.test(st.test, s, ctx):
            out += self.block(st.body if b else st.orelse, x, ctx)
        return out

    def s_With(self, st, s, ctx):
        cur = [s]
        for it in st.items:
            nxt = []
            for x in cur:
                for y, v in self.ev(it.context_expr, x, ctx):
                    nxt.append(self.assign(it.optional_vars, y, ENV, ctx) if it.optional_vars is not None else y)
            cur = nxt
        out = []
        for x in cur:
            out += self.block(st.body, x, ctx)
        return out

    def s_Try(self, st, s, ctx):
        res = self.block(st.body, s, ctx)
        out = []
        for k, x, v in res:
            if k == "normal" and st.orelse:
                out += self.block(st.orelse, x, ctx)
            elif k == "raise" and st.handlers:
                for h in st.handlers:
                    out += self.block(h.body, x.lost("an exception is handled at line %d" % h.lineno), ctx)
            else:
                out.append((k, x, v))
        if st.finalbody:
            fin = []
            for k, x, v in out:
                for k2, y, v2 in self.block(st.finalbody, x, ctx):
                    fin.append((k, y, v) if k2 == "normal" else (k2, y, v2))
            out = fin
        return out

    def s_While(self, st, s, ctx):
        out, seen, work = [], set(), [s]
        while work:
            x = work.pop()
            k = x.key()
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 3000:
                raise TooComplex("loop at line %d" % st.lineno)
            for y, b in self.test(st.test, x, ctx):
                if not b:
                    out += self.block(st.orelse, y, ctx) if st.orelse else [("normal", y, None)]
                    continue
                for kk, z, v in self.block(st.body, y, ctx):
                    if kk in ("normal", "continue"):
                        work.append(z)
                    elif kk == "break":
                        out.append(("normal", z, None))
                    else:
                        out.append((kk, z, v))
        return out

    def s_For(self, st, s, ctx):
        out = []
        for x, it in self.ev(st.iter, s, ctx):
            if it[0] == "raised":
                out.append(("raise", x, it))
            else:
                out += self.loop(x, it, lambda y, el: self.block(st.body, self.assign(st.target, y, el, ctx), ctx), self.loc(st, ctx),
                                 lambda y: self.block(st.orelse, y, ctx) if st.orelse else [("normal", y, None)],
                                 calls_rules=any(self.reaches_rules(b, ctx) for b in st.body))
        return out

    def reaches_rules(self, node, ctx, seen=None):
        seen = set() if seen is None else seen
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute):
                if n.attr == "rules":
                    return True
                if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr not in HOOKS and n.attr not in seen:
                    seen.add(n.attr)
                    m = self.eng.class_attr(self.c.cls, n.attr, self.c.st)
                    if isinstance(m, Fn) and any(self.reaches_rules(b, ctx, seen) for b in m.node.body):
                        return True
        return False

    def loop(self, s, it, body, loc, orelse, calls_rules=False):
        if it[0] == "enum":
            inner = it[1]
            b0 = body
            return self.loop(s, inner, lambda y, el: b0(y, ("tup", (ENV, el))), loc, orelse, calls_rules)
        if it[0] == "tup":
            cur, out = [s], []
            for el in it[1]:
                nxt = []
                for x in cur:
                    for k, y, v in body(x, el):
                        if k in ("normal", "continue"):
                            nxt.append(y)
                        elif k == "break":
                            out.append(("normal", y, None))
                        else:
                            out.append((k, y, v))
                cur = nxt
            for x in cur:
                out += orelse(x)
            return out
        if it[0] == "buf":
            return self.loop_buf(s, it[1], body, loc, orelse)
        if it[0] in ("alltriples", "sometriples", "graph"):
            return self.loop_graph(s, it, body, loc, orelse, calls_rules)
        if it[0] == "range":
            pass
        if it == LOST:
            s = s.lost("the loop at line %d" % loc[1])
        el = {"range": ("big",)}.get(it[0], ENV if it != ELEM else ELEM)
        if calls_rules:
            el0 = el
        outs, seen, work, after = [], set(), [s], [s]
        n = 0
        while work:
            x = work.pop()
            if x.key() in seen:
                continue
            seen.add(x.key())
            if len(seen) > 3000:
                raise TooComplex("loop at line %d" % loc[1])
            for k, y, v in body(x, el if it[0] != "range" else self.counter(x, it, loc)):
                if k in ("normal", "continue"):
                    work.append(y)
                    after.append(y)
                elif k == "break":
                    outs.append(("normal", y, None))
                else:
                    outs.append((k, y, v))
        if it == ("range", "inf"):
            after = []
        for x in dedupe(after):
            outs += orelse(x)
        return outs

    def counter(self, s, it, loc):
        if it[0] == "range" and len(it) > 2:
            k = it[2]
            return C(k) if s.cycles == 0 else (C(k + 1) if s.cycles == 1 else ("big",))
        return ("big",)

    def loop_buf(self, s, bid, body, loc, orelse):
        out = []
        for e, x in self.split(s, bid):
            if e == "E":
                out += orelse(x)
                continue
            role, content = x.b[bid]
            # one generic iteration after another, until nothing changes
            start = x.copy()
            start.it = x.it + (frozenset(),)
            work, seen, after, partial = [start], set(), [], []
            while work:
                y = work.pop()
                if y.key() in seen:
                    continue
                seen.add(y.key())
                if len(seen) > 1500:
                    raise TooComplex("loop at line %d" % loc[1])
                for k, z, v in body(y, ("elem", role, bid)):
                    facts = z.it[-1]
                    if k in ("normal", "continue", "break"):
                        ok, why = self.delivered(role, facts, z)
                        w = z.copy()
                        w.it = z.it[:-1]
                        if why:
                            w = w.fail(why[0], why[1], loc)
                        if k == "break":
                            partial.append((w, ok))
                        else:
                            after.append((w, ok))
                            w2 = w.copy()
                            w2.it = w.it + (frozenset(),)
                            work.append(w2)
                    else:
                        w = z.copy()
                        w.it = z.it[:-1]
                        out.append((k, w, v))
            touched = any(ok for w, ok in after + partial) or any("added" in f for f in [])
            all_ok = all(ok for w, ok in after) and not partial
            what = "stored triple is added to the destination" if role == "triples" else "inconsistency message is written to the result as a node of its own with type and text"
            for group, brk in ((after, False), (partial, True)):
                for w, ok in group:
                    if touched and all_ok:
                        w = self.deliver_tokens(w, content, bid)
                    elif touched and brk:
                        w = w.fail("break/" + role, "not every %s: the loop may stop early" % what, loc)
                    elif touched and not all_ok:
                        w = w.fail("partial/" + role, "not every %s%s" % (what, self.condtext(after)), loc)
                    out += orelse(w) if not brk else [("normal", w, None)]
        return dedupe_o(out)

    def condtext(self, after):
        cs = sorted({c for w, ok in after if not ok for c in w.conds})
        return ": not when %s" % "; ".join(cs[:3]) if cs else ""

    def deliver_tokens(self, s, content, bid):
        n = s.copy()
        n.und = s.und - content
        for d in (n.v, n.a):
            for k, v in list(d.items()):
                if v[0] == "gs" and v[1] == self.dest:
                    d[k] = ("gs", v[1], 1)
        return n

    def delivered(self, role, facts, s):
        """Has this iteration brought its element to the destination?"""
        if role == "triples":
            return "delivered" in facts, None
        adds = [f[1:] for f in facts if isinstance(f, tuple) and f[0] == "add"]
        typed = {a[0] for a in adds if a[1] == ("iri", NS["RDF"] + "type") and a[2][0] == "iri" and a[2][1].endswith("ErrorMessage")}
        texts = {a[0] for a in adds if a[1][0] == "iri" and a[1][1].endswith("error") and a[2][0] == "lit" and a[2][1][:2] == ("elem", "errors")}
        both = typed & texts
        if any(a[0] == ELEM or a[0] == ENV for a in adds):
            return True, None
        if both and not any(b[0] == "bnode" and ("fresh", b[1]) in facts for b in both):
            return True, ("error-node", "the inconsistency messages share one node")
        return bool(both), None

    def loop_graph(self, s, it, body, loc, orelse, calls_rules):
        out = []
        if not calls_rules:
            el = ENV
            outs, seen, work, after = [], set(), [s], [s]
            while work:
                x = work.pop()
                if x.key() in seen:
                    continue
                seen.add(x.key())
                for k, y, v in body(x, el):
                    if k in ("normal", "continue"):
                        work.append(y)
                        after.append(y)
                    elif k == "break":
                        outs.append(("normal", y, None))
                    else:
                        outs.append((k, y, v))
            for x in dedupe(after):
                outs += orelse(x)
            return outs
        x = self.begin_cycle(s, loc)
        if it[0] == "graph":
            x = x.lost("the loop over the graph at line %d" % loc[1])
        elif it[1] != "G":
            x = x.fail("rules-source", "the rules are applied to the triples of the destination, not to those of the graph", loc)
        elif it[0] == "sometriples":
            x = x.fail("rules-some", "the rules are applied to some triples of the graph only", loc)
        start = x.copy()
        start.it = x.it + (frozenset(),)
        work, seen = [start], set()
        empty = x.copy()
        after = [empty]
        while work:
            y = work.pop()
            if y.key() in seen:
                continue
            seen.add(y.key())
            if len(seen) > 1500:
                raise TooComplex("loop at line %d" % loc[1])
            for k, z, v in body(y, ("triple",)):
                facts = z.it[-1]
                w = z.copy()
                w.it = z.it[:-1]
                if k in ("normal", "continue", "break"):
                    if "rules" not in facts:
                        new = sorted(z.conds - y.conds)
                        w = w.fail("rules-skip", "the rules are not applied to some triples%s" % (": when " + "; ".join(new) if new else ""), loc)
                    if k == "break":
                        w = w.fail("rules-break", "the loop over the triples of the graph may stop early", loc)
                        out.append(("normal", w, None))
                    else:
                        after.append(w)
                        w2 = w.copy()
                        w2.it = w.it + (frozenset(),)
                        work.append(w2)
                else:
                    out.append((k, w, v))
        for w in dedupe(after):
            out += orelse(w)
        return dedupe_o(out)

    # ---- expressions: ev -> [(state, value)]
    def ev(self, e, s, ctx):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(self.scan(e, s, ctx), ENV)]
        return m(e, s, ctx)

    def scan(self, e, s, ctx):
        """An expression that is not followed: does it touch a container?"""
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr in (self.bufattr, self.errattr):
                return s.lost("an expression at line %d" % n.lineno)
            if isinstance(n, ast.Name) and s.v.get((self.depth, n.id), ENV)[0] == "buf":
                return s.lost("an expression at line %d" % n.lineno)
            if isinstance(n, ast.Attribute) and n.attr in HOOKS:
                return s.lost("a step is executed in an expression at line %d" % n.lineno)
        return s

    def e_Constant(self, e, s, ctx):
        return [(s, num(e.value) if isinstance(e.value, int) and not isinstance(e.value, bool) else C(e.value))]

    def e_Name(self, e, s, ctx):
        v = s.v.get((self.depth, e.id))
        if v is not None:
            return [(s, v)]
        g = self.eng.lookup(e.id, self.c.st, self.eng.modules[ctx[0].module].env)
        return [(s, self.of(g) if g is not None else ENV)]

    def e_Attribute(self, e, s, ctx):
        out = []
        for x, o in self.ev(e.value, s, ctx):
            out.append((x, self.attr(x, o, e, ctx)))
        return out

    def attr(self, s, o, e, ctx):
        a = e.attr
        if o == ("self",):
            if a in s.a:
                return s.a[a]
            m = self.eng.class_attr(self.c.cls, a, self.c.st)
            if a in HOOKS and isinstance(m, Fn):
                return ("hook", a)
            if isinstance(m, Fn):
                return ("meth", m)
            return self.of(m) if m is not None else ENV
        if o[0] == "cls":
            m = self.eng.class_attr(o[1], a, self.c.st)
            if a in HOOKS and isinstance(m, Fn):
                return ("uhook", a)
            if isinstance(m, Fn):
                return ("umeth", m)
            return self.of(m) if m is not None else ENV
        if o[0] == "super":
            ms = self.eng.mro(self.c.cls)
            for k in ms[ms.index(o[1]) + 1:]:
                if isinstance(k, Cls):
                    vs = self.c.st.heap[k.env].vars
                    if a in vs:
                        if isinstance(vs[a], Fn):
                            return ("hook", a) if a in HOOKS else ("meth", vs[a])
                        return self.of(vs[a])
            return ENV
        if o[0] in ("graph", "buf", "tup"):
            return ("m", o, a)
        if o[0] == "ext" or o == ENV:
            v = self.static(e, ctx)
            return v if v is not None else ENV
        return ELEM if o[0] in ("elem", "triple", "part") or o == ELEM else (LOST if o == LOST else ENV)

    def static(self, e, ctx):
        """The value of an expression that depends on the module only."""
        eng = self.eng
        saved, eng.sink, st_ = eng.sink, [], eng.stack
        eng.stack = [("<analysis>", eng.modules[ctx[0].module])]
        try:
            res = eng.ev(e, self.c.st, eng.modules[ctx[0].module].env)
        except Exception:
            res = []
        finally:
            eng.sink, eng.stack = saved, st_
        if len(res) == 1 and not isinstance(res[0][1], Exit):
            return self.of(res[0][1])
        return None

    def e_Tuple(self, e, s, ctx):
        cur = [(s, ())]
        for x in e.elts:
            if isinstance(x, ast.Starred):
                return [(self.scan(e, s, ctx), ENV)]
            cur = [(z, vs + (v,)) for y, vs in cur for z, v in self.ev(x, y, ctx)]
        return [(x, ("tup", vs)) for x, vs in cur]

    def e_List(self, e, s, ctx):
        if not e.elts:
            return [self.new_buf(s, e, ctx)]
        return self.e_Tuple(e, s, ctx)

    def e_Set(self, e, s, ctx):
        return self.e_Tuple(e, s, ctx)

    def new_buf(self, s, e, ctx, content=frozenset(), role="triples"):
        bid = "%s:%d:%d" % (ctx[2], getattr(e, "lineno", 0), getattr(e, "col_offset", 0))
        n = s.copy()
        used = {v[1] for d in (s.v, s.a) for v in d.values() if v[0] == "buf"}
        k = 0
        while bid + "#%d" % k in used:
            k += 1
        bid += "#%d" % k
        n.b[bid] = (role, frozenset(content))
        keep = used | {bid, "triples", "errors"}
        for b in list(n.b):
            if b not in keep:
                del n.b[b]
        return n, ("buf", bid)

    def e_Dict(self, e, s, ctx):
        s = self.scan(e, s, ctx)
        if not e.keys:
            n, v = self.new_buf(s, e, ctx)
            return [(n, v)]
        return [(s, ENV)]

    def e_JoinedStr(self, e, s, ctx):
        return [(s, ENV)]

    def e_Lambda(self, e, s, ctx):
        return [(self.scan(e, s, ctx), ENV)]

    def e_NamedExpr(self, e, s, ctx):
        return [(self.assign(e.target, x, v, ctx), v) for x, v in self.ev(e.value, s, ctx)]

    def e_IfExp(self, e, s, ctx):
        out = []
        for x, b in self.test(e.test, s, ctx):
            out += self.ev(e.body if b else e.orelse, x, ctx)
        return out

    def e_UnaryOp(self, e, s, ctx):
        if isinstance(e.op, ast.Not):
            return [(x, C(not b)) for x, b in self.test(e.operand, s, ctx)]
        return [(x, num(-v[1]) if isinstance(e.op, ast.USub) and v[0] == "const" and isinstance(v[1], int) else weak(v)) for x, v in self.ev(e.operand, s, ctx)]

    def e_BoolOp(self, e, s, ctx):
        cur, out = [s], []
        for i, o in enumerate(e.values):
            nxt = []
            for x in cur:
                if i == len(e.values) - 1:
                    out += self.ev(o, x, ctx)
                    continue
                for y, v in self.ev(o, x, ctx):
                    for z, b in self.truth(y, v, o):
                        if b == isinstance(e.op, ast.Or):
                            out.append((z, v if v[0] in ("buf", "opt", "graph") else C(b)))
                        else:
                            nxt.append(z)
            cur = nxt
        return out

    def e_BinOp(self, e, s, ctx):
        out = []
        for x, a in self.ev(e.left, s, ctx):
            for y, b in self.ev(e.right, x, ctx):
                out += self.binop(y, e.op, a, b)
        return out

    def binop(self, s, op, a, b):
        if a[0] == "const" and isinstance(a[1], str):
            return [(s, ENV)]
        if a[0] == "const" and b[0] == "const" and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            try:
                r = {ast.Add: lambda p, q: p + q, ast.Sub: lambda p, q: p - q, ast.Mult: lambda p, q: p * q}[type(op)](a[1], b[1])
                return [(s, num(r) if isinstance(r, int) else C(r))]
            except KeyError:
                return [(s, ("num",))]
        if isinstance(op, ast.Add) and {a[0], b[0]} <= {"big", "pos", "const"} and all(x[0] != "const" or isinstance(x[1], int) for x in (a, b)):
            k = [x[1] for x in (a, b) if x[0] == "const"]
            if not k or k[0] >= 0:
                return [(s, ("big",) if ("big",) in (a, b) else ("pos",))]
        if a[0] == "gs" and b[0] == "const" and isinstance(op, ast.Add) and isinstance(b[1], int):
            return [(s, ("gs+", a[1], a[2], b[1]))]
        if isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)) and (a[0] == "buf" or b[0] == "buf"):
            return [(s.lost("an operation on containers"), LOST)]
        if isinstance(op, ast.Sub) and a[0] == "gs" and b[0] == "gs" and a[1] == b[1]:
            d = b[2] - a[2]
            return [(s, C(0) if d == 0 else ("pos",) if d > 0 else ("num",))]
        if {a[0], b[0]} & {"big", "pos", "num", "gs", "gs+"}:
            return [(s, ("num",))]
        return [(s, weak(a, b))]

    def e_Compare(self, e, s, ctx):
        if len(e.ops) != 1:
            return [(self.scan(e, s, ctx), self.weak_expr(e, s, ctx))]
        out = []
        for x, a in self.ev(e.left, s, ctx):
            for y, b in self.ev(e.comparators[0], x, ctx):
                out += self.compare(y, e.ops[0], a, b, e)
        return out

    def weak_expr(self, e, s, ctx):
        r = ENV
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                r = weak(r, s.v.get((self.depth, n.id), ENV))
        return r

    def compare(self, s, op, a, b, e):
        if isinstance(op, (ast.In, ast.NotIn)):
            pos = isinstance(op, ast.In)
            if b[0] == "graph" and b[1] == self.dest and a[0] == "elem":
                return [(s.fact("delivered"), C(pos)), (s, C(not pos))]
            if b[0] == "buf":
                if self.empt(s, b[1]) == "E":
                    return [(s, C(not pos))]
                return self.both(s, ELEM, e)
            return self.both(s, weak(a, b), e)
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        ops = {ast.Lt: lambda p, q: p < q, ast.Gt: lambda p, q: p > q, ast.LtE: lambda p, q: p <= q, ast.GtE: lambda p, q: p >= q,
               ast.Eq: lambda p, q: p == q, ast.NotEq: lambda p, q: p != q, ast.Is: lambda p, q: p is q, ast.IsNot: lambda p, q: p is not q}
        f = ops.get(type(op))
        if a[0] == "const" and b[0] == "const" and f is not None:
            try:
                return [(s, C(bool(f(a[1], b[1]))))]
            except TypeError:
                return [(s, ("raised", ("", e.lineno, "")))]
        if a[0] == "buf" and b[0] == "buf" and isinstance(op, (ast.Eq, ast.NotEq)):
            for p, q in ((a, b), (b, a)):
                if self.empt(s, p[1]) == "E":
                    return [(x, C((k == "E") == isinstance(op, ast.Eq))) for k, x in self.split(s, q[1])]
            return [(s.lost("comparison of containers"), C(True)), (s.lost("comparison of containers"), C(False))]
        if a[0] == "opt" or b[0] == "opt":
            o, k = (a, b) if a[0] == "opt" else (b, a)
            if k == T and isinstance(op, (ast.Is, ast.Eq)):
                cur = s.opts.get(o[1])
                out = []
                if cur is not False:
                    y = s.copy()
                    y.opts[o[1]] = True
                    out.append((y, T))
                y = s.copy()
                y.opts.setdefault(o[1], None)
                return out + [(y, F)]
            y = s.copy()
            y.opts.setdefault(o[1], None)
            return [(y, T), (y, F)]
        if a[0] == "const":
            if type(op) in flip:
                return self.compare(s, flip[type(op)](), b, a, e)
            a, b = b, a
        if a[0] in ("pos", "big") and b[0] == "const" and isinstance(b[1], (int, float)) and not isinstance(b[1], bool):
            lo = 1 if a[0] == "pos" else 5
            vals = {bool(f(n, b[1])) for n in list(range(lo, 12)) + [int(b[1]) - 1, int(b[1]), int(b[1]) + 1, 10 ** 9] if n >= lo}
            if len(vals) == 1:
                return [(s, C(vals.pop()))]
            return self.both(s, a, e)
        if a[0] in ("gs", "gs+") and b[0] in ("gs", "gs+") and a[1] == b[1] and f is not None:
            # size = current - lag*d (d >= 1) + k
            vals = set()
            for d in (1, 2, 3, 10 ** 6):
                vals.add(bool(f(-a[2] * d + (a[3] if a[0] == "gs+" else 0), -b[2] * d + (b[3] if b[0] == "gs+" else 0))))
            if len(vals) == 1:
                return [(s, C(vals.pop()))]
            return self.both(s, ("pos",), e)
        if isinstance(op, (ast.Is, ast.IsNot)) and (a == NONEV or b == NONEV) and (a[0] in ("graph", "buf", "elem") or b[0] in ("graph", "buf", "elem")):
            return [(s, C(isinstance(op, ast.IsNot)))]
        if a[0] == "graph" and b[0] == "graph" and isinstance(op, (ast.Is, ast.IsNot)):
            return [(s, C((a == b) == isinstance(op, ast.Is)))]
        return self.both(s, weak(a, b), e)

    def both(self, s, v, e):
        x, y = self.note(s, e, v)
        return [(x, T), (y, F)]

    def note(self, s, e, v):
        if v == LOST:
            s = s.lost("the condition at line %d" % getattr(e, "lineno", 0))
        x, y = s.copy(), s.copy()
        try:
            t = ast.unparse(e)
        except Exception:
            t = "?"
        x.conds, y.conds = s.conds | {t}, s.conds | {"not (%s)" % t}
        return x, y

    def test(self, e, s, ctx):
        """-> [(state, bool)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.test(e.operand, s, ctx)]
        out = []
        for x, v in self.ev(e, s, ctx):
            out += self.truth(x, v, e)
        return out

    def truth(self, s, v, e):
        k = v[0]
        if k == "const":
            return [(s, bool(v[1]))]
        if k == "buf":
            return [(x, em == "N") for em, x in self.split(s, v[1])]
        if k == "opt":
            cur = s.opts.get(v[1])
            out = []
            for b in (True, False):
                if cur is None or cur == b:
                    y = s.copy()
                    y.opts[v[1]] = b
                    out.append((y, b))
            return out
        if k in ("pos", "big", "bnode", "lit", "iri", "hook", "meth", "fn", "self", "def", "ext", "cls"):
            return [(s, True)]
        if k == "tup":
            return [(s, len(v[1]) > 0)]
        if k == "graph":
            return [(s, True), (s, False)]
        x, y = self.note(s, e, v)
        return [(x, True), (y, False)]

    def e_Subscript(self, e, s, ctx):
        out = []
        for x, o in self.ev(e.value, s, ctx):
            if isinstance(e.slice, ast.Slice):
                if o[0] == "buf":
                    if e.slice.lower is None and e.slice.upper is None:
                        out.append(self.new_buf(x, e, ctx, x.b[o[1]][1], x.b[o[1]][0]))
                    else:
                        out.append((x, ("part-buf",)) if False else (x.lost("a part of a container at line %d" % e.lineno), LOST))
                else:
                    out.append((x, weak(o)))
                continue
            for y, i in self.ev(e.slice, x, ctx):
                if o[0] == "tup" and i[0] == "const" and isinstance(i[1], int) and -len(o[1]) <= i[1] < len(o[1]):
                    out.append((y, o[1][i[1]]))
                elif o[0] in ("elem", "triple") and i[0] == "const":
                    out.append((y, ("part", o, i[1])))
                elif o[0] == "buf":
                    out.append((y.lost("a container is indexed at line %d" % e.lineno), LOST))
                else:
                    out.append((y, weak(o)))
        return out

    def e_ListComp(self, e, s, ctx):
        return self.comp(e, s, ctx)

    e_SetComp = e_GeneratorExp = e_ListComp

    def comp(self, e, s, ctx):
        if len(e.generators) != 1:
            return [(self.scan(e, s, ctx), ENV)]
        g = e.generators[0]
        out = []
        for x, it in self.ev(g.iter, s, ctx):
            if it[0] == "buf" and not self.touches(e.elt):
                # a copy of the container, possibly filtered or mapped
                y = self.assign(g.target, x, ("elem", x.b[it[1]][0], it[1]), ctx)
                role, content = x.b[it[1]]
                vals = self.ev(e.elt, y, ctx)
                el = ("elem", role, it[1])
                same = all(v == el or v[0] == "tup" and v[1][:3] == tuple(("part", el, i) for i in range(3)) and len(v[1]) <= 4 for z, v in vals)
                if same and not g.ifs:
                    out.append(self.new_buf(x, e, ctx, content, role))
                    continue
                if same and len(g.ifs) == 1:
                    c = g.ifs[0]
                    ok = True
                    for z, b in self.test(c, push(y), ctx):
                        if not b and "delivered" not in z.it[-1]:
                            ok = False
                    if ok:
                        n, v = self.new_buf(x, e, ctx, content, role)
                        out.append((n, v))
                        continue
                    # only some elements are kept
                    n, v = self.new_buf(x, e, ctx, {"some-" + role}, role)
                    n.tok["some-" + role] = "U"
                    out.append((n, v))
                    continue
                out.append((x.lost("a comprehension at line %d" % e.lineno), LOST))
                continue

            def body(y, el):
                y = self.assign(g.target, y, el, ctx)
                cur = [y]
                skip = []
                for c in g.ifs:
                    nxt = []
                    for z in cur:
                        for w, b in self.test(c, z, ctx):
                            (nxt if b else skip).append(w)
                    cur = nxt
                r = [("normal", w, None) for w in skip]
                for z in cur:
                    r += [self.wrap(w, v) for w, v in self.ev(e.elt, z, ctx)]
                return r
            rules = self.reaches_rules(e.elt, ctx)
            for k, y, v in self.loop(x, it, body, self.loc(e, ctx), lambda y: [("normal", y, None)], rules):
                out.append((y, ENV if k == "normal" else ("raised", self.loc(e, ctx))))
        return out

    def touches(self, e):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "remove", "set") + HOOKS for n in ast.walk(e)) \
            or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" for n in ast.walk(e))

    # ---- calls
    def e_Call(self, e, s, ctx):
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            cls = getattr(ctx[0], "cls", None)
            return [(s, ("super", cls) if isinstance(cls, Cls) else ENV)]
        for x, f in self.ev(e.func, s, ctx):
            cur = [(x, ())]
            for a in e.args:
                if isinstance(a, ast.Starred):
                    cur = [(self.scan(e, y, ctx), vs + (ENV,)) for y, vs in cur]
                else:
                    cur = [(z, vs + (v,)) for y, vs in cur for z, v in self.ev(a, y, ctx)]
            cur = [(y, vs, {}) for y, vs in cur]
            for k in e.keywords:
                cur = [(z, vs, {**kw, k.arg: v}) for y, vs, kw in cur for z, v in self.ev(k.value, y, ctx)]
            for y, vs, kw in cur:
                bad = [v for v in vs + tuple(kw.values()) if v[0] == "raised"]
                if bad:
                    out.append((y, bad[0]))
                    continue
                out += self.call(y, f, list(vs), kw, e, ctx)
        return out

    def call(self, s, f, args, kw, e, ctx):
        loc = self.loc(e, ctx)
        k = f[0]
        if k in ("hook", "uhook"):
            a = args[1:] if k == "uhook" else args
            names = ["t", "cycle_num"]
            m = self.eng.class_attr(self.c.cls, f[1], self.c.st)
            if isinstance(m, Fn):
                names = [p.arg for p in m.node.args.args][1:]
            for n in names[len(a):]:
                if n in kw:
                    a = a + [kw[n]]
            return [(self.hook(s, f[1], a, loc), NONEV)]
        if k in ("meth", "umeth", "fn"):
            fn = f[1]
            if k == "meth" and fn.kind != "static":
                args = [("self",)] + args
            if fn.node is None or self.depth > 8:
                return [(s.lost("the call at line %d" % loc[1]), LOST)]
            return self.inline(s, fn, fn.node, args, kw, e)
        if k == "def":
            return self.inline(s, ctx[0], self.ids[f[2]], args, kw, e, closure=True)
        if k == "m":
            return self.method(s, f[1], f[2], args, kw, e, ctx)
        if k == "ext":
            return self.external(s, f[1], args, kw, e, ctx)
        if any(v[0] == "buf" for v in args + list(kw.values())):
            return [(s.lost("a container is given to an unknown function at line %d" % loc[1]), LOST)]
        r = ENV
        for v in [f] + args + list(kw.values()):
            r = weak(r, v)
        return [(s, r)]

    def inline(self, s, fn, node, args, kw, e, closure=False):
        if isinstance(node, ast.Lambda) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
            return [(s.lost("the call at line %d" % e.lineno), LOST)]
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        n = s.copy()
        d = self.depth + 1
        if closure:
            for (dd, nm), v in list(n.v.items()):
                if dd == self.depth:
                    n.v[(d, nm)] = v
        vals = dict(zip(names, args))
        vals.update({x: v for x, v in kw.items() if x in names or x in [p.arg for p in a.kwonlyargs]})
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for p in names + [p.arg for p in a.kwonlyargs]:
            if p in vals:
                n.v[(d, p)] = vals[p]
            else:
                dv = dfl.get(p)
                n.v[(d, p)] = C(dv.value) if isinstance(dv, ast.Constant) else ENV
        if a.vararg and len(args) > len(names):
            n.v[(d, a.vararg.arg)] = ("tup", tuple(args[len(names):]))
        self.depth = d
        try:
            res = self.block(node.body, n, ctxof(fn, self.eng))
        finally:
            self.depth = d - 1
        out = []
        for k, x, v in res:
            y = x.copy()
            if closure:
                for p in ast.walk(node):
                    if isinstance(p, ast.Nonlocal):
                        for nm in p.names:
                            y.v[(d - 1, nm)] = x.v.get((d, nm), ENV)
            for key in [q for q in y.v if q[0] >= d]:
                del y.v[key]
            out.append((y, v if k in ("return", "raise") else NONEV))
        return out

    def method(self, s, o, name, args, kw, e, ctx):
        loc = self.loc(e, ctx)
        if o[0] == "tup":
            return [(s, ENV)]
        if o[0] == "graph":
            if name == "triples":
                a = args[0] if args else kw.get("triple")
                if a == ("tup", (NONEV,) * 3):
                    return [(s, ("alltriples", o[1]))]
                return [(s, ("sometriples", o[1]))]
            if name == "add":
                return [(self.gadd(s, o, args[0] if args else ENV, loc), o)]
            if name == "addN" and args:
                return [(self.bulk(s, o, args[0], loc), o)]
            if name in ("remove", "set", "parse", "update", "__iadd__"):
                return [(s.lost("%s at line %d" % (name, loc[1])), ENV)]
            if name in ("subjects", "predicates", "objects", "subject_objects", "subject_predicates", "predicate_objects"):
                return [(s, ENV)]
            return [(s, weak(ENV, *args) if args else ENV)]
        role, content = s.b[o[1]]
        if name in ("add", "append"):
            n = s.copy()
            if args and args[0][0] == "elem":
                src = s.b.get(args[0][2], (None, frozenset()))[1]
                n.b[o[1]] = (role, content | src)
                return [(n.lost("an element is moved between containers at line %d" % loc[1]), NONEV)]
            t = "err" if role == "errors" else "direct"
            n.b[o[1]] = (role, content | {t})
            n.tok[t] = "N"
            n.und = n.und | {t}
            return [(n, NONEV)]
        if name == "clear" and not args:
            n = s.copy()
            n.b[o[1]] = (role, frozenset())
            return [(n, NONEV)]
        if name == "copy" and not args:
            return [self.new_buf(s, e, ctx, content, role)]
        if name in ("update", "extend", "union", "__or__"):
            if name in ("union", "__or__"):
                return [(s.lost("%s at line %d" % (name, loc[1])), LOST)]
            n = s
            for a in args:
                n = self.into(n, o, a)
            return [(n, NONEV)]
        if name == "__len__":
            return self.length(s, o)
        return [(s.lost("%s at line %d" % (name, loc[1])), LOST)]

    def into(self, s, buf, v):
        """All elements of v are put into the container."""
        if v[0] == "buf":
            n = s.copy()
            role, content = s.b[buf[1]]
            n.b[buf[1]] = (role, content | s.b[v[1]][1])
            return n
        if v[0] == "tup" and not v[1]:
            return s
        n = s.copy()
        role, content = s.b[buf[1]]
        t = "err" if role == "errors" else "direct"
        n.b[buf[1]] = (role, content | {t})
        n.tok[t] = "U"
        n.und = n.und | {t}
        return n

    def gadd(self, s, g, t, loc):
        if t[0] == "tup" and len(t[1]) == 3:
            el = {p[1] for p in t[1] if p[0] == "part"}
            if len(el) == 1 and t[1] == tuple(("part", next(iter(el)), i) for i in range(3)):
                t = next(iter(el))
        if t[0] == "elem":
            if g[1] == self.dest:
                return s.fact("delivered") if t[1] == "triples" else s
            return s.fail("wrong-graph", "a new triple is added to the source graph instead of the destination", loc)
        if t[0] == "tup" and len(t[1]) == 3:
            if g[1] != self.dest:
                return s.fail("wrong-graph", "a triple is added to the source graph instead of the destination", loc)
            return s.fact(("add",) + t[1])
        if t == LOST:
            return s.lost("the addition at line %d" % loc[1])
        return s

    def bulk(self, s, g, v, loc):
        if v[0] == "buf":
            if g[1] != self.dest:
                return s.fail("wrong-graph", "the new triples are added to the source graph instead of the destination", loc)
            if s.b[v[1]][0] == "errors":
                return s.lost("the addition at line %d" % loc[1])
            outs = [self.deliver(x, v[1]) for k, x in self.split(s, v[1])]
            n = outs[-1].copy()
            if len(outs) == 2:
                # both cases: the sizes of the graph are not followed
                n = s.copy()
                n.und = s.und - s.b[v[1]][1]
                for d in (n.v, n.a):
                    for k, w in list(d.items()):
                        if w[0] == "gs" and w[1] == self.dest:
                            d[k] = ("num",)
            return n
        if v == LOST or v[0] not in ("tup",):
            return s.lost("the bulk addition at line %d" % loc[1])
        for t in v[1]:
            s = self.gadd(s, g, t, loc)
        return s

    def length(self, s, v):
        return [(x, C(0) if k == "E" else ("pos",)) for k, x in self.split(s, v[1])]

    def external(self, s, path, args, kw, e, ctx):
        last = path.split(".")[-1]
        loc = self.loc(e, ctx)
        a = args[0] if args else None
        if path == "builtins.len" and a is not None:
            if a[0] == "buf":
                return self.length(s, a)
            if a[0] == "graph":
                return [(s, ("gs", a[1], 0))]
            if a[0] == "tup":
                return [(s, num(len(a[1])))]
            return [(s, weak(a) if a[0] == "unk" else ELEM if a[0] in ("elem", "triple", "part") else ENV)]
        if path == "builtins.bool" and a is not None:
            return [(x, C(b)) for x, b in self.truth(s, a, e)]
        if path == "builtins.any" and a is not None and a[0] == "buf":
            return [(x, C(k == "N")) for k, x in self.split(s, a[1])]
        if path in ("builtins.list", "builtins.set", "builtins.tuple", "builtins.sorted", "builtins.frozenset", "builtins.iter", "builtins.reversed", "builtins.dict"):
            if a is None:
                if path in ("builtins.tuple",):
                    return [(s, ("tup", ()))]
                return [self.new_buf(s, e, ctx)]
            if a[0] == "buf":
                if path in ("builtins.iter", "builtins.reversed"):
                    return [(s, a)]
                return [self.new_buf(s, e, ctx, s.b[a[1]][1], s.b[a[1]][0])]
            if a[0] in ("alltriples", "sometriples", "tup", "graph"):
                return [(s, a)]
            return [(s, weak(a))]
        if path == "builtins.enumerate" and a is not None:
            return [(s, ("enum", a))]
        if path == "builtins.range" or path == "itertools.count":
            if path == "itertools.count":
                st = a if a is not None else C(0)
                return [(s, ("range", "inf", st[1] if st[0] == "const" and isinstance(st[1], int) else 0))]
            st = a if len(args) > 1 else C(0)
            return [(s, ("range", "fin", st[1] if st[0] == "const" and isinstance(st[1], int) else 0))]
        if path == "builtins.isinstance":
            return [(s, ELEM if a is not None and a[0] in ("elem", "triple", "part") else weak(a or ENV))]
        if path == "builtins.str" or path == "builtins.print":
            return [(s, a if path == "builtins.str" and a and a[0] == "elem" and a[1] == "errors" else ENV)]
        if path == "builtins.getattr" and len(args) >= 2 and a == ("self",) and args[1][0] == "const":
            n = ast.copy_location(ast.Attribute(value=ast.Name(id="self", ctx=ast.Load()), attr=str(args[1][1]), ctx=ast.Load()), e)
            return [(s, self.attr(s, a, n, ctx))]
        if last == "BNode" and not args:
            return [(s.fact(("fresh", loc[1:2] + (e.col_offset, self.depth))), ("bnode", loc[1:2] + (e.col_offset, self.depth)))]
        if last == "BNode" and isinstance(e, ast.Call) and lossy(e):
            return [(s, ("bnode", loc[1:2] + (e.col_offset, self.depth)))]
        if last == "Literal" and a is not None:
            return [(s, ("lit", a))]
        if last == "URIRef" and a is not None and a[0] in ("const", "iri"):
            return [(s, ("iri", a[1]))]
        if any(v[0] == "buf" for v in args + list(kw.values())):
            return [(s.lost("a container is given to %s at line %d" % (path, loc[1])), LOST)]
        r = ENV
        for v in args + list(kw.values()):
            r = weak(r, v)
        return [(s, r)]


def push(s):
    n = s.copy()
    n.it = s.it + (frozenset(),)
    return n


def ctxof(fn, eng):
    p = eng.modules[fn.module].path
    return (fn, None, rel(p, eng.root), fn.qual)


def rel(p, root):
    return os.path.relpath(p, root)


def as_load(t):
    import copy
    n = copy.deepcopy(t)
    for x in ast.walk(n):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return n


def num(v):
    return C(v) if -3 < v < 5 else ("big",) if v >= 5 else ("num",)


def weak(*vs):
    if any(v == LOST for v in vs):
        return LOST
    if any(v[0] in ("elem", "triple", "part") or v == ELEM for v in vs):
        return ELEM
    return ENV


def dedupe(xs):
    d = {}
    for x in xs:
        d.setdefault(x.key(), x)
    return list(d.values())


def dedupe_o(xs):
    d = {}
    for k, x, v in xs:
        d.setdefault((k, x.key(), v), (k, x, v))
    return list(d.values())


# ---------------------------------------------------------------------------------------------------------------- the check
AX, DAX = fresh("axioms"), fresh("daxioms")
ORDER = ["pre_process", "add_axioms", "add_d_axioms", "one_time_rules", "cycle", "post_process"]


def truthy(s):
    return ("opq", ("truthy", s))


def gated(c, n, s):
    """Does the method itself look at the option?"""
    try:
        eff, res = run_method(c, n)
    except TooComplex:
        return False
    adds = [e for e in eff if e.kind in ("gadd", "gaddall", "store", "call")]
    return bool(adds) and all((True, truthy(s)) in e.guards for e in adds)


def end(d, s, here):
    """The obligations at the normal end of the closure. -> [(key, text, loc)]"""
    bad = list(s.bad)
    names = s.calls

    def f(key, text):
        bad.append((key, text, here))
    when = (" (when %s)" % "; ".join(sorted(s.conds)[:3])) if s.conds else ""
    for n in ("pre_process", "one_time_rules", "post_process"):
        if names.count(n) == 0:
            f("missing/" + n, "%s is not executed%s" % (n, when))
        elif names.count(n) > 1:
            f("repeated/" + n, "%s is executed more than once" % n)
    for n, o in OPTS.items():
        k = s.opts.get(o, "unseen")
        if names.count(n) > 1:
            f("repeated/" + n, "%s is executed more than once" % n)
        if k is True and not names.count(n):
            f("missing/" + n, "%s is not executed although it is asked for%s" % (n, when))
        elif k is False and names.count(n) and not d.gated[n]:
            f("unasked/" + n, "%s is executed although it is not asked for" % n)
        elif k == "unseen" and not d.gated[n]:
            f("ungated/" + n, "whether %s is executed does not depend on the option%s" % (n, when))
        elif k is None:
            d.undecided.add("whether %s is executed depends on a comparison of the option" % n)
    if "cycle" not in names:
        f("no-cycle", "the rules are never applied%s" % when)
    pos = [ORDER.index(n) for n in names if n in ORDER]
    for i, j in zip(pos, pos[1:]):
        if i > j and {i, j} != {1, 2}:
            f("order/%s/%s" % (ORDER[j], ORDER[i]), "%s is executed after %s" % (ORDER[j], ORDER[i]))
    for t in sorted(s.und):
        if s.tok.get(t, "E") == "E":
            continue
        if t == "err":
            f("errors-unreported", "the inconsistency messages are not written to the result%s" % when)
        elif t.startswith("cycle-old"):
            pass
        else:
            f("lost/" + t, "triples produced by %s never reach the destination%s" % ("the rules" if t == "cycle" else t, when))
    if "cycle" in names and s.tok.get("cycle") != "E":
        f("fixpoint", "the closure may end although the last cycle has produced new triples%s" % when)
    return bad


ENDING = ("driver/raises", "driver/no-end", "driver/never-ends", "driver/endless", "/known")


def ending(rep, root, tier):
    """Only what concerns the end of the loop (for C10)."""
    sub = Report("C09", tier)
    protocol(sub, root, tier)
    for key, text, loc in sub.violations:
        if key.startswith(ENDING[:-1]) or key.endswith(ENDING[-1]):
            rep.obligations += 1
            rep.seen.add(key)
            rep.violations.append((key, text, loc))
    for u in sub.undecided:
        rep.undecide("loop: " + u)
    rep.obligations += sub.discharged
    rep.discharged += sub.discharged
    rep.count("abstract paths of closure()", sum(v for k, v in sub.counts.items() if k.startswith("abstract paths")))


def protocol(rep, root, tier):
    rep.rule("typestate over the driver, to the fixpoint of its loops: pre-processing, axioms exactly when asked for, one-time rules once, whole-graph "
             "cycles until a cycle has produced nothing, post-processing, reporting; every step sees what the earlier ones have produced, and everything "
             "produced reaches the destination")
    eng0 = Engine(root)
    eng0.load()
    rep.rule(STORED)
    for cls in CLASSES:
        for dest in (NONE, GraphV("D")):
            c = open_closure(eng0, cls, axioms=AX, daxioms=DAX, destination=dest, override=False)
            stored(rep, cls, dest, c)
            d = Drv(c, dest)
            d.gated = {n: gated(c, n, s) for n, s in (("add_axioms", AX), ("add_d_axioms", DAX))}
            d.undecided = set()
            fn = eng0.class_attr(c.cls, "closure", c.st)
            here = (rel(eng0.modules[fn.module].path, root), fn.node.lineno, fn.qual)
            try:
                s0 = d.initial()
                s0.v[(0, fn.node.args.args[0].arg)] = ("self",)
                res = d.block(fn.node.body, s0, ctxof(fn, eng0))
            except TooComplex as x:
                rep.undecide("%s: %s" % (cls, x))
                continue
            ends = 0
            twice = False
            for k, s, v in res:
                if k == "raise":
                    if s.unk:
                        rep.undecide("%s: the closure may raise an exception; %s" % (cls, sorted(s.unk)[0]))
                    else:
                        rep.violation("driver/raises", "the closure may be aborted%s" % (" when " + "; ".join(sorted(s.conds)[:3]) if s.conds else ""),
                                      v[1] if v and len(v) > 1 else here)
                    continue
                ends += 1
                bad = end(d, s, here)
                twice = twice or s.cycles == 2
                for key, text, loc in bad:
                    if s.unk:
                        rep.undecide("%s/%s: %s" % (cls, key, sorted(s.unk)[0]))
                    else:
                        rep.violation("driver/%s" % key, "%s [%s]" % (text, cls), loc)
                for u in s.unk:
                    rep.undecide("%s: %s" % (cls, u))
                if not bad and not s.unk:
                    rep.ok({"class": cls, "destination": d.dest, "steps": list(s.calls)})
            for u in d.undecided:
                rep.undecide("%s: %s" % (cls, u))
            for loc, when in sorted(d.endless):
                rep.violation("driver/endless", "the closure may go on for ever: cycles follow each other although none of them has produced a new triple%s [%s]" % (
                    " (when %s)" % when if when else "", cls), loc)
            unk = any(s.unk for k, s, v in res)
            if not ends:
                (rep.undecide if unk else lambda t: rep.violation("driver/no-end", t, here))("the closure never ends [%s]" % cls)
            elif not twice:
                (rep.undecide if unk else lambda t: rep.violation("driver/never-ends", t, here))(
                    "the closure does not end once a cycle has produced something: the container of new triples is never found empty again [%s]" % cls)
            else:
                rep.ok()
            rep.count("abstract paths of closure (%s, destination %s)" % (cls, "separate" if d.dest == "D" else "the graph itself"), ends)
            rep.count("statements interpreted", d.steps)
            rep.count("call sites of hooks", len(d.sites))


STORED = ("store_triple keeps a triple exactly when its predicate is no literal and it is neither in the graph nor in the destination; "
          "add_error keeps every new message")


def stored(rep, cls, dest, c):
    eng = c.eng
    role = "D" if dest is not NONE else "G"
    t = Tup((fresh("s"), fresh("p"), fresh("o")))
    m = eng.class_attr(c.cls, "store_triple", c.st)
    eng.sink = []
    eng.stack = [("<analysis>", eng.modules[c.cls.module])]
    res = eng.call(Bound(m, c.ref), [t], {}, c.st, any_node())
    eff = [e for e in eng.sink if e.kind == "store"]
    probs = [e for e in eng.sink if e.kind in PROBLEM]
    loc = eff[0].loc if eff else ("owlrl/Closure.py", 0, "store_triple")
    lit = (True, ("isa", t.items[1], frozenset(("Literal",))))
    roles = {"G", role}
    key = "store/%s/%s" % (cls, role)
    if probs:
        rep.undecide("%s: %r" % (key, probs[0]))
        return
    if not eff:
        rep.violation(key, "no triple is ever stored", loc)
        return
    # completeness: in the case "not a literal, not in the graph, not in the destination" the triple is kept
    rest = []
    for e in eff:
        if e.payload[0] != t:
            rep.violation(key + "/other", "another triple is stored than the one given: %r" % (e.payload[0],), e.loc)
            continue
        extra = [g for g in e.guards if not allowed(g, t, roles)]
        if not extra:
            rest = None
        elif rest is not None:
            rest += extra
    if rest is not None:
        rep.violation(key + "/lost", "a new triple is not stored, unless %s" % "; ".join(map(lit_str, rest)), loc)
    else:
        rep.ok()
    # soundness: what is known already must not be stored (the closure would never end), nor a triple with a literal predicate
    for e in eff:
        if not any(absent(g, t, role) for g in e.guards):
            rep.violation(key + "/known", "a triple that the destination has already is stored again, so that the closure never ends", e.loc)
        elif role == "D" and not any(absent(g, t, "G") for g in e.guards):
            rep.violation(key + "/known-source", "a triple of the source graph is copied to the destination", e.loc)
        elif not any(no_literal(g, t) for g in e.guards):
            rep.violation(key + "/literal", "a triple with a literal predicate is stored", e.loc)
        else:
            rep.ok()
    # messages
    msg = Const("m")
    m = eng.class_attr(c.cls, "add_error", c.st)
    eng.sink = []
    x = fresh("message")
    eng.call(Bound(m, c.ref), [x], {}, c.st, any_node())
    eff = [e for e in eng.sink if e.kind == "error"]
    if any(e.kind in PROBLEM for e in eng.sink):
        rep.undecide("add_error/%s" % cls)
        return
    good = [e for e in eff if e.payload[0] == x and all(in_errors(g, x) for g in e.guards)]
    rep.check(bool(good), "add-error/%s" % cls, "an inconsistency message that is not known yet is not kept%s" % (
        ", unless " + "; ".join(map(lit_str, eff[0].guards)) if eff else ""), eff[0].loc if eff else None)


def in_errors(g, x):
    p, l = g
    return not p and l[0] == "opq" and l[1][0] == "inbuffer" and l[1][-1] == x


def allowed(g, t, roles):
    return no_literal(g, t) or any(absent(g, t, r) for r in roles) or in_buffer(g, t)


def in_buffer(g, t):
    p, l = g
    return not p and l[0] == "opq" and l[1][0] == "inbuffer" and l[1][-1] == t


def no_literal(g, t):
    p, l = g
    if l[0] == "isa" and l[1] == t.items[1]:
        if not p and l[2] == frozenset(("Literal",)):
            return True
        if p and l[2] == frozenset(("URIRef", "BNode")):
            return True
    return False


def absent(g, t, role):
    p, l = g
    return p and l[0] == "neg" and len(l[1]) == 1 and l[1][0] == (True, ("in", role, t.items))
