"""Properties decided by comparing the extracted rules with the reference rules."""
from __future__ import annotations
from sa.rules import *
from sa import spec

_X = {}


def extraction(root, cls, rdfs=None, axioms=False, daxioms=False):
    k = (root, cls, rdfs, axioms, daxioms)
    if k not in _X:
        _X[k] = Extraction(root, cls, rdfs, axioms, daxioms)
    return _X[k]


def nearest(rule, prog):
    """The extracted clause that resembles the rule most (for the report)."""
    best, score = None, 0
    want = {repr(x) for l in rule.clause.pos for x in irises(l)} | ({repr(x) for x in irises(rule.clause.head)} if rule.clause.head != ERR else {"FALSE"})
    for c in prog.clauses:
        have = {repr(x) for l in c.pos for x in irises(l)} | ({repr(x) for x in irises(c.head)} if c.head != ERR else {"FALSE"})
        n = len(want & have) - 0.1 * len(have - want)
        if n > score:
            best, score = c, n
    return best


def irises(x, acc=None):
    acc = [] if acc is None else acc
    if isinstance(x, IRI):
        acc.append(x)
    elif isinstance(x, App):
        for a in x.args:
            irises(a, acc)
    elif isinstance(x, Tup):
        for a in x.items:
            irises(a, acc)
    elif isinstance(x, (tuple, frozenset)):
        for a in x:
            irises(a, acc)
    return acc


def show_rule(r):
    return "%s: %s => %s" % (r.label, ", ".join(r.body), r.head or "inconsistent")


def check_complete(rep, X, rules, cycles=(1, 2), or_err=()):
    rep.rule("completeness: every rule of the specification, its variables replaced by generic constants, is derivable from the rules that "
             "abstract interpretation extracts from the code (case analysis over the negative conditions), for the first and for later cycles")
    for cyc in cycles:
        P = Program(X.rules(cyc))
        rep.count("extracted clauses (%s, cycle %s)" % (X.clsname, "1" if cyc == 1 else ">=2"), 0)
        rep.counts["extracted clauses (%s, cycle %s)" % (X.clsname, "1" if cyc == 1 else ">=2")] = len(P.clauses)
        probs = [p for w, p in X.problems if w == "rules/%d" % cyc]
        for r in rules:
            if not r.body:
                continue
            v, pr = complete(r, P, or_err=r.name in or_err)
            key = "complete/%s/%s/%s" % (X.clsname, r.label, "first-cycle" if cyc == 1 else "later-cycles")
            if v is None and cyc != 1 and any("intge" in str(u) for u in pr.undecided):
                # it depends on the number of the cycle: look at some of them
                for n in (2, 3, 4, 1000003):
                    Q = Program(X.rules(("at", n)))
                    v2, pr2 = complete(r, Q, or_err=r.name in or_err)
                    if v2 is False and not any(w == "rules/at%d" % n for w, p in X.problems):
                        v, pr, P, key, probs = False, pr2, Q, key + "/%d" % n, []
                        break
            if v:
                rep.ok({"rule": show_rule(r), "class": X.clsname, "cycle": cyc} if cyc == 2 else None)
            elif v is None or probs:
                rep.undecide(key + (": " + "; ".join(pr.undecided[:2] + probs[:2])))
            else:
                n = nearest(r, P)
                rep.violation(key, "the rule %s does not follow from the code%s" % (show_rule(r), "; nearest construct derives %r" % (n,) if n else ""),
                              n.loc if n else ("owlrl", 0, X.clsname + ".rules"))


def check_sound(rep, X, ref_rules, cycles=(1, 2), select=None):
    rep.rule("soundness: every clause extracted from the code (triple stored, or inconsistency reported, with the conditions on its path) "
             "is a consequence of the rules of the specification")
    ref = Program([r.clause for r in ref_rules])
    for cyc in cycles:
        for c in X.rules(cyc):
            if select and not select(c):
                continue
            bad = sound(c, ref)
            key = "sound/%s/%s" % (X.clsname, clause_key(c))
            if not bad:
                rep.ok()
            elif all(v is None for v, k in bad):
                rep.undecide(key)
            else:
                v, k = [(v, k) for v, k in bad if v is not None][0]
                if any(unknown_value(x) for x in (k.head if k.head != ERR else ())):
                    rep.undecide(key)
                    continue
                rep.violation(key, "not entailed by the specification: %r" % (k,), c.loc)


def unknown_value(x):
    """Terms that the analysis did not resolve."""
    return isinstance(x, App) and x.fn != "attr:datatype" and x.fn != SK


def clause_key(c):
    fn = c.loc[2].split(":")[-1] if c.loc and len(c.loc) > 2 else "?"
    h = "inconsistent" if c.head == ERR else " ".join(repr(x) if isinstance(x, IRI) else "?" for x in c.head)
    b = ",".join(sorted({repr(x) for l in c.pos if l[0] == "in" for x in irises(l)}))
    return "%s/%s<-%s" % (fn, h, b)


def vocab(rules):
    """The terms that are specific to a group of rules."""
    common = {"rdf:type", "owl:sameAs", "owl:members", "rdfs:subClassOf", "rdfs:subPropertyOf", "owl:Thing", "owl:onProperty", "owl:Class"}
    out = set()
    for r in rules:
        for l in r.clause.pos:
            out |= {repr(x) for x in irises(l)}
        if r.clause.head != ERR:
            out |= {repr(x) for x in irises(r.clause.head)}
    return out - common


def sel_vocab(rules):
    v = vocab(rules)

    def f(c):
        mine = {repr(x) for l in c.pos for x in irises(l)} | ({repr(x) for x in irises(c.head)} if c.head != ERR else set())
        return bool(mine & v)
    return f


def rdfs_rules(rep, root, tier):
    X = extraction(root, "RDFS_Semantics")
    R = spec.rdfs()
    check_complete(rep, X, R)
    check_sound(rep, X, R)


def table(n):
    def check(rep, root, tier):
        X = extraction(root, "OWLRL_Semantics")
        R = spec.owl_rl(X.listlens())
        T = [r for r in R if r.table == n]
        check_complete(rep, X, T)
        sel = sel_vocab(T)
        fns = {c.loc[2] for cyc in (1, 2) for c in X.rules(cyc) if sel(c)}
        check_sound(rep, X, R, select=lambda c: sel(c) or c.loc[2] in fns)
    return check


def inconsistency(rep, root, tier):
    X = extraction(root, "OWLRL_Semantics")
    R = spec.owl_rl(X.listlens())
    check_complete(rep, X, [r for r in R if r.head is None])
    check_sound(rep, X, R, select=lambda c: c.head == ERR)
    messages(rep, X)


def messages(rep, X):
    """Every inconsistency message names the terms that clash."""
    rep.rule("each inconsistency message is a format string with as many holes as values, and names at least one of the terms matched by the rule")
    for cyc in (1, 2):
        for c in X.rules(cyc):
            if c.head != ERR:
                continue
            m = c.msg
            own = set()
            for l in c.pos:
                own |= syms_of(l)
            key = "message/%s/%s" % (X.clsname, clause_key(c))
            if isinstance(m, Const) or not (syms_of(m) & own):
                rep.violation(key, "the message names none of the resources in conflict: %r" % (m,), c.loc)
            else:
                rep.ok()
        for e in X.effects.get(cyc, ()):
            if e.kind == "badformat":
                rep.violation("message-format/%s/%s" % (X.clsname, e.loc[2].split(":")[-1]), "malformed message: %r" % (e.payload,), e.loc)


def combined(rep, root, tier):
    X = extraction(root, "RDFS_OWLRL_Semantics")
    R = spec.owl_rl(X.listlens()) + spec.rdfs()
    check_complete(rep, X, R)
    check_sound(rep, X, R)


def extended(rep, root, tier):
    for rdfs in (False, True):
        X = extraction(root, "OWLRL_Extension", rdfs)
        R = spec.owl_rl(X.listlens()) + spec.extension() + (spec.rdfs() if rdfs else [])
        check_complete(rep, X, R, or_err=("cls-avf",))
        check_sound(rep, X, R)
        own_one_time_rules(rep, root, rdfs)


def own_one_time_rules(rep, root, rdfs):
    """The typing of the literals that satisfy a restricted datatype, after the datatype rules of the parents."""
    rep.rule("the one-time rule of the extension, with the parents' rules as an opaque step that stores a triple: each literal typed with the base type, and which the restricted datatype "
             "accepts, is typed with the restricted datatype, nothing else is stored; what the parents stored is in the graph before it is looked at")
    X = Extraction(root, "OWLRL_Extension", rdfs)
    c = X.ctx
    eng = c.eng
    m = "one_time_rules"
    own = eng.class_attr(c.cls, m, c.st)
    events = []
    for k in eng.mro(c.cls):
        f = eng.class_attr(k, m, c.st)
        if isinstance(f, Fn) and isinstance(own, Fn) and f.qual != own.qual:
            eng.overrides[f.qual] = lambda en, fn, args, kw, st, node: [(en.emit("parents", (), st, node), NONE)]
    eng.tracing = True
    eff, res = run_method(c, m)
    eng.tracing = False
    X.problems = []
    P = Program(X.clauses(eff, m))
    probs = [p for w, p in X.problems]
    lt, s, p, rt = (fresh(k) for k in ("lt", "s", "p", "rt"))
    R_ = App("restriction", (rt,))
    val = App("m:converter", (R_, App("str", (lt,))))
    A = spec.iri("rdf:type")
    body = [("elem", ("restrictions",), rt), ("in", "G", (s, p, lt)), ("isa", lt, frozenset(("Literal",))), ("in", "G", (lt, A, App("attr:base_type", (R_,)))),
            ("opq", ("truthy", App("m:checkValue", (R_, val))))]
    neg = [("opq", ("raises", "ValueError", "converter", R_, App("str", (lt,)))), ("opq", ("raises", "TypeError", "checkValue", R_, val))]
    head = (lt, A, App("attr:datatype", (R_,)))
    loc = P.clauses[0].loc if P.clauses else ("owlrl/OWLRLExtras.py", 0, "OWLRL_Extension.one_time_rules")

    class strict:
        clause = Clause(head, tuple(body), tuple(neg), name="restricted-type")
    v, pr = complete(strict, P)
    key = "complete/OWLRL_Extension/restricted-type"
    if v:
        rep.ok({"rule": "restricted-type: lt a base, the facets accept lt => lt a datatype", "class": "OWLRL_Extension"})
    elif v is None or probs:
        rep.undecide(key + ": " + "; ".join(list(getattr(pr, "undecided", []))[:2] + probs[:2]))
    else:
        rep.violation(key, "not every literal that a restricted datatype accepts, and that has its base type, is typed with it", loc)
    ref = Program([Clause(head, tuple(body), (), name="restricted-type")] + [r.clause for r in spec.owl_rl(2) + spec.rdfs()])
    for cl in P.clauses:
        bad = sound(cl, ref)
        if not bad:
            rep.ok()
        elif any(x is None or any(unknown_value(y) and y.fn != "restriction" for y in (k.head if k.head != ERR else ())) for x, k in bad):
            rep.undecide("sound/OWLRL_Extension/one_time_rules/" + clause_key(cl))
        else:
            rep.violation("sound/OWLRL_Extension/one_time_rules/" + clause_key(cl), "not entailed by the specification: %r" % (bad[0][1],), cl.loc)
    # the order
    for e in eff:
        if e.kind == "store":
            ks = [x[0] for x in flat_trace(e.trace)]
            if "parents" not in ks:
                rep.violation("order/parents", "the datatype rules of OWL 2 RL have not run when the literals of a restricted datatype are looked for", e.loc)
            elif not any(k in ("gadd", "gaddall", "flush") for k in ks[ks.index("parents"):]):
                rep.violation("order/flush", "what the datatype rules of OWL 2 RL have stored is not in the graph when the literals of a restricted datatype are looked for", e.loc)
            else:
                rep.ok()


def flat_trace(t):
    from .facade import flat
    return list(flat(t))
