"""Regular languages: is the language of a pattern (fullmatch or match) that of another one?  Decided on automata, for the patterns of Python's re
that are regular; Unsupported otherwise."""
from __future__ import annotations
import re
try:
    from re import _parser as sp, _constants as sc
except ImportError:  # older Pythons
    import sre_parse as sp, sre_constants as sc

TOP = 0x110000


class Unsupported(Exception):
    pass


def norm(rs):
    rs = sorted(r for r in rs if r[0] < r[1])
    out = []
    for a, b in rs:
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


def compl(rs):
    out, p = [], 0
    for a, b in norm(rs):
        out.append((p, a))
        p = b
    out.append((p, TOP))
    return norm(out)


DIGIT = ((48, 58),)
SPACE = ((9, 14), (32, 33), (28, 32))
WORD = ((48, 58), (65, 91), (95, 96), (97, 123))
# a representative of the letters and digits beyond ASCII
XDIGIT, XSPACE, XWORD = ((0x660, 0x66A),), ((0xA0, 0xA1), (0x2000, 0x200B), (0x3000, 0x3001)), ((0xC0, 0xD7), (0xD8, 0xF7), (0x660, 0x66A), (0x3041, 0x3097))


def category(c, flags):
    ascii_ = bool(flags & re.ASCII)
    n = str(c)
    base, ext = {"DIGIT": (DIGIT, XDIGIT), "SPACE": (SPACE, XSPACE), "WORD": (WORD, XWORD)}[n.split("_")[-1]]
    s = norm(base if ascii_ else base + ext)
    return compl(s) if "_NOT_" in n else s


class NFA:
    def __init__(self):
        self.n = 0
        self.eps = {}
        self.tr = {}

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def t(self, a, cs, b):
        self.tr.setdefault(a, []).append((cs, b))

    def seq(self, items, s, flags, last=True):
        items = list(items)
        for i, (op, av) in enumerate(items):
            s = self.item(op, av, s, flags, first=(i == 0), last=(i == len(items) - 1))
        return s

    def item(self, op, av, s, flags, first, last):
        if op is sc.LITERAL:
            cs = ((av, av + 1),)
            if flags & re.IGNORECASE:
                cs = norm(tuple((ord(c), ord(c) + 1) for c in {chr(av).lower(), chr(av).upper()} if len(c) == 1))
            d = self.new()
            self.t(s, cs, d)
            return d
        if op is sc.NOT_LITERAL:
            d = self.new()
            self.t(s, compl(((av, av + 1),)), d)
            return d
        if op is sc.ANY:
            d = self.new()
            self.t(s, ((0, TOP),) if flags & re.DOTALL else compl(((10, 11),)), d)
            return d
        if op is sc.IN:
            neg, rs = False, []
            for o, v in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    rs.append((v, v + 1))
                elif o is sc.RANGE:
                    rs.append((v[0], v[1] + 1))
                elif o is sc.CATEGORY:
                    rs += list(category(v, flags))
                else:
                    raise Unsupported(str(o))
            if flags & re.IGNORECASE:
                for a, b in list(rs):
                    for lo, hi, k in ((65, 91, 32), (97, 123, -32)):
                        x, y = max(a, lo), min(b, hi)
                        if x < y:
                            rs.append((x + k, y + k))
            cs = norm(rs)
            d = self.new()
            self.t(s, compl(cs) if neg else cs, d)
            return d
        if op is sc.SUBPATTERN:
            g, add, sub, p = av
            return self.seq(p, s, (flags | add) & ~sub)
        if op is sc.BRANCH:
            d = self.new()
            for p in av[1]:
                b = self.new()
                self.e(s, b)
                self.e(self.seq(p, b, flags), d)
            return d
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            for _ in range(lo):
                s = self.seq(p, s, flags)
            if hi is sc.MAXREPEAT:
                a = self.new()
                self.e(s, a)
                b = self.seq(p, a, flags)
                self.e(b, a)
                d = self.new()
                self.e(a, d)
                return d
            if hi > 60:
                raise Unsupported("large repetition")
            d = self.new()
            self.e(s, d)
            for _ in range(hi - lo):
                s = self.seq(p, s, flags)
                self.e(s, d)
            return d
        raise Unsupported(str(op))


def build(pattern, how="fullmatch"):
    """-> (NFA, start, accepting)"""
    try:
        p = sp.parse(pattern)
    except re.error as e:
        raise Unsupported(str(e))
    flags = p.state.flags
    items = list(p)
    A = NFA()
    s = A.new()
    starts = [(sc.AT, sc.AT_BEGINNING), (sc.AT, sc.AT_BEGINNING_STRING)]
    anchored = False
    while items and tuple(items[0]) in starts:
        items, anchored = items[1:], True
    end = None
    while items and items[-1][0] is sc.AT and items[-1][1] in (sc.AT_END, sc.AT_END_STRING):
        end = items[-1][1] if end is not sc.AT_END_STRING else end
        items = items[:-1]
    first = s
    if how == "search" and not anchored:
        A.t(s, ((0, TOP),), s)
        k = A.new()
        A.e(s, k)
        first = k
    f = A.seq(items, first, flags)
    if how != "fullmatch":
        if end is None:
            A.t(f, ((0, TOP),), f)
        elif end is sc.AT_END:
            # $ also matches before a final newline
            g = A.new()
            A.t(f, ((10, 11),), g)
            h = A.new()
            A.e(f, h)
            A.e(g, h)
            f = h
    return A, s, f


def closure(A, S):
    S = set(S)
    todo = list(S)
    while todo:
        for b in A.eps.get(todo.pop(), ()):
            if b not in S:
                S.add(b)
                todo.append(b)
    return frozenset(S)


def cuts(A, pts):
    for l in A.tr.values():
        for cs, _ in l:
            for a, b in cs:
                pts.add(a)
                pts.add(b)


def move(A, S, c):
    return closure(A, {b for a in S for cs, b in A.tr.get(a, ()) if any(x <= c < y for x, y in cs)})


def difference(p, q, how_p="fullmatch", how_q="fullmatch", limit=20000):
    """A string in exactly one of the languages, or None."""
    A, s, f = build(p, how_p)
    B, t, g = build(q, how_q)
    pts = {0}
    cuts(A, pts)
    cuts(B, pts)
    reps = sorted(x for x in pts if x < TOP)
    start = (closure(A, {s}), closure(B, {t}))
    seen = {start: ""}
    todo = [start]
    while todo:
        S, T = st = todo.pop(0)
        w = seen[st]
        if (f in S) != (g in T):
            return w
        for c in reps:
            n = (move(A, S, c), move(B, T, c))
            if not n[0] and not n[1]:
                continue
            if n not in seen:
                seen[n] = w + chr(c)
                if len(seen) > limit:
                    raise Unsupported("too many states")
                todo.append(n)
    return None
