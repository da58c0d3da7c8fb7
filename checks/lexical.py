"""C21: the conversions of lexical forms.

The paths of each conversion are extracted by abstract interpretation, with the lexical form as an unknown: a decision list of conditions on terms over it (matches of
patterns, comparisons, lengths, raising library calls) and the term that is returned or the exception that is raised.  A partition of the lexical forms on which each
of these conditions is constant is then enumerated (the states of the product of the automata of the patterns with counters and marks for the other conditions, the
orders of a number with regard to the constants, the segments of a date), and each cell is compared with the specification of the datatype."""
from __future__ import annotations
import ast, base64, binascii, datetime, decimal, fractions, re, time, urllib.parse, xml.dom.minidom, xml.parsers.expat
from sa.rules import *
from sa.engine import *
from sa.values import *
from sa import regexlang as rl
from sa.spec import iri
from .state import call
from .facade import lst

LEX = App("lexical", ())
OK, NO = "accept", "reject"


class Unknown(Exception):
    pass


class Raised(Exception):
    def __init__(self, exc):
        self.exc = exc


EXCS = {"ValueError": ValueError, "IndexError": IndexError, "KeyError": KeyError, "TypeError": TypeError, "AttributeError": AttributeError, "OverflowError": OverflowError,
        "decimal.InvalidOperation": decimal.InvalidOperation, "InvalidOperation": decimal.InvalidOperation, "ArithmeticError": ArithmeticError, "Exception": Exception,
        "binascii.Error": binascii.Error, "UnicodeDecodeError": UnicodeError, "UnicodeEncodeError": UnicodeError, "UnicodeError": UnicodeError, "LookupError": LookupError,
        "decimal.DecimalException": decimal.DecimalException, "xml.parsers.expat.ExpatError": xml.parsers.expat.ExpatError, "RuntimeError": RuntimeError,
        "AssertionError": AssertionError, "StopIteration": StopIteration, "ZeroDivisionError": ZeroDivisionError, "NameError": NameError, "re.error": re.error}

STR_METHODS = {"strip", "lstrip", "rstrip", "lower", "upper", "find", "rfind", "index", "rindex", "count", "replace", "ljust", "rjust", "zfill", "split", "rsplit", "partition", "rpartition",
               "startswith", "endswith", "isalnum", "isdigit", "isalpha", "isspace", "isdecimal", "isnumeric", "is_finite", "is_nan", "is_infinite", "is_signed", "is_zero",
               "casefold", "removeprefix", "removesuffix", "encode", "is_qnan", "is_snan", "splitlines", "join", "swapcase", "title", "capitalize", "expandtabs", "translate",
               "islower", "isupper", "isascii", "isidentifier", "isprintable", "as_tuple", "copy_abs", "compare"}
CALLS = {"int": int, "float": float, "len": len, "abs": abs, "str": str, "max": max, "min": min, "sorted": sorted, "call:decimal.Decimal": decimal.Decimal, "decimal.Decimal": decimal.Decimal,
         "call:fractions.Fraction": fractions.Fraction, "fractions.Fraction": fractions.Fraction, "call:time.strptime": time.strptime, "time.strptime": time.strptime, "call:binascii.unhexlify": binascii.unhexlify, "binascii.unhexlify": binascii.unhexlify,
         "call:binascii.a2b_hex": binascii.unhexlify, "call:bytes.fromhex": bytes.fromhex, "call:base64.standard_b64decode": base64.standard_b64decode, "base64.standard_b64decode": base64.standard_b64decode,
         "call:base64.b64decode": base64.b64decode, "base64.b64decode": base64.b64decode, "call:binascii.a2b_base64": binascii.a2b_base64, "binascii.a2b_base64": binascii.a2b_base64,
         "call:urllib.parse.urlsplit": urllib.parse.urlsplit, "urllib.parse.urlsplit": urllib.parse.urlsplit, "call:urllib.parse.urlparse": urllib.parse.urlparse,
         "call:datetime.datetime": datetime.datetime, "datetime.datetime": datetime.datetime, "call:datetime.date": datetime.date, "datetime.date": datetime.date,
         "call:datetime.time": datetime.time, "datetime.time": datetime.time, "call:datetime.timedelta": datetime.timedelta, "datetime.timedelta": datetime.timedelta,
         "call:xml.dom.minidom.parseString": xml.dom.minidom.parseString, "xml.dom.minidom.parseString": xml.dom.minidom.parseString,
         "call:datetime.timezone": datetime.timezone, "call:datetime.datetime.strptime": datetime.datetime.strptime, "datetime.datetime.strptime": datetime.datetime.strptime,
         "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b, "USub": lambda a: -a,
         "+": lambda a, b: a + b, "-": lambda a, b: a - b, "Pow": lambda a, b: a ** b, "divmod": divmod, "BitAnd": lambda a, b: a & b,
         "group": None, "item": lambda a, b: a[b]}
LAX = [(" ", ""), ("\t", "")]


class Ev:
    """The value of a term, and the outcome of a conversion, for one lexical form."""

    def __init__(self, eng, word, how):
        self.eng, self.w, self.how = eng, word, how
        self.cache = {}
        self.env = {}

    def run(self, f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as e:
            raise Raised(type(e))

    def pattern(self, t):
        if isinstance(t, Const) and isinstance(t.v, str):
            return t.v
        if isinstance(t, App) and t.fn == "reflags" and t.args[1] in (Ext("re.U"), Ext("re.UNICODE"), Ext("re.V")) and isinstance(t.args[0], Const):
            return t.args[0].v
        if isinstance(t, App) and t.fn == "call:re.compile":
            return self.pattern(t.args[0])
        raise Unknown(t)

    def match(self, pat, s, how=None):
        p = self.pattern(pat)
        if how is None:
            how = self.how.get((pat, s))
        if how is None:
            raise Unknown(("match", p))
        s = self.t(s)
        return self.run({"match": re.match, "fullmatch": re.fullmatch, "search": re.search}[how], p, s)

    def t(self, t):
        if t == LEX:
            return self.w
        if isinstance(t, Const):
            return t.v
        if isinstance(t, Sym) and t in self.env:
            return self.env[t]
        if isinstance(t, Tup):
            return tuple(self.t(x) for x in t.items)
        if isinstance(t, (int, str, frozenset)) or t is None:
            return t
        if isinstance(t, App):
            k = self.cache.get(t, self)
            if k is self:
                try:
                    k = self.app(t)
                except Raised as e:
                    k = e
                self.cache[t] = k
            if isinstance(k, Raised):
                raise k
            return k
        if isinstance(t, Ref):
            return self.ref(t)
        if isinstance(t, Ext):
            if t.path == "datetime.timezone.utc":
                return datetime.timezone.utc
        raise Unknown(t)

    def ref(self, t):
        """An object of the heap: a timezone, or a list."""
        o = self.st.heap.get(t.id)
        if isinstance(o, HColl) and o.exact and o.kind in ("list", "tuple"):
            return [self.t(x) for x in o.items]
        if isinstance(o, HInst):
            eng = self.eng
            old, eng.sink = eng.sink, []
            try:
                rs = []
                for y, f in eng.get_attr(t, "utcoffset", self.st, any_node()):
                    rs += eng.call(f, [Const(None)], {}, y, any_node())
            finally:
                eng.sink = old
            # (the paths of the offset carry the conditions of the path they start from)
            vs = {}
            for y, v in rs:
                if isinstance(v, Exit) and v.kind != "return":
                    raise Unknown(("utcoffset", v))
                vs[v] = y
            if len(vs) != 1:
                raise Unknown("utcoffset")
            (v, y), = vs.items()
            keep, self.st = self.st, y
            try:
                d = self.t(v)
            finally:
                self.st = keep
            if not isinstance(d, datetime.timedelta):
                raise Unknown(v)
            return self.run(datetime.timezone, d)
        raise Unknown(t)

    def app(self, t):
        fn, args = t.fn, t.args
        if fn == "re":
            return self.match(*args)
        if fn in ("group", "call:re.groups", "m:groups"):
            m = args[0] if isinstance(args[0], App) and args[0].fn == "re" else App("re", args[:2])
            m = self.t(m)
            if m is None:
                raise Raised(AttributeError)
            if fn != "group":
                return m.groups()
            return self.run(m.group, *[self.t(x) for x in args[2:]])
        if fn == "m:end" or fn == "m:start" or fn == "m:span":
            m = self.t(args[0])
            if m is None:
                raise Raised(AttributeError)
            return self.run(getattr(m, fn[2:]), *[self.t(x) for x in args[1:]])
        if fn == "slice":
            v, a = self.t(args[0]), [self.t(x) for x in args[1:]]
            return self.run(lambda: v[slice(*a)])
        if fn == "join":
            v = self.t(args[1])
            return self.run(self.t(args[0]).join, v)
        if fn == "fmt":
            v = self.t(args[0])
            if not isinstance(v, str):
                raise Unknown(t)
            if "%" in v and "{" not in v:
                return self.run(lambda: v % tuple(self.t(x) for x in args[1:]))
            return self.run(v.format, *[self.t(x) for x in args[1:]])
        if fn.startswith("attr:tm_"):
            v = self.t(args[0])
            if isinstance(v, time.struct_time):
                return getattr(v, fn[5:])
        if fn in ("attr:scheme", "attr:netloc", "attr:path", "attr:query", "attr:fragment", "attr:year", "attr:month", "attr:day", "attr:hour", "attr:minute", "attr:second"):
            return getattr(self.t(args[0]), fn[5:])
        if fn == "Literal":
            kw = {x.items[0].v: x.items[1] for x in args[1:] if isinstance(x, Tup) and len(x.items) == 2 and isinstance(x.items[0], Const)}
            if len(kw) != len(args) - 1 or set(kw) - {"lang"}:
                raise Unknown(t)
            lang = self.t(kw["lang"]) if "lang" in kw else None
            return ("Literal", self.t(args[0]), lang)
        if fn.startswith("m:") and fn[2:] in STR_METHODS:
            v = self.t(args[0])
            if not isinstance(v, (str, decimal.Decimal, bytes)):
                raise Unknown(t)
            a = [self.t(x) for x in args[1:]]
            return self.run(lambda: getattr(v, fn[2:])(*a))
        f = CALLS.get(fn) or CALLS.get(fn[len("call:builtins."):] if fn.startswith("call:builtins.") else fn[5:] if fn.startswith("call:") else "")
        if f is not None:
            a, kw = [], {}
            for x in args:
                if isinstance(x, Tup) and len(x.items) == 2 and isinstance(x.items[0], Const) and x.items[0].v in ("hours", "minutes", "seconds", "days", "tzinfo", "validate", "microsecond"):
                    kw[x.items[0].v] = self.t(x.items[1])
                elif isinstance(x, App) and x.fn == "*" and len(x.args) == 1:
                    a += list(self.t(x.args[0]))
                else:
                    a.append(self.t(x))
            return self.run(f, *a, **kw)
        raise Unknown(t)

    def guard(self, l):
        k = l[0]
        if k == "eq":
            return self.t(l[1]) == self.t(l[2])
        if k == "lt":
            a, b = self.t(l[1]), self.t(l[2])
            try:
                return a < b
            except Exception:
                raise Unknown("comparison of %r and %r" % (a, b))
        if k == "memb":
            return self.run(lambda: self.t(l[1]) in self.members(l[2]))
        if k == "in" and len(l) == 3:
            a, b = self.t(l[1]), self.t(l[2])
            return self.run(lambda: b in a)
        if k == "neg":
            keep, self.env = self.env, dict(self.env)
            try:
                return not self.sat(l[1])
            finally:
                self.env = keep
        if k == "iter":
            return bool(self.t(l[1]))
        if k == "opq":
            l = l[1]
            if l[0] == "matched":
                return self.match(l[1], l[2], l[3].v) is not None
            if l[0] == "truthy":
                return bool(self.t(l[1]))
            if l[0] == "in" and len(l) == 3:
                a, b = self.t(l[1]), self.t(l[2])
                return self.run(lambda: b in a)
            if l[0] == "substr":
                a, b = self.t(l[1]), self.t(l[2])
                return self.run(lambda: a in b)
            if l[0] == "mtrue":
                return bool(self.t(App("m:" + l[1].v, tuple(l[2:]))))
            if l[0] == "raises":
                want = EXCS.get(l[1])
                if want is None:
                    raise Unknown(l)
                if l[2] == "index" and len(l) == 5 and isinstance(l[4], Const) and isinstance(l[4].v, int):
                    fn = "item"             # (a subscript)
                elif l[2] in STR_METHODS:
                    fn = "m:" + l[2]
                else:
                    fn = l[2] if l[2] in CALLS else "call:" + l[2]
                    if fn not in CALLS:
                        raise Unknown(l)
                args = l[3:]
                if fn == "item":
                    pass
                try:
                    self.t(App(fn, tuple(args)))
                except Raised as e:
                    if issubclass(e.exc, want) or want is ValueError and issubclass(e.exc, (xml.parsers.expat.ExpatError, OverflowError)):
                        return True
                    raise
                return False
        raise Unknown(l)

    def sat(self, gs, i=0):
        """Does the binding of the unknowns so far extend to one that satisfies these conditions?"""
        while i < len(gs):
            p, l = gs[i]
            i += 1
            if l[0] == "elem" and p and isinstance(l[2], Sym) and l[2] not in self.env:
                c = self.t(l[1][1] if isinstance(l[1], tuple) and l[1][0] == "iter" else l[1])
                if not isinstance(c, (str, list, tuple, frozenset, set, bytes)):
                    raise Unknown(l)
                keep = dict(self.env)
                for x in c:
                    self.env = {**keep, l[2]: x}
                    self.cache = {}
                    if self.sat(gs, i):
                        return True
                self.env, self.cache = keep, {}
                return False
            if self.guard(l) != p:
                return False
        return True

    def members(self, x):
        if isinstance(x, frozenset):
            return {y.v if isinstance(y, Const) else y for y in x}
        return self.t(x)

    def path(self, y, v):
        """-> None if this path is not taken, ("value", v), ("raise", class), or Unknown"""
        self.st = y
        try:
            if not self.sat(y.guards):
                return None
        except Raised as e:
            # an operation of a condition raises: into a handler, unless the interpreter says that it escapes
            if e.exc.__name__ not in self.escapes:
                raise Unknown("%s in a condition" % e.exc.__name__)
            return ("raise", e.exc)
        if isinstance(v, Exit):
            if v.kind == "raise":
                c = v.val
                name = c.args[0].v if isinstance(c, App) and c.fn == "exc" and isinstance(c.args[0], Const) else None
                if name in EXCS:
                    return ("raise", EXCS[name])
                raise Unknown(v)
            v = v.val
        try:
            return ("value", self.t(v))
        except Raised as e:
            return ("raise", e.exc)
        except Unknown:
            return ("value", Unknown)


def outcome(eng, paths, word, escapes=()):
    got = []
    unknown = None
    for how, y, v in paths:
        e = Ev(eng, word, how)
        e.escapes = escapes
        try:
            r = e.path(y, v)
        except Unknown as u:
            unknown = u
            continue
        except RecursionError:
            unknown = Unknown("recursion")
            continue
        if r is not None and r not in got:
            got.append(r)
    # a path with the value of an operation that raises, and a path of a raising guard, agree
    if len(got) == 1:
        return got[0]
    if not got and unknown is None:
        return ("nothing", None)
    raise unknown or Unknown("several outcomes %s" % (got,))


def hows(y):
    out = {}
    for p, l in y.guards:
        if l[0] == "opq" and l[1][0] == "matched":
            out[(l[1][1], l[1][2])] = l[1][3].v
    return out


# ---------------------------------------------------------------------------------------------------------------- words
def subterms(x, acc):
    if isinstance(x, App):
        acc.append(x)
        for a in x.args:
            subterms(a, acc)
    elif isinstance(x, Tup):
        for a in x.items:
            subterms(a, acc)
    elif isinstance(x, (tuple, frozenset)):
        for a in x:
            if isinstance(x, frozenset) and isinstance(a, str):
                a = Const(a)
            subterms(a, acc)
    elif isinstance(x, Const):
        acc.append(x)
    elif isinstance(x, Exit):
        pass
    return acc


def terms(paths):
    acc = []
    seen = set()
    for how, y, v in paths:
        for p, l in y.guards:
            if l not in seen:
                seen.add(l)
                subterms(l, acc)
        if not isinstance(v, Exit):
            subterms(v, acc)
    return acc


ASCII = [9, 10, 13] + list(range(32, 127))


def patterns(paths):
    """The regular expressions matched against the whole lexical form or a part of it."""
    out = set()
    for how, y, v in paths:
        for p, l in y.guards:
            if l[0] == "opq" and l[1][0] == "matched":
                try:
                    out.add((Ev(None, "", {}).pattern(l[1][1]), l[1][3].v))
                except Unknown:
                    pass
    return sorted(out)


def classes(paths, spec, chars, limit=60000, depth=60):
    """Representatives of the cells of the partition."""
    comps = []
    for p, how in patterns(paths) + [(s, "fullmatch") for s in spec]:
        try:
            comps.append(rl.build(p, how))
        except rl.Unsupported as u:
            raise Unknown(u)
    ts = terms(paths)
    pts = {0}
    for A, _, _ in comps:
        rl.cuts(A, pts)
    special, ints, spaced = set(), [0], False
    for x in ts:
        if isinstance(x, Const) and isinstance(x.v, str) and len(x.v) == 1:
            special.add(ord(x.v))
        elif isinstance(x, Const) and isinstance(x.v, int) and not isinstance(x.v, bool) and 0 <= x.v < 8:
            ints.append(x.v)
        elif isinstance(x, App) and x.fn in ("m:strip", "m:split", "m:lstrip", "m:rstrip"):
            spaced = True
    index = max([x.args[1].v + 1 for x in ts if isinstance(x, App) and x.fn == "item" and x.args[0] == LEX and isinstance(x.args[1], Const) and isinstance(x.args[1].v, int) and x.args[1].v >= 0] or [0])
    cap = 2 * max(ints) + 4

    def kind(c):
        return chr(c) if c in special else "a" if chr(c).isalnum() else "s" if chr(c).isspace() else "o"
    # one character for every class
    reps = {}
    for c in chars:
        key = (sum(1 for p in pts if p <= c), kind(c), chr(c).islower(), c in special and c)
        reps.setdefault(key, c)
    reps = sorted(reps.values())
    base = tuple(rl.closure(A, {s}) for A, s, f in comps)

    def extra(word, c, e):
        n, first, seen, sp = e
        n = n + 1 if n < cap else cap - 4 + (n + 1 - cap) % 4
        if len(first) < index:
            first = first + chr(c)
        k = kind(c)
        if len(special) <= 8 and k not in seen:
            seen = seen | {k}
        if spaced:
            last, dbl, lead = sp
            s = chr(c).isspace()
            sp = (s, dbl or (s and last and word != ""), lead or (s and word == ""))
        return (n, first, seen, sp)
    start = (base, (0, "", frozenset(), (False, False, False)))
    seen = {start: ""}
    todo = [start]
    i = 0
    while i < len(todo):
        st = todo[i]
        i += 1
        w = seen[st]
        if len(w) >= depth:
            continue
        for c in reps:
            b = tuple(rl.move(A, S, c) for (A, _, _), S in zip(comps, st[0]))
            n = (b, extra(w, c, st[1]))
            if n not in seen:
                seen[n] = w + chr(c)
                if len(seen) > limit:
                    raise Unknown("too many classes")
                todo.append(n)
    return list(seen.values())


ALPHABET = {"rdf:PlainLiteral": "@e-E \n", "xsd:hexBinary": "0aFg ", "xsd:base64Binary": "AQ+=b", "xsd:language": "aZ-0_", "xsd:token": "a \t\n", "xsd:boolean": "01 "}


def neighbours(d, words, chars, thorough):
    """Words beyond the cells, which exceed what the conditions of the conversion distinguish: the effect of an operation on the value (strip, replace, a slice) need not be
    constant on a cell.  All the words over a small alphabet, up to a length, and the words of the cells with a character doubled, inserted or appended."""
    al = ALPHABET.get(d) or "".join(c for c in "a:-.% A1" if ord(c) in chars)
    n = (6 if thorough else 5) if len(al) <= 6 else 4
    out = dict.fromkeys(words)
    level = [""]
    for k in range(n):
        level = [w + c for w in level for c in al]
        out.update(dict.fromkeys(level))
    for w in sorted(words, key=len)[:1000 if thorough else 250]:
        for c in al:
            for i in sorted({0, len(w) // 2, len(w)} | {i for i in range(len(w)) if w[i] == c}):
                out[w[:i] + c + w[i:]] = None
        out[w + w] = None
    return list(out)


def numbers(paths, cs):
    """The constants that integers are compared with, and their neighbours."""
    out = set(cs)
    for x in terms(paths):
        if isinstance(x, Const) and isinstance(x.v, int) and not isinstance(x.v, bool):
            out.add(x.v)
    return sorted({x + d for x in out for d in (-1, 0, 1)} | {-x for x in out})


# -------------------------------------------------------------------------------------------------------- specification
def regex_spec(rx, value=lambda w: w):
    r = re.compile(rx)
    return lambda w: (OK, value(w)) if r.fullmatch(w) else (NO,)


LANG = r"[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*"
L = "A-Za-zÀ-ÿ"


def plain(w):
    m = re.fullmatch(r"(?s)(.*)@((?:%s)?)" % LANG, w)
    return (OK, ("Literal", m.group(1), m.group(2).lower() or None)) if m else (NO,)


def anyuri(w):
    if w == "":
        return (OK, w)
    if re.match(r"[a-zA-Z][a-zA-Z0-9+.\-]*:", w):
        return (OK, w)
    if w[0] == ":" or re.match(r"%(?![0-9a-fA-F]{2})", w):
        return (NO,)
    return None if w[0] == "?" or not re.match(r"[%A-Za-z0-9.]", w) else (OK, w)


def base64spec(w):
    if re.fullmatch(r"([A-Za-z0-9+/]{4})*([A-Za-z0-9+/][AQgw]==|[A-Za-z0-9+/]{2}[AEIMQUYcgkosw048]=)?", w):
        return (OK, base64.b64decode(w))
    return (NO,) if re.search(r"[^A-Za-z0-9+/= é]", w) or "=" not in w and " " not in w and "é" not in w else None


STRINGS = {  # datatype -> (specification, its patterns, characters)
    "xsd:language": (regex_spec(LANG), [LANG], ASCII + [0xE9]),
    "xsd:NMTOKEN": (regex_spec("[%s0-9_:.\\-]+" % L), ["[%s0-9_:.\\-]+" % L], ASCII + [0xE9]),
    "xsd:Name": (regex_spec("[%s_:][%s0-9_:.\\-]*" % (L, L)), ["[%s_:][%s0-9_:.\\-]*" % (L, L)], ASCII + [0xE9]),
    "xsd:NCName": (regex_spec("[%s_][%s0-9_.\\-]*" % (L, L)), ["[%s_][%s0-9_.\\-]*" % (L, L)], ASCII + [0xE9]),
    "xsd:token": (regex_spec(r"([^ \t\n\r]+( [^ \t\n\r]+)*)?"), [r"([^ \t\n\r]+( [^ \t\n\r]+)*)?"], ASCII + [0xE9]),
    "xsd:normalizedString": (regex_spec(r"[^\t\n\r]*"), [r"[^\t\n\r]*"], ASCII + [0xE9]),
    "xsd:string": (regex_spec(r"(?s).*"), [r"(?s).*"], ASCII + [0xE9]),
    "rdf:HTML": (regex_spec(r"(?s).*"), [r"(?s).*"], ASCII + [0xE9]),
    "rdf:PlainLiteral": (plain, [r"(?s).*@(%s)?" % LANG], ASCII + [0xE9]),
    "xsd:boolean": (lambda w: (OK, w in ("true", "1")) if w in ("true", "1", "false", "0") else (NO,), ["true|1", "false|0", "(?i)true|false", r"\s*(true|1|false|0)\s*", "[01]+"], ASCII + [0xE9]),
    "xsd:hexBinary": (regex_spec(r"([0-9a-fA-F]{2})*", bytes.fromhex), [r"([0-9a-fA-F]{2})*"], ASCII + [0xE9]),
    "xsd:base64Binary": (base64spec, [r"([A-Za-z0-9+/]{4})*([A-Za-z0-9+/][AQgw]==|[A-Za-z0-9+/]{2}[AEIMQUYcgkosw048]=)?"], ASCII),
    "xsd:anyURI": (anyuri, [r"[a-zA-Z][a-zA-Z0-9+.\-]*:.*", r"[0-9a-fA-F]+.*", r"%[0-9a-fA-F]{2}.*"], [ord(c) for c in "%?:/#.-AGag07é"]),
}
INF = None
INTEGERS = {"xsd:integer": (INF, INF), "xsd:nonNegativeInteger": (0, INF), "xsd:positiveInteger": (1, INF), "xsd:nonPositiveInteger": (INF, 0), "xsd:negativeInteger": (INF, -1),
            "xsd:long": (-2 ** 63, 2 ** 63 - 1), "xsd:int": (-2 ** 31, 2 ** 31 - 1), "xsd:short": (-2 ** 15, 2 ** 15 - 1), "xsd:byte": (-2 ** 7, 2 ** 7 - 1),
            "xsd:unsignedLong": (0, 2 ** 64 - 1), "xsd:unsignedInt": (0, 2 ** 32 - 1), "xsd:unsignedShort": (0, 2 ** 16 - 1), "xsd:unsignedByte": (0, 2 ** 8 - 1)}
D = decimal.Decimal
REALS = {"xsd:double": (D("4.9E-324"), D("1.7976931348623157E+308"), D("1.0E-330"), D("1.0E+310")),
         "xsd:float": (D("1.4E-45"), D("3.4028235E+38"), D("1.0E-50"), D("1.0E+40"))}
TIMES = "xsd:dateTime xsd:dateTimeStamp xsd:date xsd:time xsd:gYear xsd:gYearMonth xsd:gMonthDay xsd:gDay xsd:gMonth".split()
ALL = sorted(set(STRINGS) | set(INTEGERS) | set(REALS) | set(TIMES) | {"xsd:decimal", "rdf:XMLLiteral"})


ODD = ("1_0", "1_000_000", "\u0661\u0662", "\uff11", "-1_0", "1\u0660")     # accepted by the number parsers of Python


def rational_words(paths):
    F = fractions.Fraction
    for n in (0, 1, 2, 3, 10, 12345678901234567890123):
        for sg in ("", "-", "+"):
            for k in (1, 2, 3, 7, 10, 98765432109876543210):
                for w in ("%s%d/%d", "%s0%d/%d", "%s%d/00%d"):
                    yield w % (sg, n, k), (OK, F(-n if sg == "-" else n, k))
            yield "%s%d" % (sg, n), None            # (a numerator alone: left open)
    for w in ("", "/", "1/", "/2", "1//2", "1/2/3", "1/2/", "/1/2", "1/2/3/4", "1/0", "1/-2", "1/+2", "-1/-2", "0/0", "1.0/2", "1/2.0", "1E2/3", "1/1E2", "a/2", "1/b", "--1/2", "abc", "1\\2", "1:2",
              "1/2_0", "1_0/2", "\u0661/2", "1/\u0662", "INF", "1/INF", "1/ +2", "1/ -2", "-/2", "1/x", "0.5", "1/2a", "1/2/0"):
        yield w, (NO,)


def integer_words(d, paths):
    lo, hi = INTEGERS[d]
    for n in numbers(paths, [0] + [x for x in (lo, hi) if x is not None]):
        ok = (lo is None or lo <= n) and (hi is None or n <= hi)
        for w in ([str(n), "%+d" % n, "%s00%d" % ("-" if n < 0 else "", abs(n))] + (["-0", "+0"] if n == 0 else [])):
            yield w, ((OK, n) if ok else (NO,))
    for w in ("", "abc", "1.0", "1.5", "1E3", "1e3", "x1", "1x", "--1", "+-1", "+", "-", "0x1F", "INF", "NaN", "true") + ODD:
        yield w, (NO,)


def decimal_words(paths):
    for w in ("0", "1", "-1", "+1", "1.5", "-1.5", "+0.25", ".5", "5.", "-.5", "00.10", "123456789012345678901234567890.123456789", "-0", "0.0"):
        yield w, (OK, D(w))
    for w in ("", "abc", "1E5", "1e5", "1.5E-3", "-1e+3", "NaN", "nan", "sNaN", "INF", "-INF", "inf", "Infinity", "-Infinity", "+inf", "1..2", "1.2.3", "--1", "+", ".", "1,5", "0x10", "qnan", "NaN12") + ODD:
        yield w, (NO,)


def real_words(d, paths):
    small, big, low, high = REALS[d]
    cs = {small, big, low, high, D(1), D("0.001"), D(1000000)}
    for x in terms(paths):
        if isinstance(x, App) and x.fn in ("call:decimal.Decimal", "decimal.Decimal") and isinstance(x.args[0], Const):
            try:
                cs.add(abs(D(x.args[0].v)))
            except Exception:
                pass
        elif isinstance(x, Const) and isinstance(x.v, (int, float)) and not isinstance(x.v, bool):
            cs.add(abs(D(x.v)))
    for c in sorted(c for c in cs if c.is_finite() and c != 0):
        for v in (c * D("0.99"), c, c * D("1.01")):
            for s in ("", "-"):
                w = s + format(v, "E")
                x = D(w)
                yield w, (OK, x) if small <= abs(x) <= big else (NO,) if not low < abs(x) < high else None
    for w in ("0", "-0", "0.0", "0E0", "0.000", "1", "-1", "1.5", "1e5", "1E+5", "-1.5E-3", "+1", ".5", "5."):
        yield w, (OK, D(w))
    for w in ("INF", "-INF", "NaN", "inf", "-inf", "nan"):
        yield w, (OK, D(w))
    for w in ("", "abc", "1..2", "1E", "E5", "--1", "1,5", "true", "Inf inity") + ODD:
        yield w, (NO,)


BODY = {  # valid and invalid forms, without fractions of seconds and time zone
    "xsd:date": (["2008-02-29", "1999-12-31", "2001-01-01"], ["2007-02-29", "2001-13-01", "2001-00-10", "2001-04-31", "01-01-2001", "2001-01", "2001-01-01T00:00:00", "12:00:00", ""]),
    "xsd:time": (["00:00:00", "23:59:59", "12:30:01"], ["25:00:00", "12:60:00", "12:30", "12:30:62", "2001-01-01", ""]),
    "xsd:dateTime": (["2008-02-29T00:00:00", "1999-12-31T23:59:59", "2001-01-01T12:30:01"],
                     ["2007-02-29T00:00:00", "2001-13-01T12:30:01", "2001-01-01T25:00:00", "2001-01-01 12:30:01", "2001-01-01", "12:30:01", "2001-01-01T12:30", "2001-01-01T12:60:01", ""]),
    "xsd:gYear": (["2008", "1999", "0001"], ["01", "abcd", "2008-01", "2008-01-01", "", "20080"]),
    "xsd:gYearMonth": (["2008-02", "1999-12"], ["2008-13", "2008-00", "2008", "2008-01-01", "", "02-2008"]),
    "xsd:gMonthDay": (["--02-29", "--12-31", "--01-01", "--04-30"], ["--02-30", "--04-31", "--13-01", "02-29", "-02-29", "--02", "---01", "2008-02-29", "--02-29-01", ""]),
    "xsd:gDay": (["---01", "---31", "---30", "---29"], ["---32", "---00", "--01", "-01", "01", "---01-01", ""]),
    "xsd:gMonth": (["--01", "--12"], ["--13", "--00", "01", "-01", "---01", "--01-01", ""]),
}
BODY["xsd:dateTimeStamp"] = BODY["xsd:dateTime"]


def date_value(d, body, frac, tz):
    if d.startswith("xsd:g"):
        return None
    us = int((frac[1:7]).ljust(6, "0")) if frac else 0
    z = None
    if tz:
        z = datetime.timezone.utc if tz == "Z" else datetime.timezone((1 if tz[0] == "+" else -1) * datetime.timedelta(hours=int(tz[1:3]), minutes=int(tz[4:6])))
    if d == "xsd:date":
        return datetime.date(int(body[:4]), int(body[5:7]), int(body[8:10]))
    if d == "xsd:time":
        return datetime.time(int(body[:2]), int(body[3:5]), int(body[6:8]), us, z)
    return datetime.datetime(int(body[:4]), int(body[5:7]), int(body[8:10]), int(body[11:13]), int(body[14:16]), int(body[17:19]), us, z)


def date_words(d, thorough):
    good, bad = BODY[d]
    fractions = ["", ".5", ".05", ".123456", ".1234567", ".000001", ".120"] if "ime" in d else [""]
    zones = ["", "Z", "+00:00", "-00:00", "+01:00", "-01:30", "+14:00", "-14:00", "+05:45", "-09:59"]
    for b in good:
        for f in fractions:
            for z in zones:
                w = b + f + z
                if d == "xsd:dateTimeStamp" and not z:
                    yield w, (NO,)
                else:
                    v = date_value(d, b, f, z)
                    yield w, (OK, w if v is None else v)
    b = good[0]
    for hh in range(0, 100) if thorough else (0, 1, 9, 10, 13, 14, 15, 23, 24, 59, 60, 99):
        for mm in range(0, 100) if thorough else (0, 1, 10, 30, 58, 59, 60, 61, 99):
            for s in "+-":
                z = "%s%02d:%02d" % (s, hh, mm)
                if mm > 59 or hh * 60 + mm > 840:
                    yield b + z, (NO,)
                else:
                    v = date_value(d, b, "", z)
                    yield b + z, (OK, b + z if v is None else v)
    z = "Z" if d == "xsd:dateTimeStamp" else ""
    for b in bad:
        for z2 in {z, "Z", "+01:00"}:
            yield b + z2, (NO,)
    for b in good:
        for z2 in ("ZZ", "z", "+1:00", "+01:0", "01:00", "+0100", " ", "+01:00Z", "GMT", "-", "+aa:bb", ".Z", ".+01:00", ".5.5" + z, ".x" + z, ".5x" + z, "x" + z, "." + z):
            # ("2008-01:00" is not a year with a zone "-01:00"; a year with a zone is: "2008-01:00")
            if not (d.startswith("xsd:g") or d == "xsd:date") or not z2.startswith("-"):
                yield b + z2, (NO,)
        for k in range(len(b) + 1):
            yield b[:k] + "x" + b[k:] + z, (NO,)
        for k in range(len(b)):
            yield b[:k] + "x" + b[k + 1:] + z, (NO,)
    if "." not in "".join(fractions):
        yield good[0] + ".5" + z, (NO,)


def xml_words():
    for w in ("", "text", "<a/>", "<a>b</a>", "a<b/>c", "<a/><b/>", "&amp;", "<a x='1'>é</a>"):
        yield w, (OK, Unknown)
    for w in ("<a>", "</a>", "<a></b>", "&", "<", "<a x=1/>", "&undefined;", "</content><content>", "a < b"):
        yield w, (NO,)


def same(a, b):
    if b is Unknown or a is Unknown:
        return True
    if isinstance(b, decimal.Decimal) and isinstance(a, (decimal.Decimal, float, int)) and not isinstance(a, bool):
        if b.is_nan():
            return a != a
        return a == b
    if isinstance(b, bool) or isinstance(a, bool):
        return a is b
    if type(a) != type(b) and not (isinstance(a, int) and isinstance(b, int)):
        return False
    if isinstance(a, (datetime.datetime, datetime.time)):
        return a == b and a.utcoffset() == b.utcoffset() and (a.tzinfo is None) == (b.tzinfo is None)
    return a == b


def lexical(rep, root, tier):
    rep.rule("abstract interpretation of every conversion of AltXSDToPYTHON with an unknown lexical form; the decision list of its paths is evaluated on a representative of each cell of a partition of "
             "the lexical forms on which all its conditions are constant, and compared with the lexical space and the values of the datatype")
    thorough = tier == "thorough"
    eng = Engine(root)
    eng.load()
    m = eng.modules.get("owlrl.DatatypeHandling")
    t = eng.lookup("AltXSDToPYTHON", eng.init_state, m.env) if m else None
    o = eng.init_state.heap.get(t.id) if isinstance(t, Ref) else None
    if not (isinstance(o, HColl) and o.kind == "dict" and o.exact):
        rep.undecide("the table of the conversions is not a literal dictionary")
        return
    table = dict(o.items)
    for d in ALL:
        f = table.get(iri(d))
        loc = ("owlrl/DatatypeHandling.py", getattr(getattr(f, "node", None), "lineno", 0), d)
        if f is None:
            rep.violation("missing:" + d, "there is no conversion for %s" % d, loc)
            continue
        try:
            convert(rep, eng, d, f, loc, thorough)
        except Unknown as u:
            rep.undecide("the conversion of %s cannot be followed: %s" % (d, str(u)[:160]))
    rational(rep, eng, thorough)


def rational(rep, eng, thorough):
    """The conversion that the extension registers for owl:rational."""
    d = "owl:rational"
    m = eng.modules.get("owlrl.OWLRLExtras")
    fs = set()
    for x in ast.walk(m.tree) if m else ():
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "add_new_datatype":
            a = list(x.args) + [None] * 2
            kw = {k.arg: k.value for k in x.keywords}
            a[0], a[1] = a[0] or kw.get("uri"), a[1] or kw.get("conversion_function")
            if isinstance(a[0], ast.Attribute) and a[0].attr == "rational" and isinstance(a[1], ast.Name):
                fs.add(a[1].id)
    if len(fs) != 1:
        rep.undecide("the conversion of owl:rational is not found")
        return
    f = eng.lookup(fs.pop(), eng.init_state, m.env)
    try:
        convert(rep, eng, d, f, ("owlrl/OWLRLExtras.py", getattr(getattr(f, "node", None), "lineno", 0), d), thorough)
    except Unknown as u:
        rep.undecide("the conversion of %s cannot be followed: %s" % (d, str(u)[:160]))


def literals(paths):
    """The string constants that occur: words of their own."""
    out = set()
    for x in terms(paths):
        if isinstance(x, Const) and isinstance(x.v, str) and len(x.v) < 20 and "%" not in x.v and "\\" not in x.v:
            out |= {x.v, x.v.upper(), x.v.lower()}
    return sorted(out)


def convert(rep, eng, d, f, loc, thorough):
    if isinstance(f, (Fn, Bound)):
        res = call(eng, f, [LEX], eng.init_state)
    else:
        eng.sink = []
        res = eng.call(f, [LEX], {}, eng.init_state, any_node())
    paths = [(hows(y), y, v) for y, v in res]
    escapes = {e.payload[0].v.split(".")[-1] for e in eng.sink if e.kind == "mayraise" and isinstance(e.payload[0], Const)}
    if "ValueError" in escapes:
        escapes |= {"Error", "UnicodeEncodeError", "UnicodeDecodeError"}
    if not paths:
        raise Unknown("no path")
    if d in STRINGS:
        spec, rxs, chars = STRINGS[d]
        words = [(w, spec(w)) for w in neighbours(d, classes(paths, rxs, chars), chars, thorough)]
    elif d in INTEGERS:
        words = list(integer_words(d, paths))
    elif d in REALS:
        words = list(real_words(d, paths))
    elif d == "xsd:decimal":
        words = list(decimal_words(paths))
    elif d == "owl:rational":
        words = list(rational_words(paths))
    elif d == "rdf:XMLLiteral":
        words = list(xml_words())
    else:
        words = list(date_words(d, thorough))
    words += [(w, None) for w in literals(paths)]
    n = unk = 0
    bad = {}
    why = None
    for w, want in words:
        try:
            r = outcome(eng, paths, w, escapes)
        except Unknown as u:
            if want is None:
                continue
            unk += 1
            why = why or (w, u)
            continue
        n += 1
        if r[0] == "raise" and not issubclass(r[1], ValueError) and not (r[1] is xml.parsers.expat.ExpatError):
            bad.setdefault("exception", "the lexical form %r of %s raises %s instead of ValueError" % (w, d, r[1].__name__))
        elif want is None:
            continue
        elif want[0] == OK and r[0] != "value":
            bad.setdefault("valid", "the lexical form %r is refused by the conversion of %s" % (w, d))
        elif want[0] == OK and not same(r[1], want[1]):
            bad.setdefault("value", "the lexical form %r of %s is converted into %r instead of %r" % (w, d, r[1], want[1]))
        elif want[0] == NO and r[0] == "value":
            bad.setdefault("invalid", "the lexical form %r is accepted by the conversion of %s" % (w, d))
    for k in ("exception", "valid", "invalid", "value"):
        rep.check(k not in bad, "%s:%s" % (k, d), bad.get(k, ""), loc)
    if unk:
        rep.undecide("%d of %d cells of the conversion of %s cannot be evaluated, e.g. %r: %s" % (unk, unk + n, d, why[0], str(why[1])[:120]))
    rep.count("conversions")
    rep.count("paths", len(paths))
    rep.count("cells", n)
