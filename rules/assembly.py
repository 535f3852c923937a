"""The matrix that is assembled is the derivative of the right hand side."""
from collections import Counter
import re, os, multiprocessing
from common import *
from esp import Budget, TRUE, FALSE, split_params
from models import last

# ---------------------------------------------------------------- polynomials
def const(x): return ("poly", frozenset({((), x)}) if x else frozenset())
def atom(*a): return ("poly", frozenset({((a,), 1)}))
def poly(v):
    """the value as a polynomial over what is not known, or None"""
    if v is None: return None
    if v[0] == "poly": return v
    if v[0] in ("c", "d"):
        try: x = float(v[1])
        except (TypeError, ValueError): return None
        return const(int(x) if x == int(x) else x)
    if v[0] == "sym": return atom(*v)
    return None
def terms(p): return dict(p[1])
def build(d): return ("poly", frozenset((m, c) for m, c in d.items() if c))
def plus(a, b, k=1):
    d = terms(a)
    for m, c in b[1]: d[m] = d.get(m, 0) + k * c
    return build(d)
def times(a, b):
    d = {}
    for m, c in a[1]:
        for n, e in b[1]:
            k = tuple(sorted(m + n, key=repr))
            d[k] = d.get(k, 0) + c * e
    return build(d)
def single(p):
    """the one atom a value is, and what is added to it"""
    if p is None or p[0] != "poly": return None, 0
    d = terms(p)
    off = d.pop((), 0)
    if len(d) != 1: return None, off
    (m, c), = d.items()
    return (m[0], off) if len(m) == 1 and c == 1 else (None, off)
def value(p):
    """the number a polynomial is, or None"""
    d = terms(p)
    if not d: return 0
    return d[()] if set(d) == {()} else None
def deep(x, f, memo=None):
    """x with f applied to every term in it, from the inside out"""
    if not isinstance(x, (tuple, frozenset)): return x
    if memo is None: memo = {}
    r = memo.get(x)
    if r is None:
        if isinstance(x, tuple): r = f(tuple(deep(y, f, memo) for y in x))
        else:
            d = {}
            for m, c in x:
                n = tuple(deep(y, f, memo) for y in m)
                if n != m and len(n) > 1: n = tuple(sorted(n, key=repr))
                d[n] = d.get(n, 0) + c
            r = frozenset((m, c) for m, c in d.items() if c)
        memo[x] = r
    return r
def shown(x):
    """a term as it is written in a report"""
    if isinstance(x, tuple) and x:
        h = x[0]
        if h == "poly":
            out = []
            for m, c in sorted(x[1], key=repr):
                out.append("*".join(([] if c == 1 and m else [str(c)]) + [shown(y) for y in m]))
            return " + ".join(out) or "0"
        if h == "p": return shown(x[1]) + "".join("." + str(y) for y in x[2])
        if h in ("this", "g"): return h
        if h == "ld": return shown(x[1]) + "".join("." + str(y) for y in x[2])
        if h == "at": return f"{shown(x[1])}[{shown(x[2])}]"
        if h == "ix": return "other" if x[2:] and x[2] else "each"
        if h == "el": return f"{x[1][3]}[{shown(x[2])}]"
        if h == "row": return f"{shown(x[2])} of {shown(x[3])}"
        if h == "eqidx": return f"the equation {x[2]}"
        return "(" + " ".join(shown(y) for y in x) + ")"
    return str(x)

# ------------------------------------------------------------ the interpreter
LOOKUP = re.compile(r"::Get(Node|Edge|TriangleEdge|TetrahedronEdge|InterfaceNode)Model$")
NAMED = re.compile(r"^Region::Get\w*(Couple|Volume|Area)Model$|^Interface::Get\w*AreaModel$")
ITER = re.compile(r"^__gnu_cxx::(__normal_iterator::)?operator|^std::operator(==|!=)|^std::(_Rb_tree_(const_)?iterator|__detail::\w*|_List_\w*iterator)::operator")
CONTAINER = re.compile(r"^std::(vector|set|array|list|deque|map|unordered_set)::")

class Assembly(Client):
    """Follows what an assembly function loads, for one arbitrary element of every list it goes through (and, in turn, for
    two of one of them).  Values are polynomials over the elements of models; facts are the choices a path was taken by."""
    max_depth, max_states, str_depth, numbers, keep_syms, str_limit = 9, 400000, 0, True, True, 400
    def __init__(self, p, units=None, twice=None, fixed=()):
        self.p, self.units, self.twice = p, units, twice
        self.interesting = ()
        self.lists, self.calls = set(), set()
        self.induction = {}
        self.literals = {}
        self.fixed = dict(fixed)
        self.unknown = None
    # -- facts: (key, truth) pairs; what is loaded: tuples; prop = (facts, rhs, matrix, complaints)
    def fact(self, st, key):
        if key in self.fixed: return self.fixed[key]
        for k, t in st.prop[0]:
            if k == key: return t
        return None
    def learn(self, st, key, truth):
        if key in self.fixed: return self.fixed[key] == truth
        old = self.fact(st, key)
        if old is not None: return old == truth
        if truth and key[0] == "same" and self.distinct(st, key): return False
        st.prop = (st.prop[0] | {(key, truth)},) + st.prop[1:]
        return True
    def distinct(self, st, key):
        """one node is not two of the nodes of an edge"""
        for k, t in st.prop[0]:
            if not t or k[0] != "same": continue
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                for x, y in ((key[1], key[2]), (key[2], key[1])):
                    if a != x: continue
                    at = [z[1][1] for z in (b, y) if z[0] == "p" and z[1][0] == "ld" and z[1][1][0] == "at"]
                    if len(at) == 2 and at[0][1] == at[1][1] and value(plus(at[0][2], at[1][2], -1)): return True
        return False
    def ask(self, st, key):
        t = self.fact(st, key)
        return ("sym", "q", key, 0) if t is None else TRUE if t else FALSE
    def both(self, st, key):
        """the states in which the fact holds and in which it does not"""
        t = self.fact(st, key)
        out = []
        for x in (True, False):
            if t is None or t == x:
                s = st.copy()
                self.learn(s, key, x)
                out.append((s, x))
        return out
    def assume(self, ip, st, val, truth):
        if val and val[0] == "sym" and val[1] == "q": return self.learn(st, val[2], truth)
        return True
    # -- lists
    def lst(self, st, ptr):
        if not ptr or ptr[0] != "p": return None
        v = st.mem.get((ptr[1], ptr[2] + ("$list",)))
        return v or ptr
    def sig(self, L): return deep(L, lambda x: ("ix",) if x and x[0] == "ix" else x)
    sides = None
    def order(self, L):
        """the nodes on the two sides of an interface are in the same order, and as many"""
        if self.sides and L[0] == "p" and L[2][-len(self.sides[1]):] == self.sides[1]: return ("p", L[1], L[2][:-len(self.sides[1])] + self.sides[0])
        return L
    def size(self, st, L):
        L = self.order(L)
        n = st.mem.get((L[1], L[2] + ("$items",)))
        if n: return n[1]
        self.lists.add(self.sig(L))
        return 2 if self.twice is not None and self.sig(L) == self.twice else 1
    def at(self, st, L, idx):
        a, off = single(idx)
        if (L[1], L[2] + ("$items",)) in st.mem:
            k = a[2] + off if a and a[0] == "ix" and a[1] == L else value(idx)
            return ("p", ("item", L, k), ()) if k is not None else None
        if idx is None: return None
        return ("p", ("at", L, idx), ())
    def ix(self, L, k): return atom("ix", self.order(L), k)
    def iterator(self, st, a):
        if a and a[0] == "it": return a, None
        if not a or a[0] != "p": return None, None
        for (b, path), v in st.mem.items():
            if b == a[1] and path[:len(a[2])] == a[2] and v and v[0] == "it": return v, (b, path)
        return None, None
    # -- strings that are not known are given a name
    def name(self, st, ptr):
        if not ptr: return None
        if ptr[0] == "s": return ptr[1]
        if ptr[0] != "p": return None
        k = (ptr[1], ptr[2] + ("$str",))
        v = st.mem.get(k)
        if v and v[0] == "s": return v[1]
        if ptr[1][0] == "al": return None
        lit = self.literal(ptr)
        st.mem[k] = ("s", lit)
        return lit
    def literal(self, ptr):
        base = str(ptr[2][-1]) if ptr[2] else str(ptr[1][1] if ptr[1][0] in ("named",) else ptr[1][0])
        if ptr[1][0] == "at": base = "var"
        for lit, q in self.literals.items():
            if q == ptr: return lit
        n = sum(1 for x in self.literals if x.startswith("«" + base))
        lit = f"«{base}{n or ''}»"
        self.literals[lit] = ptr
        return lit
    # -- memory
    def load(self, ip, st, fn, inst, ptr):
        if not ptr or ptr[0] != "p" or ptr[1][0] == "al": return None
        v = st.mem.get((ptr[1], ptr[2]))
        if v is not None: return v
        b = ptr[1]
        if b[0] == "at" and not ptr[2]:
            L = b[1]
            if L[1][0] == "vals": return atom("el", L[1][1], b[2])
            if L[1][0] == "dvals": return self.element(L[1][1], b[2])
        if b[0] == "delem": return self.element(b[1], b[2])
        if inst[4] == "ptr": return ("p", ("ld", b, ptr[2]), ())
        if inst[4] in ("i64", "double"): return atom("ld", b, ptr[2])
        if inst[4] in ("i1", "i8", "i32", "i16"):
            v = st.mem[(b, ptr[2])] = ("sym", "ld", b, ptr[2])
            return v
        return None
    def element(self, data, idx):
        """an element of what is held as a polynomial over models"""
        out = {}
        for m, c in data[1]:
            k = tuple(sorted((("el", a[1], idx) if a[0] == "mdl" else a for a in m), key=repr))
            out[k] = out.get(k, 0) + c
        return build(out)
    def data(self, st, ptr):
        if not ptr or ptr[0] != "p": return None
        if ptr[1][0] == "model": return atom("mdl", ptr[1])
        return st.mem.get((ptr[1], ptr[2] + ("$data",)))
    # -- loops that count
    def counts(self, fn):
        r = self.induction.get(fn.n)
        if r is None:
            r = set()
            for bl in fn.blocks:
                for i in bl:
                    if i[0] == "phi" and any(isinstance(v, int) and self.steps(fn, v, i[1]) for v, q in i[3]): r.add(i[1])
            self.induction[fn.n] = r
        return r
    def steps(self, fn, v, phi):
        i = fn.inst(v)
        while i and i[0] == "cast" and isinstance(i[4], int): i = fn.inst(i[4])
        return bool(i) and i[0] == "bin" and i[3] == "add" and {repr(i[4]), repr(i[5])} == {repr(phi), repr({"c": 1})}
    def phi(self, ip, st, fn, inst, pred, v):
        if v is None or inst[1] not in self.counts(fn): return v
        if v == ("c", 0): return atom("iv", fn.n, inst[1], 0)
        a, off = single(poly(v)) if poly(v) else (None, 0)
        if a and off == 1 and a[0] in ("iv", "ix"):
            return atom("iv", fn.n, inst[1], (a[3] if a[0] == "iv" else a[2]) + 1)
        return v
    def op(self, ip, st, fn, inst, a, b):
        x, y = poly(a), poly(b)
        if inst[0] == "bin":
            if x is None or y is None: return None
            o = inst[3]
            if o in ("add", "fadd"): return plus(x, y)
            if o in ("sub", "fsub"): return plus(x, y, -1)
            if o in ("mul", "fmul"): return times(x, y)
            if o == "shl" and value(y) is not None: return times(x, const(1 << value(y)))
            if o == "fdiv":
                if value(y) is not None: return times(x, const(1.0 / value(y))) if value(y) else None
                return times(x, atom("fn", "inverse", y))
            return None
        if inst[0] != "icmp": return None
        o = inst[3]
        if o in ("eq", "ne") and a and b and a[0] == "p" and b[0] == "p":
            r = self.same(st, a, b)
            if r is None: return None
            return r if o == "eq" else FALSE if r == TRUE else TRUE if r == FALSE else ("not", r)
        if x is None or y is None: return None
        (ax, ox), (ay, oy) = single(x), single(y)
        if ax and ax[0] == "iv" and ay and ay[0] == "len" and not ox and not oy:
            L, k = ay[1], ax[3]
            go = k < self.size(st, L)
            if go: self.replace(st, fn, ax, ("ix", self.order(L), k))
            return self.truth(o, {"ult": go, "ne": go, "slt": go, "uge": not go, "eq": not go, "sge": not go})
        if ay and ay[0] == "iv" and ax and ax[0] == "len" and not ox and not oy:
            L, k = ax[1], ay[3]
            go = k < self.size(st, L)
            if go: self.replace(st, fn, ay, ("ix", self.order(L), k))
            return self.truth(o, {"ugt": go, "ne": go, "sgt": go, "ule": not go, "eq": not go, "sle": not go})
        if ax and ax[0] == "iv" and ax[3] > 2 and o in ("ult", "slt", "ne"): return FALSE
        if ax and ay and ax[0] == "len" and ay[0] == "len": return self.truth(o, {"eq": True, "ne": False})
        d = plus(x, y, -1)
        n = value(d)
        if n is not None: return self.truth(o, {"eq": n == 0, "ne": n != 0})
        if o in ("eq", "ne"):
            if ax and ax[0] in ("row", "crow", "len", "ix", "ld") and value(y) == -1: return TRUE if o == "ne" else FALSE
            key = ("zero", min((d, plus(const(0), d, -1)), key=repr))
            r = self.ask(st, key)
            return r if o == "eq" else FALSE if r == TRUE else TRUE if r == FALSE else ("not", r)
        return None
    def index(self, ip, st, fn, inst, v):
        x = poly(v)
        return f"[{value(x)}]" if x is not None and value(x) is not None else None
    def unary(self, ip, st, fn, inst, a):
        x = poly(a)
        return plus(const(0), x, -1) if x is not None and inst[3] == "fneg" else None
    def truth(self, o, table):
        return None if o not in table else TRUE if table[o] else FALSE
    def fcmp(self, ip, st, fn, inst, a, b):
        x, y = poly(a), poly(b)
        if x is None or y is None: return None
        d = plus(x, y, -1)
        n = value(d)
        o = inst[3]
        if n is not None:
            f = {"eq": n == 0, "ne": n != 0, "lt": n < 0, "le": n <= 0, "gt": n > 0, "ge": n >= 0}.get(o[1:])
            return None if f is None else TRUE if f else FALSE
        if o[1:] not in ("eq", "ne"): return None
        r = self.ask(st, ("zero", min((d, plus(const(0), d, -1)), key=repr)))
        return r if o[1:] == "eq" else FALSE if r == TRUE else TRUE if r == FALSE else ("not", r)
    def replace(self, st, fn, old, new):
        f = lambda x: new if x == old else x
        for d in (st.env, st.mem):
            for k, v in list(d.items()):
                if v and repr(old) in repr(v): d[k] = deep(v, f)
    def same(self, st, a, b):
        if a == b: return TRUE
        if "null" in (a[1][0], b[1][0]): return None
        return self.ask(st, ("same",) + tuple(sorted((a, b), key=repr)))
    # -- calls
    def call(self, ip, st, fn, inst, qs, args):
        syms = self.p.callees(inst)
        if len(syms) != 1: return None
        q, n, d = self.p.q(syms[0]), last(self.p.q(syms[0])), self.p.dem.get(syms[0], syms[0])
        done = lambda v=None: [(st.copy(), v, "ret")]
        sret = args[inst[8]] if inst[8] >= 0 and len(args) > inst[8] else None
        rest = [a for j, a in enumerate(args) if j != inst[8]]
        # failures
        ps, _ = split_params(d)
        kinds = [j for j, t in enumerate(ps or []) if "OutputStream::OutputType" in t]
        if kinds and not n.startswith("~"):
            off = len(args) - len([t for t in ps if t != "void"])
            k = args[kinds[0] + off]
            if sret: st.mem.pop((sret[1], sret[2] + ("$str",)), None)
            return [(st.copy(), None, "noreturn" if k == ("c", 4) else "ret")]
        if n in ("dsAssert_", "terminate", "abort"): return [(st.copy(), None, "noreturn")]
        if q in ("pow", "std::pow", "sqrt", "exp", "log", "sin", "cos", "tan", "fabs", "std::abs") and all(poly(a) for a in args):
            return done(atom("fn", q) if not args else ("poly", frozenset({((("fn", q) + tuple(poly(a) for a in args),), 1)})))
        if q.startswith("llvm.fmuladd") or q.startswith("llvm.fma"):
            xs = [poly(a) for a in args[:3]]
            return done(plus(times(xs[0], xs[1]), xs[2]) if None not in xs else None)
        if q == "std::make_pair": return done(("agg", tuple(self.scalar(st, a) for a in args[:2])))
        if q == "std::pair::pair": return self.pair(st, args, done)
        r = self.unit(ip, st, fn, inst, syms[0], args)
        if r: return r
        # models
        if LOOKUP.search(q) and sret and len(rest) == 2:
            nm = self.name(st, rest[1])
            if nm is None or not rest[0]: return None
            self.put(st, sret, "$model", ("model", LOOKUP.search(q).group(1), rest[0], nm))
            return done()
        if NAMED.search(q) or (n == "GetEquationNameFromVariable" and rest and len(rest) == 2):
            if NAMED.search(q): text = self.literal(("p", ("named", n[3:], rest[0]), ()))
            else:
                v = self.name(st, rest[1])
                if v is None: return None
                text = "equation of " + v
            if sret: self.put(st, sret, "$str", ("s", text)); return done()
            return done(("s", text))
        if n == "GetEquationIndex" and len(rest) == 2:
            nm = self.name(st, rest[1])
            if nm is None: return None
            return done(atom("eqidx", rest[0], nm))
        if n == "GetEquationNumber" and len(rest) == 3 and poly(rest[1]) and rest[2]:
            return done(atom("row", rest[0], poly(rest[1]), rest[2]))
        if q.startswith("NodeKeeper::") and n != "NodeKeeper":
            if n == "instance": return done(("p", ("NodeKeeper",), ()))
            if n in ("IsCircuitNode", "GetEquationNumber") and len(rest) == 2:
                nm = self.name(st, rest[1])
                if n == "GetEquationNumber": return done(atom("crow", nm))
                return [(s, TRUE if t else FALSE, "ret") for s, t in self.both(st, ("circuit node", nm))]
        if re.match(r"Get\w*(Active\w*|VariableList)$", n) and rest and rest[0] and rest[0][0] == "p" and len(rest) == 1:
            L = ("p", ("list", n, rest[0]), ())
            if sret: self.put(st, sret, "$list", L); return done()
            return done(L)
        m = re.match(r"(\w*ScalarData)::", q)
        if m: return self.scalars(st, q, n, m.group(1), args, rest, d, done)
        if n == "GetScalarValues" and rest and rest[0] and rest[0][0] == "p" and rest[0][1][0] == "model":
            return done(("p", ("vals", rest[0][1]), ()))
        if q.startswith(("std::__shared_ptr", "std::shared_ptr")) and args: return self.shared(st, fn, inst, n, d, args, done)
        if q.startswith("std::__cxx11::basic_string::") or q in ("std::operator+", "std::operator==", "std::operator!="):
            r = self.string(st, q, n, d, args, done)
            if r: return r
        if ITER.match(q): return self.iterate(st, fn, inst, q, n, args, done)
        if CONTAINER.match(q): return self.container(ip, st, fn, inst, q, n, args, done)
        return None
    def inline_args(self, ip, st, fn, inst, callee, args): return callee.file.startswith("/repo/src")
    def unit(self, ip, st, fn, inst, sym, args):
        if self.units is None or sym not in self.units: return None
        c = (sym, tuple(("s", self.name(st, a)) if self.is_string(sym, j, len(args)) else a for j, a in enumerate(args)))
        self.calls.add(c)
        s = st.copy()
        s.prop = (s.prop[0], tuple(sorted(s.prop[1] + (c,), key=repr))) + s.prop[2:]
        return [(s, None, "ret")]
    def is_string(self, sym, j, n):
        ps, _ = split_params(self.p.dem.get(sym, sym))
        return 0 <= j - (n - len(ps)) < len(ps) and "basic_string" in ps[j - (n - len(ps))] and "vector" not in ps[j - (n - len(ps))]
    def put(self, st, ptr, what, v):
        if ptr and ptr[0] == "p":
            if v is None: st.mem.pop((ptr[1], ptr[2] + (what,)), None)
            else: st.mem[(ptr[1], ptr[2] + (what,))] = v
    def get(self, st, ptr, what): return st.mem.get((ptr[1], ptr[2] + (what,))) if ptr and ptr[0] == "p" else None
    def scalar(self, st, a):
        """what is at a reference"""
        if not a or a[0] != "p": return a
        v = st.mem.get((a[1], a[2]))
        if v is None and a[1][0] != "al": v = self.load(None, st, None, ("load", 0, 0, None, "double"), a)
        return v
    def part(self, st, ptr, k):
        """part k of a pair or a small record"""
        got = sorted(((path, v) for (b, path), v in st.mem.items() if b == ptr[1] and path[:len(ptr[2])] == ptr[2] and path != ptr[2]), key=lambda x: repr(x[0]))
        names = (("first", "#0", "row"), ("second", "#1", "col"), ("val", "#2"))[k]
        return next((v for path, v in got if path[-1] in names), None)
    def pair(self, st, args, done):
        a = args[0]
        if not a or a[0] != "p": return None
        if len(args) == 2 and args[1] and args[1][0] == "p": vs = [self.part(st, args[1], k) for k in (0, 1)]
        elif len(args) == 3: vs = [self.scalar(st, x) for x in args[1:]]
        else: return None
        for nm, v in zip(("first", "second"), vs): self.put(st, a, nm, v)
        return done()
    def copy(self, st, src, dst):
        for (b, path), v in list(st.mem.items()):
            if b == src[1] and path[:len(src[2])] == src[2]: st.mem[(dst[1], dst[2] + path[len(src[2]):])] = v
    def shared(self, st, fn, inst, n, d, args, done):
        a = args[0]
        m = self.get(st, a, "$model")
        if n.startswith("~"): self.put(st, a, "$model", None); return done()
        if n in ("shared_ptr", "__shared_ptr", "operator="):
            src = args[1] if len(args) > 1 else None
            v = self.get(st, src, "$model")
            if v or m:
                self.put(st, a, "$model", v)
                return done(a if n == "operator=" else None)
            return None
        if m is None:
            if n in ("get", "operator->", "operator*") and a and a[0] == "p": return done(("p", ("ld", a[1], a[2] + ("$sp",)), ()))
            return None
        if "operator bool" in d or n == "bool": return [(s, TRUE if t else FALSE, "ret") for s, t in self.both(st, ("exists", m))]
        if n == "get": return [(s, ("p", m, ()) if t else ("c", 0), "ret") for s, t in self.both(st, ("exists", m))]
        if n in ("operator->", "operator*"):
            out = []
            for s, t in self.both(st, ("exists", m)):
                if t: out.append((s, ("p", m, ()), "ret"))
                else:
                    s.prop = s.prop[:3] + (s.prop[3] | {("null", m, fn.file, inst[2], fn.q)},)
                    out.append((s, None, "throw"))
            return out
        return None
    def scalars(self, st, q, n, cls, args, rest, d, done):
        a = args[0]
        if n.startswith("~"): self.put(st, a, "$data", None); return done()
        if n == cls or n.endswith("ScalarData"):
            self.put(st, a, "$data", self.data(st, args[1]) if len(args) == 2 else None)
            return done()
        v = self.data(st, a)
        if v is None: return None
        if n == "operator=": self.put(st, a, "$data", self.data(st, args[1])); return done(a)
        w = re.match(r"(times|plus|minus)_equal_(\w+)$", n)
        if w:
            x = poly(args[1]) if w.group(2) == "scalar" else self.data(st, args[1])
            self.put(st, a, "$data", None if x is None else times(v, x) if w.group(1) == "times" else plus(v, x, 1 if w.group(1) == "plus" else -1))
            return done(a)
        if "operator[]" in d and len(args) == 2 and poly(args[1]):
            if d.rstrip().endswith("const"): return done(self.element(v, poly(args[1])))
            return done(("p", ("delem", v, poly(args[1])), ()))
        if n == "GetScalarList": return done(("p", ("dvals", v), ()))
        return None
    def string(self, st, q, n, d, args, done):
        if n == "empty":
            a = args[0]
            if a and a[0] == "p" and a[1][0] != "al" and self.get(st, a, "$str") is None:
                out = []
                for s, t in self.both(st, ("empty", a)):
                    self.put(s, a, "$str", ("s", "") if t else ("s", self.literal(a)))
                    out.append((s, TRUE if t else FALSE, "ret"))
                return out
            return None
        if q in ("std::operator==", "std::operator!=") and "basic_string" in d and len(args) == 2:
            x, y = self.name(st, args[0]), self.name(st, args[1])
            if x is None or y is None: return None
            if x == y: r = True
            elif "«" not in x + y: r = False
            else:
                return [(s, TRUE if t == q.endswith("==") else FALSE, "ret") for s, t in self.both(st, ("equal",) + tuple(sorted((x, y))))]
            return done(TRUE if r == q.endswith("==") else FALSE)
        if n == "operator=" or n == "basic_string" or n in ("operator+=", "append", "assign", "operator+"):
            for a in args[1:]:
                if a and a[0] == "p": self.name(st, a)
            if n in ("operator+=", "append"): self.name(st, args[0])
        return None
    def iterate(self, st, fn, inst, q, n, args, done):
        it, where = self.iterator(st, args[0] if args else None)
        if it is None: return None
        L, k = it[1], it[2]
        if n in ("operator*", "operator->"):
            return done(self.at(st, L, self.ix(L, k))) if k != "end" else None
        if n == "operator++":
            s = st.copy()
            if where is None or k == "end": return None
            s.mem[where] = ("it", L, k + 1)
            return [(s, args[0] if len(args) == 1 else it, "ret")]
        o, _ = self.iterator(st, args[1] if len(args) > 1 else None)
        if o and ("operator==" in n or "operator!=" in n):
            end = lambda x: x[2] == "end" or x[2] >= self.size(st, x[1])
            r = it == o or (it[1] == o[1] and end(it) and end(o))
            if not r and end(o): self.together(st, fn, inst, it)
            return done(TRUE if r == ("operator==" in n) else FALSE)
        return None
    def together(self, st, fn, inst, it):
        """what is counted along with an iterator is its index"""
        block = next((bl for bl in fn.blocks if any(i is inst for i in bl)), ())
        counters = [i[1] for i in block if i[0] == "phi" and i[1] in self.counts(fn)]
        found = {a for v in st.env.values() for a in [single(poly(v))[0] if v and poly(v) else None] if a and a[0] == "iv" and a[1] == fn.n and a[2] in counters and a[3] == it[2]}
        for a in found: self.replace(st, fn, a, ("ix", self.order(it[1]), it[2]))
    def container(self, ip, st, fn, inst, q, n, args, done):
        a = args[0] if args else None
        L = self.lst(st, a)
        if L is None: return None
        kind = q.split("::")[1]
        if n.startswith("~"):
            for k in [k for k in st.mem if k[0] == a[1] and k[1][:len(a[2])] == a[2]]: del st.mem[k]
            return done()
        if n == kind:
            if len(args) == 1: self.put(st, a, "$items", ("n", 0)); return done()
            b = args[1]
            it, _ = self.iterator(st, b)
            if it and it[2] == 0: self.put(st, a, "$list", ("p", ("list", "copy", it[1]), ()) if kind != "vector" else it[1]); return done()
            if b and b[0] == "p" and len(args) == 2:
                self.put(st, a, "$list", self.lst(st, b)); return done()
            if b == ("c", 0) or poly(b): return None
            return None
        if n in ("begin", "cbegin"): return done(("it", L, 0))
        if n in ("end", "cend"): return done(("it", L, "end"))
        if n in ("size", "length"): return done(atom("len", L))
        if n == "empty":
            k = self.get(st, L, "$items")
            return done(TRUE if k and k[1] == 0 else FALSE)
        if n in ("operator[]", "at") and len(args) == 2:
            if kind in ("map",): return done(("p", ("entry", L, self.scalar(st, args[1])), ()))
            i = poly(args[1])
            return done(self.at(st, L, i)) if i is not None else None
        if n in ("front", "data"): return done(self.at(st, L, const(0)))
        if n == "back" : return done(self.at(st, L, plus(atom("len", L), const(-1))))
        if n in ("count", "contains") and len(args) == 2:
            x = self.scalar(st, args[1])
            if x is None: return None
            a, off = single(x)
            if a and a[0] == "ld" and not off: x = ("p", a, ())
            return [(s, ("c", 1 if t else 0), "ret") for s, t in self.both(st, ("in", L, x))]
        if n in ("push_back", "emplace_back"):
            if L[1] in (("matrix",), ("rhs",)):
                s = st.copy()
                ok = len(args) == 2 and args[1] and args[1][0] == "p"
                vs = [self.part(st, args[1], k) for k in range(2 if L[1] == ("rhs",) else 3)] if ok else [self.scalar(st, x) for x in args[1:]]
                vs = tuple(poly(v) for v in vs)
                if None in vs and self.unknown is None: self.unknown = f"what is loaded at {fn.file}:{inst[2]} in {fn.q}"
                k = 1 if L[1] == ("rhs",) else 2
                pr = list(s.prop)
                pr[k] = tuple(sorted(pr[k] + ((vs, inst[2]),), key=repr))
                s.prop = tuple(pr)
                return [(s, None, "ret")]
            k = self.get(st, L, "$items")
            if k and args[1] and args[1][0] == "p":
                dst = ("p", ("item", L, k[1]), ())
                v = st.mem.get((args[1][1], args[1][2]))
                self.copy(st, args[1], dst)
                self.put(st, L, "$items", ("n", k[1] + 1))
                return done()
            return None
        if n in ("reserve", "shrink_to_fit", "clear") and L[1] not in (("matrix",), ("rhs",)): 
            if n == "clear" and self.get(st, L, "$items"): self.put(st, L, "$items", ("n", 0))
            return done()
        return None

# ---------------------------------------------------------------- the checker
MODES = ("MATRIXONLY", "RHS", "MATRIXANDRHS")
def modes():
    with open("/repo/src/math/MathEnum.hh") as f: m = re.search(r"WhatToLoad\s*\{([^}]*)\}", f.read())
    if not m: raise Broken("WhatToLoad is not defined in MathEnum.hh")
    names, out, k = m.group(1).split(","), {}, 0
    for x in names:
        y = x.split("=")
        if len(y) == 2: k = int(y[1], 0)
        out[y[0].strip()] = k
        k += 1
    if any(m not in out for m in MODES): raise Broken("WhatToLoad has other values than those known")
    return out

def vectors(d):
    """which parameters of a function are what is loaded: (matrix, right hand side, whether they are of doubles)"""
    ps, _ = split_params(d)
    out = lambda t: "vector<" in t and t.rstrip().endswith("&") and "const" not in t.rsplit(">", 1)[1]
    m = [j for j, t in enumerate(ps or []) if "RowColVal<" in t and out(t)]
    v = [j for j, t in enumerate(ps or []) if "pair<int, " in t and out(t)]
    if len(m) != 1 or len(v) != 1: return None, None, False
    return m[0], v[0], "RowColVal<double>" in ps[m[0]] and "pair<int, double>" in ps[v[0]]

def units(p):
    """the functions that are given both and look the models up"""
    every = {n: v for n, f in p.fns.items() if f.file.startswith("/repo/src") for v in [vectors(f.d)] if v[0] is not None}
    both = {n for n, v in every.items() if v[2]}
    out = set()
    for n in both:
        seen, todo = {n}, [n]
        while todo:
            f = p.fns[todo.pop()]
            for _, _, i in f.calls():
                for s in p.callees(i):
                    if LOOKUP.search(p.q(s)): out.add(n)
                    if s in p.fns and s not in seen and s not in every and re.search(r"/Equation/|/AutoEquation/", p.fns[s].file):
                        seen.add(s); todo.append(s)
    return both, out

class Accessors:
    """what the accessors of the mesh give for a pointer, by following them"""
    def __init__(self, p): self.p, self.c = p, Assembly(p)
    def __call__(self, q, this):
        fs = [f for f in self.p.find(q) if len(f.args) == 1]
        if not fs: raise Broken(f"{q} is not there")
        f = next((f for f in fs if f.d.rstrip().endswith("const")), fs[0])
        ip = Interp(self.p, self.c)
        rs = [x for x in ip.run(f, State({(0, "a0"): this}, {}, (frozenset(), (), (), frozenset()))) if x[2] == "ret"]
        vs = {x[1] for x in rs}
        if len(vs) != 1 or None in vs or next(iter(vs))[0] != "p": raise Broken(f"{q} gives nothing that can be followed")
        return next(iter(vs))

SUFFIX = {"Node": ("",), "Edge": ("@n0", "@n1"), "TriangleEdge": ("@en0", "@en1", "@en2"),
          "TetrahedronEdge": ("@en0", "@en1", "@en2", "@en3"), "InterfaceNode": ("@r0", "@r1")}

class Derivative:
    """the derivatives of what an equation loads, by the definition of the models' derivatives"""
    def __init__(self, p, client):
        self.p, self.c = p, client
        self.get = Accessors(p)
        x = ("p", ("x",), ())
        n0, n1 = self.get("Interface::GetNodes0", x), self.get("Interface::GetNodes1", x)
        if n0[1] != ("x",) or n1[1] != ("x",) or n0 == n1: raise Broken("the nodes of an interface are not two lists")
        Assembly.sides = (n0[2], n1[2])
        self.memo, self.known, self.reps = {}, {}, {}
    def canonical(self, x):
        """the values of a model are in the order of what it is on"""
        def f(y):
            if y and y[0] == "ix" and y[1][0] == "p" and y[1][1][0] in ("vals", "dvals") and not y[1][2]:
                try: L = self.over(y[1][1][1])
                except Broken: return y
                if L: return ("ix", L, y[2])
            return y
        return deep(x, f, self.known)
    def over(self, m):
        """what the values of a model are listed over"""
        if m[0] == "poly":
            ms = {a[1] for t, _ in m[1] for a in t if a[0] == "mdl"}
            ls = {self.over(x) for x in ms}
            return next(iter(ls)) if len(ls) == 1 else None
        kind, R = m[1], m[2]
        if kind == "Node": return self.acc("Region::GetNodeList", R)
        if kind == "Edge": return self.acc("Region::GetEdgeList", R)
        if kind == "InterfaceNode": return self.acc("Interface::GetNodes0", R)
        return None
    def acc(self, q, this):
        k = (q, this)
        if k not in self.memo: self.memo[k] = self.get(q, this)
        return self.memo[k]
    def obj(self, L, idx):
        """the object of a list that has an index"""
        a, off = single(idx)
        if a and a[0] == "ld" and not off and a[2] and a[2][-1] == "index": return ("p", a[1], a[2][:-1])
        return ("p", ("ld", ("at", L, idx), ()), ())
    def elem(self, idx, n):
        """an index of n edges per element: (element, edge)"""
        d, lo, hi = terms(idx), {}, {}
        for m, k in d.items():
            if isinstance(k, int) and k % n == 0: hi[m] = k // n
            else: lo[m] = k
        return build(hi), build(lo)
    def nodes(self, model, idx):
        """[(suffix, the region, the node)] of what the value at an index depends on"""
        kind, R = model[1], model[2]
        if kind == "Node": return [("", R, self.obj(self.acc("Region::GetNodeList", R), idx))]
        if kind == "Edge":
            e = self.obj(self.acc("Region::GetEdgeList", R), idx)
            return [("@n0", R, self.acc("Edge::GetHead", e)), ("@n1", R, self.acc("Edge::GetTail", e))]
        if kind == "InterfaceNode":
            out = []
            for k in "01":
                L = self.acc("Interface::GetNodes" + k, R)
                out.append(("@r" + k, self.acc("Interface::GetRegion" + k, R), ("p", ("ld", ("at", L, idx), ()), ())))
            return out
        if kind == "TriangleEdge":
            t, j = self.elem(idx, 3)
            T = self.obj(self.acc("Region::GetTriangleList", R), t)
            es = ("p", ("at", self.acc("Region::GetTriangleToEdgeList", R), t), ())
            e = ("p", ("ld", ("at", es, j), ()), ())
            opp = ("p", ("ld", ("at", self.acc("Triangle::GetNodeList", T), j), ()), ())
            return [("@en0", R, self.acc("Edge::GetHead", e)), ("@en1", R, self.acc("Edge::GetTail", e)), ("@en2", R, opp)]
        if kind == "TetrahedronEdge":
            t, j = self.elem(idx, 6)
            es = ("p", ("at", self.acc("Region::GetTetrahedronToEdgeDataList", R), t), ())
            b = ("ld", ("at", es, j), ())
            e = ("p", ("ld", b, ("edge",)), ())
            return [("@en0", R, self.acc("Edge::GetHead", e)), ("@en1", R, self.acc("Edge::GetTail", e)),
                    ("@en2", R, ("p", ("ld", b, ("nodeopp", "[0]")), ())), ("@en3", R, ("p", ("ld", b, ("nodeopp", "[1]")), ()))]
        raise Broken("models of kind " + kind)
    def own(self, model): 
        b = self.c.literals.get(model[3])
        return not (b and b[1][0] == "named")
    def of(self, st, facts, rep):
        """the matrix of a path: {(row, col): value}; the models it is made of"""
        out, used = {}, set()
        facts = dict(facts)
        crows = [k[1] for k, t in facts.items() if k[0] == "circuit node" and t]
        for (row, val), line in st.prop[1]:
            for m, c in val[1]:
                for k, a in enumerate(m):
                    if a[0] != "el" or not self.own(a[1]): continue
                    rest = build({m[:k] + m[k + 1:]: c})
                    def load(col, name):
                        mod = ("model", a[1][1], a[1][2], name)
                        used.add(mod)
                        if facts.get(("exists", mod)) is False: return
                        key = (rep(row), rep(col))
                        out[key] = plus(out.get(key, const(0)), rep(times(rest, atom("el", mod, a[2]))))
                    for suffix, R, node in self.nodes(a[1], a[2]):
                        L = ("p", ("list", "GetVariableList", R), ())
                        for n in range(self.c.size(st, L)):
                            var = self.c.name(st, ("p", ("at", L, atom("ix", L, n)), ()))
                            eq = atom("eqidx", R, "equation of " + var)
                            d = plus(eq, const(1))
                            if any(facts.get(("zero", x)) for x in (d, plus(const(0), d, -1))): continue
                            load(atom("row", R, eq, node), f"{a[1][3]}:{var}{suffix}")
                    for C in crows: load(atom("crow", C), f"{a[1][3]}:{C}")
        return {k: v for k, v in out.items() if v != const(0)}, used

def total(entries, rep):
    out = {}
    for vs, line in entries:
        k = tuple(rep(v) for v in vs[:-1])
        out[k] = plus(out.get(k, const(0)), rep(vs[-1]))
    return {k: v for k, v in out.items() if v != const(0)}

def representative(facts, D):
    """terms known to be the same are written in the same way, and what is known to be zero is left out"""
    facts = frozenset((k, t) for k, t in facts if t and k[0] in ("same", "zero"))
    if facts in D.reps: return D.reps[facts]
    eq = []
    for k, t in facts:
        if k[0] == "same":
            a, b = sorted((D.canonical(k[1]), D.canonical(k[2])), key=lambda y: (len(repr(y)), repr(y)))
            eq.append((a, b) if a[2] or b[2] else (a[1], b[1]))
    memos, done = [{} for e in eq], {}
    def same(x):
        r = D.canonical(x)
        for _ in range(3 if len(eq) > 1 else len(eq)):
            for (a, b), memo in zip(eq, memos): r = deep(r, lambda y: a if y == b else y, memo)
        return r
    zs = [same(k[1])[1] for k, t in facts if k[0] == "zero" and t]
    ones = [Counter(m) for z in zs if len(z) == 1 for m, c in z if m]
    sums = [dict(z) for z in zs if len(z) > 1]
    def rep(x):
        r = done.get(x)
        if r is None:
            r = same(x)
            if r[0] == "poly":
                if ones: r = build({m: c for m, c in r[1] if not any(all(n <= m.count(y) for y, n in z.items()) for z in ones)})
                for z in sums:
                    d = dict(r[1])
                    if set(d) == set(z) and len({d[m] / z[m] for m in z}) == 1: r = const(0)
            done[x] = r
        return r
    D.reps[facts] = rep
    return rep

def bare(entries, memo={}):
    r = memo.get(entries)
    if r is None: r = memo[entries] = tuple(sorted((e[0] for e in entries), key=repr))
    return r
def held(s):
    """what is known on a path"""
    out = set(s.prop[0])
    for (b, path), v in s.mem.items():
        if b[0] in ("this", "ld", "at", "par") and v and v[0] == "c": out |= {(("value", b, path), v), (("is", b, path, v[1]), True)}
        if b[0] == "fact" and b[1][:2] == ("sym", "ld") and v and v[0] == "ne": out |= {(("is",) + b[1][2:4] + (n,), False) for n in v[1]}
    return frozenset(out)
def agree(f, g):
    """whether the facts of two paths can hold together"""
    g = dict(g)
    return all(g.get(k, t) == t for k, t in f)

JOB = None
def job(k): return JOB(k)
def parallel(f, n):
    """f(0) ... f(n - 1), by several processes"""
    global JOB
    JOB = f
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool: return pool.map(job, range(n), 1)

THIS, MATRIX, RHS = ("p", ("this",), ()), ("p", ("matrix",), ()), ("p", ("rhs",), ())
START = (frozenset(), (), (), frozenset())
def bind(p, f, given, w):
    """the arguments of an assembly function: what is given, and the mode"""
    ps, _ = split_params(f.d)
    off = len(f.args) - len(ps)
    env, mem = {}, {}
    for j in range(len(f.args)):
        t = ps[j - off] if j >= off else "this"
        v = given(j, t)
        if t.endswith("WhatToLoad"): v = ("c", w)
        if v and v[0] == "s":
            mem[(("arg", j), ("$str",))] = v
            v = ("p", ("arg", j), ())
        if v is not None: env[(0, "a%d" % j)] = v
    return State(env, mem, START)

def terms_of(p, us, f, w, t, client):
    """the calls of the units that assemble what an equation is made of: {what is known: calls}"""
    m, v, _ = vectors(f.d)
    off = len(f.args) - len(split_params(f.d)[0])
    def given(j, ty):
        if ty == "this": return THIS
        if j - off == m: return MATRIX
        if j - off == v: return RHS
        if ty.endswith("TimeMode"): return ("c", t)
        return ("p", ("par", j), ())
    client.units = us
    ip = Interp(p, client)
    out = []
    for s, rv, k, tr in ip.run(f, bind(p, f, given, w)):
        if k != "ret": continue
        out.append((held(s), s.prop[1]))
    return out

def check_units(r):
    p = load()
    both, us = units(p)
    W = modes()
    roots = [f for f in p.fns.values() if f.n in both and f.n not in us and last(f.q) == "DerivedAssemble"]
    if not roots or not us: raise Broken("nothing is assembled for an equation")
    contexts = []
    Derivative(p, Assembly(p))
    for f in roots:
        r.count("equations that are assembled")
        client = Assembly(p)
        for t in (0, 1):
            got = {}
            for mode in MODES:
                got[mode] = [(fa, strip(p, cs)) for fa, cs in terms_of(p, us, f, W[mode], t, client)]
            r.count("ways through what an equation is made of", sum(len(x) for x in got.values()))
            for mode in MODES[:2]:
                same = {}
                for fb, ds in got[mode]: same.setdefault(fb, set()).add(ds)
                for fa, cs in got["MATRIXANDRHS"]:
                    if same.get(fa) == {cs}: continue
                    for fb, ds in got[mode]:
                        if cs != ds and agree(fa, fb):
                            d = sorted(set(cs) ^ set(ds), key=repr)[0]
                            r.add(f"{f.q}:{mode}:{p.q(d[0])}", f"{p.q(d[0])} is called for {shown_args(d[1])} when both the matrix and the right hand side are loaded or when only one of them is ({mode}), and not in the other case", f.where())
        for c in sorted({strip(p, (x,))[0] for x in client.calls}, key=repr):
            if ("s", "") not in c[1]: contexts.append((c, client))
    done = {}
    for (sym, args), client in contexts:
        done.setdefault((sym, args), client)
    r.count("terms of equations", len(done))
    seen, jobs = set(), []
    for (sym, args), client in sorted(done.items(), key=lambda x: repr(x[0])):
        # the names of the models and the signs do not matter: they stand for any
        names = []
        args = tuple(atom("given", j) if a and a[0] == "d" else a for j, a in enumerate(args))
        for a in args:
            if a and a[0] == "s" and a not in names: names.append(a)
        like = (sym, tuple(("s", names.index(a)) if a and a[0] == "s" else a for a in args))
        if like not in seen:
            seen.add(like)
            jobs.append((sym, args, client))
    def run(k):
        sym, args, client = jobs[k]
        q = Result()
        try: check_unit(q, p, W, p.fns[sym], args, client)
        except (Broken, Budget) as e: return q, f"{type(e).__name__}: {e}"
        return q, None
    for q, bad in parallel(run, len(jobs)):
        if bad:
            r.count("assembly functions not decided")
            r.samples.append("not decided: " + bad)
            continue
        for k, n in q.cov.items(): r.count(k, n)
        for f in q.findings: r.add(f.key, f.msg, f.where, f.trace)
        r.samples += q.samples

def shown_args(args): return ", ".join(x[1] for x in args if x and x[0] == "s")
def strip(p, calls):
    """calls without the mode"""
    out = []
    for sym, args in calls:
        ps, _ = split_params(p.fns[sym].d)
        off = len(args) - len(ps)
        out.append((sym, tuple(None if j >= off and ps[j - off].endswith("WhatToLoad") else a for j, a in enumerate(args))))
    return tuple(out)

def paths(p, f, args, w, lits, twice=None):
    c = Assembly(p, twice=twice)
    c.literals = dict(lits)
    ip = Interp(p, c)
    rs = ip.run(f, bind(p, f, lambda j, t: args[j], w))
    if c.unknown: raise Broken("it is not known " + c.unknown)
    return c, ip, rs

def check_unit(r, p, W, f, args, client):
    m, v, _ = vectors(f.d)
    off = len(f.args) - len(split_params(f.d)[0])
    if args[off + m] != MATRIX or args[off + v] != RHS: raise Broken(f"{f.q} is given something else than what is assembled")
    what = shown_args(args)
    r.count("assembly functions analysed, with their models and signs")
    c, ip, rs = paths(p, f, args, W["MATRIXANDRHS"], client.literals)
    lists = sorted(c.lists, key=repr)
    loaded = [0, 0]
    for twice in [None] + lists:
        if twice is not None: c, ip, rs = paths(p, f, args, W["MATRIXANDRHS"], client.literals, twice)
        D = Derivative(p, c)
        one = {}
        for mode in MODES[:2]: one[mode] = paths(p, f, args, W[mode], c.literals, twice)[2]
        alone = {}
        for mode, k2, name in (("RHS", 1, "right hand side"), ("MATRIXONLY", 2, "matrix")):
            alone[mode] = {}
            for s, _, kk, _ in one[mode]:
                if kk != "ret": continue
                alone[mode].setdefault(bare(s.prop[k2]), []).append((s, held(s)))
                if s.prop[3 - k2]: r.add(f"{f.q}:{what}:{mode}:other", f"something is loaded into the {'matrix' if k2 == 1 else 'right hand side'} although only the {name} is wanted", f"{rel(f.file)}:{s.prop[3 - k2][0][1]} in {f.q}")
        r.count("paths through the assembly functions", len(rs) + sum(len(x) for x in one.values()))
        r.count("states", ip.nstates)
        for s, rv, k, tr in rs + [x for y in one.values() for x in y]:
            for _, mod, file, line, q in s.prop[3]:
                r.add(f"{f.q}:{what}:null", f"the model {mod[3]} is used where it may not exist", f"{rel(file)}:{line} in {q}")
        for s, rv, k, tr in rs:
            if k != "ret": continue
            rep = representative(s.prop[0], D)
            want, used = D.of(s, s.prop[0], rep)
            have = total(s.prop[2], rep)
            r.count("entries of the matrix compared", len(set(want) | set(have)))
            loaded[0] += len(s.prop[1]); loaded[1] += len(s.prop[2])
            for key in sorted(set(want) | set(have), key=repr):
                a, b = want.get(key, const(0)), have.get(key, const(0))
                if a != b:
                    line = next((l for vs, l in s.prop[2] if tuple(rep(x) for x in vs[:-1]) == key), None) or (s.prop[1][0][1] if s.prop[1] else f.line)
                    r.add(f"{f.q}:{what}:matrix", f"for the terms {what}, the entry of {shown(key[0])} with respect to {shown(key[1])} is {shown(b)}, and the derivative of what is loaded is {shown(a)}", f"{rel(f.file)}:{line} in {f.q}", trace_lines(tr))
            for mode, k2, name in (("RHS", 1, "right hand side"), ("MATRIXONLY", 2, "matrix")):
                mine = bare(s.prop[k2])
                if mine and not any(agree(held(s), fx) for ways in alone[mode].values() for _, fx in ways):
                    r.add(f"{f.q}:{what}:{mode}:none", f"for the terms {what}, {f.q} does not return when only the {name} is wanted, and does when both are", f"{rel(f.file)}:{f.line} in {f.q}")
                for other, ways in alone[mode].items():
                    if other == mine: continue
                    s2 = next((x for x, fx in ways if agree(held(s), fx)), None)
                    if s2 is None: continue
                    a, b = total(s.prop[k2], rep), total(s2.prop[k2], rep)
                    if a != b:
                        key = sorted((x for x in set(a) | set(b) if a.get(x) != b.get(x)), key=repr)[0]
                        r.add(f"{f.q}:{what}:{mode}", f"for the terms {what}, what is loaded into the {name} at {shown(key[0])} is {shown(a.get(key, const(0)))} when both are loaded and {shown(b.get(key, const(0)))} when only the {name} is", f"{rel(f.file)}:{f.line} in {f.q}")
    if not loaded[0]: raise Broken(f"nothing is loaded by {f.q} for {args}")
    r.samples.append(f"{f.q} for {what}: {len(rs)} paths, lists {len(lists)}")

SOL = ("p", ("sol",), ())
def check_elements(r):
    """the circuit elements: what they load into the matrix is the derivative of what they load into the right hand side"""
    p = load()
    fs = [f for f in p.fns.values() if re.fullmatch(r"assemble(DC|Tran)_impl", last(f.q)) and f.file.startswith("/repo/src/Circuit") and "InstanceModel::" not in f.q]
    r.count("assembly functions of circuit elements", len(fs))
    r.need("assembly functions of circuit elements", 4)
    seen = [0, 0]
    for f in sorted(fs, key=lambda f: f.d):
        ps, _ = split_params(f.d)
        off = len(f.args) - len(ps)
        def given(alone):
            def g(j, t):
                if t == "this": return THIS
                if "RowColVal<" in t: return ("c", 0) if alone else MATRIX
                if "pair<int" in t: return RHS
                if "vector<double" in t: return SOL
                return atom("given", j)
            return g
        def go(alone):
            c = Assembly(p)
            rs = [x for x in Interp(p, c).run(f, bind(p, f, given(alone), 2)) if x[2] == "ret"]
            if c.unknown: raise Broken("it is not known " + c.unknown)
            return rs
        rs = go(False)
        pointer = any("RowColVal<" in t and t.rstrip().endswith("*") for t in ps)
        other = go(True) if pointer else []
        r.count("paths through them", len(rs) + len(other))
        for s, rv, k, tr in rs:
            seen[0] += len(s.prop[1]); seen[1] += len(s.prop[2])
            rep = lambda x: x
            want, have = {}, total(s.prop[2], rep)
            for (row, val), line in s.prop[1]:
                for m, c in val[1]:
                    for i, a in enumerate(m):
                        if a[0] == "ld" and a[1][0] == "at" and a[1][1] == SOL:
                            key = (row, a[1][2])
                            want[key] = plus(want.get(key, const(0)), build({m[:i] + m[i + 1:]: c}))
                        elif "'sol'" in repr(a): raise Broken(f"{f.q} is not linear in what is solved for in a way that is known")
            for key in sorted(set(want) | set(have), key=repr):
                a, b = want.get(key, const(0)), have.get(key, const(0))
                if a != b:
                    line = next((l for vs, l in s.prop[2] if tuple(vs[:-1]) == key), f.line)
                    r.add(f"{f.q}:matrix", f"the entry of the row {shown(key[0])} with respect to {shown(key[1])} is {shown(b)}, and the derivative of what is loaded is {shown(a)}", f"{rel(f.file)}:{line} in {f.q}", trace_lines(tr))
            for s2, _, _, _ in other:
                if agree(held(s), held(s2)) and total(s.prop[1], rep) != total(s2.prop[1], rep):
                    r.add(f"{f.q}:rhs", f"what {f.q} loads into the right hand side is not the same when no matrix is wanted", f.where())
    if not all(seen): raise Broken("the circuit elements load nothing")

def check_assembly(r):
    check_elements(r)
    check_units(r)
    r.need("equations that are assembled", 2)
    r.need("terms of equations", 10)
    r.need("assembly functions analysed, with their models and signs", 5)
    r.need("entries of the matrix compared", 1000)
    r.explain = ("Each function that assembles a term of an equation, contact equation or interface equation is interpreted over polynomials whose unknowns are the entries of models at the elements, edges and nodes visited (one arbitrary entry of each list, and once more two different ones that may share a node); "
        "what it loads into the right hand side is differentiated by the rules for the names of derivative models, and compared entry by entry with what it loads into the matrix, on every path. "
        "The terms (which models, weights and signs, in which mode) are those found by interpreting what the equation is made of; what is loaded and called when only one of the two is wanted is compared with what is when both are. "
        "The functions of circuit elements are linear in the solution, and their entries are compared with its coefficients.")
    r.assumptions += ["a model named as a derivative holds the derivative", "the numbers of equations of different variables are different", "the solution of a circuit element is read from the list it is given"]
