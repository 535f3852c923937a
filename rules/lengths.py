"""How many values: every list of values a model is given has one value for each
element of its kind, and the loops that fill such lists go over all of it."""
import re, sys
from common import *
from esp import split_params, Client, Interp, State, TRUE, FALSE
from models import last, only, entry, field_path, KINDS

UNK = frozenset([("?",)])
ST = "$st"
EMPTY, MADE, FULL = frozenset([("empty",)]), frozenset([("made",)]), frozenset([("full",)])
BARE = EMPTY | MADE
ATTR = "model_data"

def num(c, base=None, off=0):
    return ("n", c if base else 0, base, off if base else c + off)
def const(k): return ("n", 0, None, k)

class Spec:
    """the number of values of each kind of model, in terms of the lists of elements"""
    def __init__(self, p):
        f = lambda g: field_path(p, g)[-1]
        self.kind = {
            "NodeModel": (1, {f("Region::GetNodeList")}),
            "EdgeModel": (1, {f("Region::GetEdgeList")}),
            "TriangleEdgeModel": (3, {f("Region::GetTriangleList")}),
            "TetrahedronEdgeModel": (6, {f("Region::GetTetrahedronList")}),
            "InterfaceNodeModel": (1, {f("Interface::GetNodes0"), f("Interface::GetNodes1")}),
        }
        self.bases = set().union(*[b for c, b in self.kind.values()])
    def value(self, k):
        c, b = self.kind[k]
        return ("n", c, min(b), 0)
    def right(self, k, v):
        c, b = self.kind[k]
        return v[1] == c and v[2] in b and v[3] == 0

def kind_of(dem):
    """the kind of model a class of values belongs to, from the (template) name"""
    for k in sorted(KINDS, key=len, reverse=True):
        if k in dem: return k
    return None

class Lengths:
    """Forward dataflow: the lengths of vectors and the numbers computed from them,
    with the functions called with such vectors or numbers analysed in place."""
    max_depth = 5
    opaque = False
    def __init__(self, p, spec):
        self.p, self.spec = p, spec
        self.memo, self.active, self.final = {}, [], True
        self.sinks = {}          # (fn, line, what) -> (kind, set of lengths)
        self.fills = {}          # (fn, line) -> problem
        self.loops = set()
        self.sig, self.fat = {}, {}
        self.lb, self.lt, self.lo = {}, {}, {}
        self.bare, self.states = {}, 0
    def params(self, sym):
        r = self.sig.get(sym)
        if r is None: r = self.sig[sym] = split_params(self.p.dem.get(sym, sym))
        return r
    def fatal(self, i):
        """a call that reports a fatal error does not return"""
        k = id(i)
        r = self.fat.get(k)
        if r is None:
            r = False
            for s in self.p.callees(i)[:1]:
                ps, _ = self.params(s)
                off = len(i[4]) - len(ps or [])
                for n, t in enumerate(ps or []):
                    if t.endswith("OutputType") and 0 <= off + n < len(i[4]) and isinstance(i[4][off + n], dict) and i[4][off + n].get("c") == 4: r = True
            self.fat[k] = r
        return r
    def succs(self, fn, b):
        t = fn.blocks[b][-1]
        if any(i[0] == "call" and self.fatal(i) for i in fn.blocks[b]): return []
        return fn.succs(b)
    # -- values
    def val(self, env, o):
        if isinstance(o, bool): return UNK
        if isinstance(o, int): return env.get(o, UNK)
        if isinstance(o, dict):
            if "a" in o: return env.get("a%d" % o["a"], UNK)
            if "c" in o and isinstance(o["c"], int): return frozenset([const(o["c"])])
            if "g" in o: return frozenset([("p", ("g", o["g"]), ())])
        return UNK
    @staticmethod
    def cap(s): return s if len(s) <= 6 else UNK
    def arith(self, op, a, b):
        out = set()
        for x in a:
            for y in b:
                r = ("?",)
                if x[0] == "n" == y[0]:
                    if op in ("add", "sub"):
                        s = 1 if op == "add" else -1
                        if x[2] is None or y[2] is None or x[2] == y[2]:
                            base = x[2] or y[2]
                            c = x[1] + s * y[1]
                            r = ("n", c, base if c else None, x[3] + s * y[3])
                    elif op in ("mul", "shl"):
                        if op == "shl" and y[2] is None: y = const(1 << y[3]) if 0 <= y[3] < 32 else ("?",)
                        if y[0] == "n" and (x[2] is None or y[2] is None):
                            k, z = (x[3], y) if x[2] is None else (y[3], x)
                            r = ("n", k * z[1], z[2] if k else None, k * z[3])
                out.add(r)
        return self.cap(frozenset(out))
    def one(self, v):
        if len(v) == 1:
            x = next(iter(v))
            if x[0] == "p": return x
        return None
    def vec(self, mem, v):
        """the lengths of the vector at an address"""
        out = set()
        for x in v:
            if x[0] != "p": out.add(("?",)); continue
            r = mem.get((x[1], x[2]))
            if r is not None: out |= r
            elif x[2] and x[2][-1] in self.spec.bases: out.add(("n", 1, x[2][-1], 0))
            elif x[1][0] == "vals": out.add(self.spec.value(x[1][1]))
            else: out.add(("?",))
        return self.cap(frozenset(out)) if out else UNK
    # -- a function, from the values of its arguments and what is known of memory
    def run(self, fn, args, mem0, depth):
        key = (fn.n, tuple(args), frozenset(mem0.items()), self.final)
        r = self.memo.get(key)
        if r is not None: return r
        self.active.append(fn.n)
        env = {"a%d" % n: a for n, a in enumerate(args)}
        order = self.rpo(fn)
        outer, table = self.final, None
        for attempt in (0, 1):
            rets, retmem = set(), None
            inn, final, settled = {0: dict(mem0)}, {}, False
            for rnd in range(30):
                changed = False
                # only what holds at the fixpoint counts
                self.final = outer and (settled or rnd == 29) and (attempt == 1 or not self.full(fn, final))
                for b in order:
                    if b not in inn: continue
                    mem = dict(inn[b])
                    if self.block(fn, b, env, mem, depth): changed = True
                    final[b] = mem
                    for s in self.succs(fn, b):
                        mem = self.edge(fn, b, s, final[b], table, env)
                        old = inn.get(s)
                        if old is None: inn[s] = dict(mem); changed = True; continue
                        for k, v in mem.items():
                            o = old.get(k)
                            n = v if o is None else self.cap(o | v)
                            if n != o: old[k] = n; changed = True
                if settled or rnd == 29: break
                settled = not changed
            table = self.full(fn, final)
            if not table: break
        self.final = outer
        for b, i in fn.exits():
            if b not in final: continue
            if i[3] is not None: rets |= self.val(env, i[3])
            m = final[b]
            if retmem is None: retmem = dict(m)
            else:
                for k, v in m.items(): retmem[k] = self.cap(retmem[k] | v) if k in retmem else v
        if outer: self.filled(fn, env, final)
        self.active.pop()
        ret = self.cap(frozenset(x for x in rets if not (x[0] == "p" and x[1][0] == "al" and x[1][1] == fn.n))) or UNK
        retmem = {k: v for k, v in (retmem or {}).items() if not (k[0][0] == "al" and k[0][1] == fn.n)}
        r = self.memo[key] = (ret, retmem)
        return r
    def rpo(self, fn):
        seen, out = set(), []
        st = [(0, iter(self.succs(fn, 0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succs(fn, s)))); break
            else:
                out.append(b); st.pop()
        return out[::-1]
    def block(self, fn, b, env, mem, depth):
        changed = False
        def put(v, x):
            nonlocal changed
            if v is None or v < 0: return
            x = self.cap(x)
            if env.get(v) != x: env[v] = x; changed = True
        for i in fn.blocks[b]:
            op, vid = i[0], i[1]
            V = lambda o: self.val(env, o)
            if op == "alloca": put(vid, frozenset([("p", ("al", fn.n, vid), ())]))
            elif op == "phi":
                s = set()
                for v, q in i[3]:
                    if isinstance(v, int) and v not in env: continue
                    s |= V(v)
                put(vid, frozenset(s) or UNK)
            elif op == "gep":
                out = set()
                for x in V(i[3]):
                    if x[0] == "p":
                        path = x[2]
                        for e in i[5]:
                            if e == "[]" and path and path[-1] == "[]": continue
                            path += (e,)
                        out.add(("p", x[1], path) if len(path) <= 6 else ("?",))
                    elif i[5]:
                        out.add(("p", ("o", i[4]), tuple(i[5])[:6]))
                    else: out.add(("?",))
                put(vid, frozenset(out))
            elif op == "load":
                out = set()
                for x in V(i[3]):
                    if x[0] == "p": out |= mem.get((x[1], x[2] + ("=",)), UNK)
                    else: out.add(("?",))
                put(vid, frozenset(out))
            elif op == "store":
                x = self.one(V(i[4]))
                v = V(i[3])
                if x: mem[(x[1], x[2] + ("=",))] = v
            elif op == "cast": put(vid, V(i[4]))
            elif op == "bin": put(vid, self.arith(i[3], V(i[4]), V(i[5])))
            elif op == "select": put(vid, V(i[4]) | V(i[5]))
            elif op == "call":
                r = self.call(fn, i, env, mem, depth)
                if vid is not None and vid >= 0: put(vid, r if r is not None else UNK)
            elif vid is not None and vid >= 0: put(vid, UNK)
        return changed
    # -- what is known of the values in a list: (place, $st) -> nothing in it / as made / set
    def loopbody(self, fn):
        r = self.lb.get(fn.n)
        if r is None:
            order = {b: n for n, b in enumerate(self.rpo(fn))}
            heads = {}
            for b in order:
                for s in self.succs(fn, b):
                    if order.get(s, -1) <= order[b] and s in order: heads.setdefault(s, set()).add(b)
            r = self.lb[fn.n] = {h: self.natural(fn, h) for h in heads}
            self.lt[fn.n] = {h: {b for b in ls if b in r[h]} for h, ls in heads.items()}
            self.lo[fn.n] = {}
            for h, bs in r.items():
                for b in bs: self.lo[fn.n].setdefault(b, []).append(h)
        return r
    def loopsof(self, fn): self.loopbody(fn); return self.lo[fn.n]
    def latches(self, fn): self.loopbody(fn); return self.lt[fn.n]
    def subject(self, fn, o):
        i = fn.inst(o) if isinstance(o, int) else None
        for k in range(6):
            if i is None: return None
            if i[0] == "cast": i = fn.inst(i[4]) if isinstance(i[4], int) else None; continue
            if i[0] == "load":
                g = fn.inst(i[3]) if isinstance(i[3], int) else None
                if g is not None and g[0] == "gep": return (str(g[3]), tuple(map(str, g[5])))
                return (str(i[3]),)
            return (i[1],)
        return None
    def other(self, fn, b, s):
        """an edge taken when a value is none of those it is compared with"""
        t = fn.blocks[b][-1]
        if t[0] == "switch": return t[4] == s and len(t[5]) > 1 and s not in [x for c, x in t[5]]
        if t[0] != "br" or t[3] is None: return False
        def test(b):
            t = fn.blocks[b][-1]
            if t[0] != "br" or t[3] is None: return None
            c = fn.inst(t[3])
            if c is None or c[0] != "icmp" or c[3] not in ("eq", "ne") or not isinstance(c[5], dict) or not isinstance(c[5].get("c"), int): return None
            x = self.subject(fn, c[4])
            sc = fn.succs(b)
            return (x, sc[1 if c[3] == "eq" else 0]) if x and len(sc) == 2 else None
        x = test(b)
        if x is None or x[1] != s: return False
        n = sum(1 for q in range(len(fn.blocks)) if (test(q) or (None,))[0] == x[0])
        nxt = test(s)
        return n > 1 and not (nxt and nxt[0] == x[0])
    def edge(self, fn, b, s, mem, table, env):
        st = [k for k in mem if k[1] and k[1][-1] == ST]
        if not st: return mem
        if self.other(fn, b, s):
            mem = dict(mem)
            for k in st: mem[k] = mem[k] - BARE
        t = fn.blocks[b][-1]
        if t[0] == "br" and t[3] is not None:
            c, neg = fn.inst(t[3]), False
            if c is not None and c[0] == "bin" and c[3] == "xor": c, neg = (fn.inst(c[4]) if isinstance(c[4], int) else None), True
            sc = fn.succs(b)
            if c is not None and c[0] == "call" and len(sc) == 2 and sc[0] != sc[1] and self.p.callee_qs(c) == {"std::vector::empty"}:
                x = self.one(self.val(env, c[4][0]))
                k = (x[1], x[2] + (ST,)) if x else None
                if k in mem and (s == sc[0]) == neg: mem = dict(mem); mem[k] = mem[k] - EMPTY
        for h in self.loopsof(fn).get(b, ()) if table else ():
            if s in self.loopbody(fn)[h]: continue
            for k in table.get(h, ()):
                if k in mem and mem[k] & BARE: mem = dict(mem); mem[k] = (mem[k] - BARE) | FULL
        return mem
    def full(self, fn, final):
        """the lists that are given values in each loop"""
        out = {}
        for h, body in self.loopbody(fn).items():
            for x in self.latches(fn)[h]:
                for k, v in final.get(x, {}).items():
                    if k[1] and k[1][-1] == ST and v - BARE and BARE & final.get(h, {}).get(k, BARE): out.setdefault(h, set()).add(k)
        return out
    def written(self, fn, i):
        """the element of a list this call refers to is given a value"""
        for b, k, u in fn.users().get(i[1], ()):
            if u[0] == "load": continue
            if u[0] == "call" and self.p.callees(u) and u[4]:
                if all(self.is_const(self.p.callees(u)[0], n, len(u[4])) for n, a in enumerate(u[4]) if a == i[1]): continue
            return True
        return False
    def sink(self, fn, i, kind, lens, what, mem=None, vec=None):
        if self.final and mem is not None:
            x = self.one(vec)
            v = mem.get((x[1], x[2] + (ST,))) if x else None
            if v is not None:
                self.states += 1
                if v & BARE and not v & UNK: self.bare[(fn.q, i[2])] = (fn, i, kind, v)
        if not self.final: return
        k = (fn.q, i[2], what)
        o = self.sinks.get(k)
        self.sinks[k] = (kind, (o[1] if o else frozenset()) | lens, fn)
    def call(self, fn, i, env, mem, depth):
        p = self.p
        syms = p.callees(i)
        args = [self.val(env, a) for a in i[4]]
        if not syms: 
            return UNK
        q = p.q(syms[0])
        dem = p.dem.get(syms[0], syms[0])
        n = last(q)
        cls = q.rsplit("::", 1)[0] if "::" in q else ""
        # values of models
        if cls in KINDS:
            if n == "GetScalarValues": return frozenset([("p", ("vals", cls), ())])
            if n == "GetLength": return frozenset([self.spec.value(cls)])
            if n == "SetValues" and len(args) > 1 and "vector<" in dem:
                if fn.q != q: self.sink(fn, i, cls, self.vec(mem, args[1]), "values of", mem, args[1])
                return UNK
        if cls.endswith("ScalarData"):
            k = kind_of(dem) or (cls[:-len("ScalarData")] + "Model" if cls != "ScalarData" else None)
            if k in KINDS:
                if n == "GetLength": return frozenset([self.spec.value(k)])
                if n == "GetScalarList": return frozenset([("p", ("vals", k), ())])
                if n == cls:
                    ps, _ = self.params(syms[0])
                    if ps and len(args) >= 2 and "vector<" in ps[0] and "ScalarData" not in ps[0]: self.sink(fn, i, k, self.vec(mem, args[1]), "values of", mem, args[1])
                    if ps and len(ps) == 2 and len(args) >= 3: self.sink(fn, i, k, args[-1], "length of")
                    return UNK
        if "ScalarValuesType" in cls or (cls.endswith("ModelExprData") and n in ("GetScalarValues", "GetLength")): return UNK     # of whatever kind it has
        if q == "ModelDataHolder::ModelDataHolder" and len(args) == 2:
            k = fn.q.split("::")[0]
            if k in KINDS and fn.q == k + "::" + k: self.sink(fn, i, k, args[1], "length of")
            return UNK
        if q.startswith("std::array::"):
            return self.element(args[0]) if n in ("operator[]", "at", "front", "back", "data") and args else UNK
        if q.startswith("std::vector::"):
            return self.vector(fn, i, n, syms[0], args, mem)
        if q.startswith(("std::shared_ptr::", "std::__shared_ptr", "std::unique_ptr", "std::forward", "std::move")):
            return args[0] if n in ("forward", "move") and args else UNK
        g = p.resolve(syms[0]) if len(syms) == 1 else None
        if g is not None and depth < self.max_depth and g.n not in self.active and self.worth(g, args, mem):
            roots = {x[1] for a in args for x in a if x[0] == "p"}
            sub = {k: v for k, v in mem.items() if k[0] in roots}
            ret, m = self.run(g, args, sub, depth + 1)
            for k, v in m.items(): mem[k] = v
            return ret
        # unknown code may change what it is given by reference
        for s in syms[:1]:
            ps, cst = self.params(s)
            for k, a in enumerate(args):
                x = self.one(a)
                if x and not self.is_const(s, k, len(args)):
                    for kk in [kk for kk in mem if kk[0] == x[1] and kk[1][:len(x[2])] == x[2]]: mem[kk] = UNK
        return UNK
    def is_const(self, sym, k, nargs):
        ps, cst = self.params(sym)
        if ps is None: return False
        off = nargs - len([x for x in ps if x != "void"])
        if k < off: return cst and k == off - 1
        t = ps[k - off]
        return " const&" in t or t.endswith("const*") or not t.endswith(("&", "*"))
    def worth(self, g, args, mem):
        """a helper that is given, or may return, a list or a number of values"""
        if len(g.blocks) > 400: return False
        if len(g.blocks) == 1: return True
        if any(x[0] == "n" and x[2] for a in args for x in a): return True
        for k, a in enumerate(args):
            x = self.one(a)
            if x and (k < len(g.aty)) and ((x[1], x[2]) in mem or any(kk[0] == x[1] for kk in mem)): return True
        if g.rty in ("i64", "i32") and len(g.blocks) <= 12: return True
        return "vector<" in g.d and len(g.blocks) <= 120
    def element(self, v):
        return frozenset(("p", x[1], x[2] + ("[]",)) if x[0] == "p" and len(x[2]) < 6 else ("?",) for x in v)
    def vector(self, fn, i, n, sym, args, mem):
        if not args: return UNK
        t = self.one(args[0])
        ps, cst = self.params(sym)
        ps = ps or []
        key = (t[1], t[2]) if t else None
        def put(v):
            if key: mem[key] = v
        def sub():      # what was known of its elements
            if key:
                for kk in [kk for kk in mem if kk[0] == key[0] and kk[1][:len(key[1])] == key[1] and len(kk[1]) > len(key[1])]: del mem[kk]
        def state(v):
            if key: mem[(key[0], key[1] + (ST,))] = v
        def stateof(v):
            x = self.one(v)
            return mem.get((x[1], x[2] + (ST,)), FULL) if x else FULL
        now = stateof(args[0]) if key and (key[0], key[1] + (ST,)) in mem else None
        if n == "vector":
            new = FULL
            if not ps or "allocator" in ps[0] and len(ps) == 1 and "vector<" not in ps[0]: new = EMPTY
            elif ps[0].startswith("unsigned long"): new = FULL if len(ps) > 1 and "allocator" not in ps[1] else MADE
            elif ps[0].startswith("std::vector<"): new = stateof(args[1])
            sub()
            state(new)
        elif now is not None:
            if n == "resize": state(frozenset().union(*((MADE if len(ps) == 1 else FULL) if x in EMPTY else frozenset([x]) for x in now)))
            elif n == "clear": state(EMPTY)
            elif n in ("assign", "push_back", "emplace_back", "insert", "emplace"): state(FULL)
            elif n == "operator=": state(stateof(args[1]) if ps and ps[0].startswith("std::vector<") else FULL)
            elif n == "swap":
                o = self.one(args[1])
                ov = stateof(args[1])
                if o: mem[(o[1], o[2] + (ST,))] = now
                state(ov)
            elif n in ("operator[]", "at", "front", "back", "data", "begin", "end") and not cst and self.written(fn, i): state(FULL)
        if n == "vector":
            if not ps or "allocator" in ps[0] and len(ps) == 1 and "vector<" not in ps[0]: put(frozenset([const(0)]))
            elif ps[0].startswith("unsigned long"): put(args[1])
            elif ps[0].startswith("std::vector<") : put(self.vec(mem, args[1]))
            else: put(UNK)
            return UNK
        if n.startswith("~"):
            sub()
            if key: mem.pop(key, None)
            return UNK
        if n == "size": return self.vec(mem, args[0])
        if n in ("resize",): put(args[1]); return UNK
        if n == "assign":
            put(args[1] if ps and ps[0].startswith("unsigned long") else UNK); return UNK
        if n == "clear": put(frozenset([const(0)])); return UNK
        if n == "operator=":
            put(self.vec(mem, args[1]) if ps and ps[0].startswith("std::vector<") else UNK); return args[0]
        if n == "swap":
            o = self.one(args[1])
            a, b = self.vec(mem, args[0]), self.vec(mem, args[1])
            put(b)
            if o: mem[(o[1], o[2])] = a
            return UNK
        if n in ("operator[]", "at", "front", "back", "data"):
            return self.element(args[0])
        if n in ("begin", "end", "cbegin", "cend", "empty", "reserve", "capacity", "shrink_to_fit", "rbegin", "rend", "max_size"): return UNK
        put(UNK)
        return UNK
    # -- loops that fill a list of values
    def affine(self, fn, o, n=0):
        """an index as {phi: coefficient} and a constant, or None"""
        if isinstance(o, dict):
            return ({}, o["c"]) if isinstance(o.get("c"), int) else None
        i = fn.inst(o) if isinstance(o, int) else None
        if i is None or n > 12: return None
        if i[0] == "phi": return ({o: 1}, 0)
        if i[0] in ("call", "load") and self.opaque: return ({o: 1}, 0)
        if i[0] == "cast": return self.affine(fn, i[4], n + 1)
        if i[0] == "bin" and i[3] in ("add", "sub", "mul", "shl"):
            a, b = self.affine(fn, i[4], n + 1), self.affine(fn, i[5], n + 1)
            if a is None or b is None: return None
            if i[3] in ("add", "sub"):
                s = 1 if i[3] == "add" else -1
                r = dict(a[0])
                for k, v in b[0].items(): r[k] = r.get(k, 0) + s * v
                return (r, a[1] + s * b[1])
            if i[3] == "shl":
                if b[0] or not 0 <= b[1] < 32: return None
                b = ({}, 1 << b[1])
            if a[0] and b[0]: return None
            k, z = (a[1], b) if not a[0] else (b[1], a)
            return ({x: k * v for x, v in z[0].items()}, k * z[1])
        return None
    def counter(self, fn, env, phi):
        """(start, step, bound, predicate, block of the test) of a counted loop"""
        b0, k0, i = fn.defs[phi]
        start = step = None
        for v, q in i[3]:
            a = self.affine(fn, v)
            if a is None: return None
            if a[0] == {}: start = a[1] if start is None or start == a[1] else "?"
            elif a[0] == {phi: 1}: step = a[1] if step is None or step == a[1] else "?"
            else: return None
        if start in (None, "?") or step in (None, "?"): return None
        t = fn.blocks[b0][-1]
        if t[0] != "br" or t[3] is None: return None
        c = fn.inst(t[3])
        if c is None or c[0] != "icmp": return None
        x, y = self.affine(fn, c[4]), self.affine(fn, c[5])
        if x and x[0] == {phi: 1}: pred, bound, k = c[3], c[5], x[1]
        elif y and y[0] == {phi: 1}: pred, bound, k = {"ult": "ugt", "ugt": "ult", "slt": "sgt", "sgt": "slt", "ule": "uge", "uge": "ule", "sle": "sge", "sge": "sle"}.get(c[3], c[3]), c[4], y[1]
        else: return None
        bd = self.val(env, bound)
        if k: bd = self.arith("sub", bd, frozenset([const(k)]))
        return start, step, bd, pred, b0
    def natural(self, fn, head):
        """the blocks of the (innermost) loop with this head"""
        preds = {}
        for b in range(len(fn.blocks)):
            for s in self.succs(fn, b): preds.setdefault(s, []).append(b)
        # blocks that cannot be entered without the head
        free, w = {0}, [0]
        if head == 0: free, w = set(), []
        while w:
            b = w.pop()
            for s in self.succs(fn, b):
                if s != head and s not in free: free.add(s); w.append(s)
        back, w = {head}, [b for b in preds.get(head, ()) if b not in free]
        while w:
            b = w.pop()
            if b in back: continue
            back.add(b)
            w += preds.get(b, ())
        return back
    def filled(self, fn, env, final):
        """the stores into elements of lists of values, and the loops they are in"""
        p = self.p
        lists = {}
        for b, k, i in fn.calls():
            if b not in final: continue
            qs = p.callee_qs(i)
            if qs != {"std::vector::operator[]"} or "const" in self.p.dem.get(p.callees(i)[0], "").rsplit(")", 1)[-1]: continue
            idx = i[4][1]
            self.opaque = True
            a = self.affine(fn, idx)
            self.opaque = False
            if not a or not a[0]: continue
            stores = [u for bb, kk, u in fn.users().get(i[1], ()) if (u[0] == "store" and u[4] == i[1]) or (u[0] == "call" and u[4] and u[4][0] == i[1] and any(last(x) in ("operator=",) for x in p.callee_qs(u)))]
            if not stores: continue
            x = self.one(self.val(env, i[4][0]))
            if not x: continue
            ln = final[b].get((x[1], x[2]))
            if not ln or len(ln) != 1: continue
            ln = next(iter(ln))
            if ln[0] != "n" or ln[2] not in self.spec.bases or ln[3] != 0: continue
            lists.setdefault((x[1], x[2], ln), []).append((a, i, b))
        for (root, path, ln), ws in lists.items():
            cover, exact, outer = set(), True, None
            c = ln[1]
            for (coef, k0), i, b in ws:
                offs = {k0}
                main = None
                for phi, m in coef.items():
                    if fn.inst(phi)[0] != "phi":        # the index of an element
                        if m == c: main = (phi, m)
                        else: exact = False
                        continue
                    ct = self.counter(fn, env, phi)
                    if ct is None: exact = False; continue
                    start, step, bound, pred, head = ct
                    if len(bound) != 1: exact = False; continue
                    bd = next(iter(bound))
                    if bd[0] != "n": exact = False; continue
                    if bd[2] is None:      # over the parts of one element
                        hi = bd[3] + (1 if pred in ("ule", "sle") else 0)
                        if pred not in ("ult", "slt", "ule", "sle", "ne") or step <= 0 or hi - start > 64: exact = False; continue
                        offs = {o + m * v for o in offs for v in range(start, hi, step)}
                        continue
                    if bd[2] != ln[2] and not (self.same(bd[2], ln[2])): exact = False; continue
                    main = (phi, m, start, step, bd, pred, head)
                if main is None: exact = False; continue
                if len(main) == 2:
                    self.loops.add((fn.q, i[2]))
                    cover |= offs
                    continue
                phi, m, start, step, bd, pred, head = main
                site = (fn.q, i[2])
                self.loops.add(site)
                upto = bd[3] + (1 if pred in ("ule", "sle") else 0)
                why = None
                if pred not in ("ult", "slt", "ne", "ule", "sle"): exact = False; continue
                # the counter runs over start, start+step, ... below bd[1]*|L|+upto; the list has c*|L| values
                if start > 0 and not (0 <= k0 + m * start < c and start * m <= 0): why = f"starts at {start}, not at the first element"
                elif upto != 0: why = "does not end with the last element"
                elif m * bd[1] != c and m * bd[1] < c: why = f"reaches {m * bd[1]} of {c} values for each element"
                elif step * m > c: why = f"goes on by {step} elements at a time"
                else:
                    nat = self.natural(fn, head)
                    for x in nat:
                        if x == head: continue
                        for s in self.succs(fn, x):
                            if s not in nat and self.returns(fn, s): why = "can end before the last element"
                if why: self.fills[site] = (fn, i, why); exact = False; continue
                if step * m == c or (step == 1 and m == c): cover |= offs
                elif step * m == 1: cover |= set(range(c))
                else: exact = False
            if exact and not cover >= set(range(c)):
                i = ws[0][1]
                self.fills[(fn.q, i[2])] = (fn, i, f"sets only the values {sorted(cover)} of the {c} of each element")
    def same(self, a, b):
        return any(a in s and b in s for c, s in self.spec.kind.values())
    def returns(self, fn, b):
        seen, w = {b}, [b]
        while w:
            x = w.pop()
            if fn.blocks[x][-1][0] == "ret": return True
            for s in self.succs(fn, x):
                if s not in seen: seen.add(s); w.append(s)
        return False

def text(spec, v):
    if v[0] != "n": return "an unknown number"
    if v[2] is None: return str(v[3])
    return f"{v[1] if v[1] != 1 else ''}{'*' if v[1] != 1 else ''}|{v[2]}|{'%+d' % v[3] if v[3] else ''}"

def check_lengths(r):
    p = load()
    spec = Spec(p)
    L = Lengths(p, spec)
    want = set()
    callers = p.callers()
    for s in list(p.dem):
        q = p.q(s)
        c, n = (q.rsplit("::", 1) + [""])[:2] if "::" in q else ("", q)
        if (c in KINDS and n == "SetValues") or (c.endswith("ScalarData") and n == c) or q == "ModelDataHolder::ModelDataHolder":
            for f, b, k, i in callers.get(s, ()): want.add(f.n)
    # and the functions that fill lists for them
    for n in sorted(want):
        f = p.fns[n]
        if f.q.startswith("std::"): continue
        L.run(f, [UNK] * len(f.aty), {}, 0)
    known = 0
    for (q, line, what), (k, lens, f) in sorted(L.sinks.items()):
        good = [v for v in lens if v[0] == "n"]
        nz = [v for v in good if not (v[2] is None and v[3] == 0)]
        if not nz and good and len(good) == len(lens): nz = good if what == "values of" else []
        if len(good) < len(lens): nz = [v for v in nz if v[2] is not None]      # (a constant belongs to a case that is not of a model)
        bad = [v for v in nz if not spec.right(k, v)]
        if nz and not any(v[0] == "?" for v in lens): known += 1
        for v in bad[:1]:
            r.add(f"{q}|length|{k}|{text(spec, v)}", f"the {what} {'an' if k[0] in 'EI' else 'a'} {k} {'is' if what[0]=='l' else 'are'} {text(spec, v)}, not {text(spec, spec.value(k))} ({q})", f"{rel(f.file)}:{line}")
    for (q, line), (f, i, k, v) in sorted(L.bare.items(), key=lambda x: x[0]):
        if DEBUG: print("BARE", q, line, k, v)
        r.add(f"{q}|bare|{k}", f"the values of {'an' if k[0] in 'EI' else 'a'} {k} can be given as they were made, without having been calculated ({q})", f"{rel(f.file)}:{line}")
    r.cov["lists_followed"] = L.states
    for (q, line), (f, i, why) in sorted(L.fills.items()):
        r.add(f"{q}|fill|{why[:30]}", f"the loop that fills the values {why} ({q})", f"{rel(f.file)}:{line}")
    r.cov["lengths_known"] = known
    r.cov["lengths"] = len(L.sinks)
    r.cov["filling_loops"] = len(L.loops)
    return L

# -- a calculation provides the values of the model and of the models it keeps ------------------------
import deps
PROV = ("provided",)
class Provides(deps.Names):
    """mem: (provided,) (name,) -> TRUE; (place of a pointer, $models) -> the models it may point to"""
    def names(self, st, a):
        if not a or a[0] != "p": return None
        if a[1][0] == "mdl": return a[1][1]
        if a == deps.THIS: return frozenset(["self"])
        v = st.mem.get((a[1], a[2] + ("$models",)))
        return v[1] if v else None
    def setnames(self, ns, a, v):
        if not a or a[0] != "p": return
        k = (a[1], a[2] + ("$models",))
        if v is None: ns.mem.pop(k, None); return
        if "[]" in a[2]:
            old = ns.mem.get(k)
            v = v | (old[1] if old else frozenset())
        ns.mem[k] = ("ms", frozenset(v))
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        n, ns = last(q), st.copy()
        if q == "dsAssert_": return [(ns, None, "noreturn")]      # only called when the condition failed
        a0 = args[0] if args else None
        cls = q.rsplit("::", 1)[0] if "::" in q else ""
        if cls in deps.BASES and n == "SetValues":
            who = self.names(st, a0)
            if self.phase == "calc":
                self.sets += 1
                if who is None: self.unk += 1; ns.mem[(PROV, ("?",))] = TRUE
                for x in who or (): ns.mem[(PROV, (x,))] = TRUE
            return [(ns, None, "ret")]
        if cls in deps.BASES and n in ("GetScalarValues", "CalculateValues") and self.phase == "calc":
            who = self.names(st, a0)
            if who and who != {"self"} and all(x.startswith("parent ") for x in who): ns.mem[(PROV, ("self",))] = TRUE
            return [(ns, None, "ret")]
        if n in ("GetSelfPtr", "GetConstSelfPtr", "shared_from_this") and len(args) == 2 and args[1] == deps.THIS:
            self.setnames(ns, a0, frozenset(["self"])); return [(ns, None, "ret")]
        if q in deps.LOOKUPS:
            x = self.name(st, ip, args[-1])
            outs = super().call(ip, st, fn, inst, qs, args)
            for s, rv, k in outs or ():
                self.setnames(s, a0, frozenset([deps.collapse(x)]) if x else None)
            return outs
        if q.startswith("std::"):
            f = q.split("::")[1]
            if f in ("weak_ptr", "__weak_ptr", "shared_ptr", "__shared_ptr", "__shared_ptr_access") or f in ("const_pointer_cast", "dynamic_pointer_cast", "static_pointer_cast", "__enable_shared_from_this"):
                if n == "expired":
                    who = self.names(st, a0)
                    b = st.copy()
                    for x in who or (): ns.mem[(PROV, (x,))] = TRUE       # there is no such model any more
                    if a0 == None or not who:
                        if a0 and a0[0] == "p" and a0[1] == ("arg", 0): self.setnames(b, a0, frozenset(["parent " + ".".join(map(str, a0[2]))]))
                    return [(ns, TRUE, "ret"), (b, FALSE, "ret")]
                if n in ("lock", "const_pointer_cast", "dynamic_pointer_cast", "static_pointer_cast") and len(args) >= 2:
                    who = self.names(st, args[1])
                    if who is None and n == "lock" and args[1] and args[1][0] == "p" and args[1][1] == ("arg", 0): who = frozenset(["parent " + ".".join(map(str, args[1][2]))])
                    self.setnames(ns, a0, who); return [(ns, None, "ret")]
                if n in ("operator->", "operator*", "get", "_M_get") and a0:
                    who = self.names(st, a0)
                    return [(ns, ("p", ("mdl", who), ()) if who else None, "ret")]
                if n == "operator=" and len(args) == 2:
                    self.setnames(ns, a0, self.names(st, args[1])); return [(ns, a0, "ret")]
                if n in ("weak_ptr", "__weak_ptr", "shared_ptr", "__shared_ptr") and len(args) >= 2 and args[1] and args[1][0] == "p":
                    self.setnames(ns, a0, self.names(st, args[1])); return [(ns, None, "ret")]
                if n == "reset" and len(args) == 1: self.setnames(ns, a0, None); return [(ns, None, "ret")]
                if n in ("weak_ptr", "shared_ptr") and len(args) == 1: self.setnames(ns, a0, None); return [(ns, None, "ret")]
            if f in ("array", "vector") and n in ("operator[]", "at") and a0 and a0[0] == "p" and a0[1][0] == "al":
                return [(ns, ("p", a0[1], a0[2] + ("[]",)) if len(a0[2]) < 6 else None, "ret")]
            if n == "clear" and a0 and a0[0] == "p" and a0[1] == ("arg", 0) and self.phase == "calc":
                ns.mem[(PROV, ("self",))] = TRUE
                return None if False else [(ns, None, "ret")]
        outs = super().call(ip, st, fn, inst, qs, args)
        if outs and n.startswith(("Create", "create")) and not q.startswith("std::"):
            for a in args:
                if not a or a[0] != "p" or a == deps.THIS: continue
                x = self.name(st, ip, a)
                if x is not None:
                    for s, rv, k in outs: self.setnames(s, a0, frozenset([deps.collapse(x)]))
                    break
        return outs

def check_provided(r):
    p = load()
    for cls, calcs in sorted(deps.model_classes(p).items()):
        if cls.endswith("ExprModel"): continue
        ctors = p.find(cls + "::" + last(cls))
        if not ctors or not p.find(cls + "::derived_init"): continue
        shapes = {tuple(c.aty): deps.strings_of(p, c) for c in ctors if deps.instance(c) == "double"}
        for ctor in ctors:
            ins = deps.instance(ctor)
            strs = shapes.get(tuple(ctor.aty))
            if strs is None: continue
            init = next((f for f in p.find(cls + "::derived_init") if deps.instance(f) == ins), None)
            mine = [f for f in calcs if deps.instance(f) == ins]
            if init is None or not mine: continue
            for dim in ((2,) if any('Triangle' in last(f.q) for f in mine) else (3,) if any('Tetrahedron' in last(f.q) for f in mine) else (1, 2, 3)):
                c = Provides(p, cls, dim, r)
                c.sets = c.unk = 0
                c.interesting = c.interesting | {k + "::SetValues" for k in deps.BASES} | {"dsAssert_"}
                ip = Interp(p, c)
                st = entry(ctor, [(n, f"s{n}") for n in strs])
                for n, t in enumerate(ctor.aty):
                    if t != "ptr": st.env[(0, f"a{n}")] = ("sym", "arg", n, 0)
                st.prop = (frozenset(), frozenset())
                for s1, rv, kind, tr in ip.run(ctor, st):
                    if kind != "ret": continue
                    for s2, rv, kind, tr in ip.run(init, State(entry(init).env, s1.mem, s1.prop)):
                        if kind != "ret": continue
                        for f in mine:
                            c.phase, c.used, c.sets = "calc", [], 0
                            need = {"self"} | {x for x in s2.prop[1] if x}
                            outs = Interp(p, c).run(f, State(entry(f).env, dict(s2.mem), s2.prop))
                            c.phase = "make"
                            for s, rv, kind, tr in outs:
                                if kind != "ret": continue
                                r.count("calculation_ends")
                                if s.mem.get((PROV, ("?",))): r.count("calculation_ends_unresolved"); continue
                                got = {k[1][0] for k in s.mem if k[0] == PROV}
                                if "self" not in got and any(k[0] == ("arg", 0) and k[1] and k[1][-1] == STR and v == ("s", "") for k, v in s.mem.items()) and not c.sets: continue     # values of its own
                                if any("[]" in x and x in s2.prop[1] for x in got): got.add("self")     # one of a set of parts; see check_parts
                                for x in sorted(need - got):
                                    if DEBUG: print(cls, dim, ins, need, got)
                                    r.add(f"provided:{cls}:{x}:{dim}", f"{cls} ({dim}d): {f.q} can end without an error and without having given values to {'the model' if x == 'self' else 'the model ' + x + ' it keeps'}", f.where())
                    r.count("constructed")
        r.count("calculating_classes")

# -- the loops over the parts of a model (components, derivatives, ends) cover every part -------------
def check_parts(r):
    p = load()
    L = Lengths(p, Spec(p))
    classes = {c for c in deps.model_classes(p)}
    uses = {}            # (class, instance, member place, size) -> {function: what is reached}
    for f in p.fns.values():
        c = f.q.rsplit("::", 1)[0]
        if c not in classes or f.q.startswith("std::"): continue
        arrays, whole, nest = {}, set(), {}
        users = f.users()
        def place(o, n=0):
            i = f.inst(o) if isinstance(o, int) else None
            if i is None: return ("v", str(o))
            if i[0] == "call" and i[4] and only(p.callee_qs(i)) == "std::array::operator[]" and n < 8: return place(i[4][0], n + 1) + ("[]",)
            if i[0] == "gep" and n < 8: return place(i[3], n + 1) + tuple(map(str, i[5]))
            if i[0] == "alloca": return ("l", o)
            return ("v", str(o))
        def consumers(v, n=0):
            out = set()
            for b, k, u in users.get(v, ()):
                if u[0] == "call":
                    q = only(p.callee_qs(u)) or "?"
                    if q == "std::array::operator[]" and u[4][0] == v and n < 8: out |= consumers(u[1], n + 1)
                    else: out.add(last(q))
                elif u[0] == "gep" and n < 8: out |= consumers(u[1], n + 1)
                elif u[0] in ("load", "store"): out.add(u[0])
            return out
        for b, k, i in f.calls():
            q = only(p.callee_qs(i)) or ""
            if not i[4]: continue
            if q == "std::array::operator[]":
                m = re.match(r"(?:const )?std::array<(.*), (\d+)ul>::operator\[\]", p.dem.get(p.callees(i)[0], ""))
                if not m: continue
                if not re.search(r"string|_ptr|std::vector", m[1]): continue
                a = L.affine(f, i[4][1])
                got, loop = None, False
                if a is not None:
                    got = {a[1]}
                    nest.setdefault(id(i), (b, i, set()))[2].update(a[0])
                    for phi, co in a[0].items():
                        ct = L.counter(f, {}, phi)
                        bd = next(iter(ct[2])) if ct and len(ct[2]) == 1 else None
                        if bd is None or bd[0] != "n" or bd[2] is not None or ct[1] <= 0 or ct[3] not in ("ult", "slt", "ule", "sle", "ne"): got = None; break
                        loop = True
                        hi = bd[3] + (1 if ct[3] in ("ule", "sle") else 0)
                        if hi - ct[0] > 64: got = None; break
                        got = {g + co * v for g in got for v in range(ct[0], hi, ct[1])}
                for u in consumers(i[1]): arrays.setdefault((place(i[4][0]), int(m[2]), u), []).append((got, loop, i))
            elif q.startswith("std::array::") and last(q).lstrip("~") == "array": pass
            else:
                for a in i[4]: whole.add(place(a))
        for b, i, phis in nest.values():
            at = {h: bs for h, bs in L.loopbody(f).items() if b in bs}
            order = sorted(at, key=lambda h: len(at[h]))
            heads = {x for x, bl in enumerate(f.blocks) for j in bl if j[0] == "phi" and j[1] in phis}
            if not any(u in ("SetValues", "operator[]") for u in consumers(i[1])): continue
            for n, h in enumerate(order):
                if h not in heads: continue
                r.count("part_steps")
                seen, w = set(), [h] if (order[n - 1] if n else b) != h else []
                while w:
                    x = w.pop()
                    for s in L.succs(f, x):
                        if s == h: r.add(f"{f.q}|part|skipped", f"a part of the model can be left out, depending on a condition ({f.q})", f"{rel(f.file)}:{i[2]}"); w = []; break
                        if s not in seen and s in at[h] and s != (order[n - 1] if n else b): seen.add(s); w.append(s)
        for (pl, n, u), ws in arrays.items():
            if pl in whole or any(g is None for g, l, i in ws) or not any(l for g, l, i in ws) and not (pl[0] == "l" and u == "operator[]"): continue
            cover = frozenset().union(*(g for g, l, i in ws))
            key = (c, deps.instance(f), pl, n) if pl[0] == "v" else (f.n, pl, n)
            uses.setdefault(key, []).append((f, u, cover, ws[0][2], pl[0] == "v"))
    for key, us in uses.items():
        n = key[-1]
        full = set(range(n))
        if us[0][4]: full &= set().union(*(x[2] for x in us))      # a member: what some function reaches
        for f, u, cover, i, m in us:
            r.count("part_loops")
            if not cover >= full:
                r.add(f"{f.q}|parts|{u}|{len(full)}|{sorted(cover)}", f"of the {len(full)} parts of the model only {sorted(cover)} are handled ({u} in {f.q})", f"{rel(f.file)}:{i[2]}")

def check_left_out(r):
    """values of parts of an element (a node or an edge of it, a component) that a loop leaves out,
    depending only on the number of the part"""
    p = load()
    L = Lengths(p, Spec(p))
    for f in p.fns.values():
        c = f.q.rsplit("::", 1)[0]
        if f.q.startswith("std::") or not any(k in f.d for k in ("Model", "ScalarData", "ElementField", "GeomModels", "Edge", "Node", "Triangle", "Tetrahedron")): continue
        lists = {}
        for b, k, i in f.calls():
            if p.callee_qs(i) != {"std::vector::operator[]"}: continue
            if not any((u[0] == "store" and u[4] == i[1]) or (u[0] == "call" and u[4] and u[4][0] == i[1] and any(last(x) == "operator=" for x in p.callee_qs(u))) for bb, kk, u in f.users().get(i[1], ())): continue
            idx, o, n = [i[4][1]], i[4][0], 0
            while isinstance(o, int) and n < 6:
                x = f.inst(o)
                if x and x[0] == "call" and x[4] and only(p.callee_qs(x)) in ("std::array::operator[]", "std::vector::operator[]"): idx.append(x[4][1]); o = x[4][0]; n += 1
                else: break
            L.opaque = True
            idx = [L.affine(f, x) for x in idx]
            L.opaque = False
            if any(x is None for x in idx): continue
            if not isinstance(o, int) or f.inst(o)[0] not in ("alloca", "gep"): continue
            lists.setdefault((o if f.inst(o)[0] == "alloca" else str(f.inst(o)[3:6]), len(idx)), []).append((b, i, idx))
        if not lists: continue
        const_of = {}
        def ranged(phi):
            if phi not in const_of:
                const_of[phi] = None
                if f.inst(phi)[0] == "phi":
                    ct = L.counter(f, {}, phi)
                    if ct and len(ct[2]) == 1:
                        bd = next(iter(ct[2]))
                        if bd[0] == "n" and bd[2] is None and ct[3] in ("ult", "slt", "ule", "sle", "ne") and ct[1] > 0:
                            hi = bd[3] + (1 if ct[3] in ("ule", "sle") else 0)
                            if 0 <= hi - ct[0] <= 16: const_of[phi] = range(ct[0], hi, ct[1])
            return const_of[phi]
        body = L.loopbody(f)
        phis = {h: [j[1] for j in f.blocks[h] if j[0] == "phi"] for h in body}
        OPS = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "ult": lambda a, b: a < b, "slt": lambda a, b: a < b, "ule": lambda a, b: a <= b, "sle": lambda a, b: a <= b,
               "ugt": lambda a, b: a > b, "sgt": lambda a, b: a > b, "uge": lambda a, b: a >= b, "sge": lambda a, b: a >= b}
        def value(a, at):
            return None if a is None or any(x not in at for x in a[0]) else a[1] + sum(k * at[x] for x, k in a[0].items())
        def succs(x, at, head):
            t = f.blocks[x][-1]
            if x != head and t[0] == "br" and t[3] is not None:
                cmp = f.inst(t[3])
                if cmp and cmp[0] == "icmp" and cmp[3] in OPS:
                    a, b = value(L.affine(f, cmp[4]), at), value(L.affine(f, cmp[5]), at)
                    if a is not None and b is not None: return [L.succs(f, x)[0 if OPS[cmp[3]](a, b) else 1]]
            if x != head and t[0] == "switch":
                a = value(L.affine(f, t[3]), at)
                if a is not None: return [dict((c, s) for c, s in t[5]).get(a, t[4])]
            return L.succs(f, x)
        for key, ws in lists.items():
            full, done, which = set(), set(), None
            for b, i, idx in ws:
                loops = sorted((h for h, bs in body.items() if b in bs), key=lambda h: len(body[h]))
                cs = [x for h in loops for x in phis[h] if ranged(x) is not None]
                if not any(x in a[0] for a in idx for x in cs): continue
                import itertools
                space = [ranged(x) for x in cs]
                tot = 1
                for s in space: tot *= len(s)
                if tot > 2000 or not tot: continue
                rest = tuple(tuple(sorted((x, k) for x, k in a[0].items() if x not in cs and f.inst(x)[0] == "phi")) for a in idx)
                for vals in itertools.product(*space):
                    at = dict(zip(cs, vals))
                    slot = tuple(a[1] + sum(k * at[x] for x, k in a[0].items() if x in at) for a in idx) + rest
                    full.add(slot)
                    ok = True
                    for n, h in enumerate(loops):
                        if not any(ranged(x) is not None for x in phis[h]) and n: continue
                        target = loops[n - 1] if n else b
                        if target == h: continue
                        seen, w, hit = {h}, [h], False
                        while w and not hit:
                            for s in succs(w.pop(), at, h):
                                if s == target: hit = True; break
                                if s not in seen and s in body[h]: seen.add(s); w.append(s)
                        if not hit: ok = False; break
                    if ok: done.add(slot)
                which = i
            if not full: continue
            r.count("part_values", len(full))
            if full - done:
                some = sorted(full - done)[0]
                r.add(f"{f.q}|left|{len(full)}|{len(done)}", f"{len(full - done)} of the {len(full)} values calculated for each element are left out, depending on the number of the part ({f.q})", f"{rel(f.file)}:{which[2]}")

# -- lists whose length is only known once it was checked, and values of expressions -------------------
N = "$n"
class Checked(Client):
    """mem: (place of a list, N) -> how many values it has, once that was compared with the number of
    elements; (place of a function object, "$kind") -> the kind of model it gives values to;
    the tag of the value of an expression is followed through its own field."""
    max_states = 400000
    def __init__(self, p, r, spec, tags):
        self.p, self.r, self.spec, self.tags = p, r, spec, tags
        self.kinds = {k for c in KINDS for k in (c,)}
        self.interesting = {k + "::SetValues" for k in KINDS} | {"std::function::operator()", "std::function::operator{}"}
        self.bad, self.sites = {}, {}
        self.lens = {}
        for g, l in (("Region::GetNumberNodes", "Region::GetNodeList"), ("Region::GetNumberEdges", "Region::GetEdgeList"), ("Region::GetNumberTriangles", "Region::GetTriangleList"), ("Region::GetNumberTetrahedrons", "Region::GetTetrahedronList"), (0, "Interface::GetNodes0"), (0, "Interface::GetNodes1")):
            self.lens[l] = field_path(p, l)[-1]
        self.lam = {}
    def lambda_kind(self, d):
        """the kind of model the function object of this type gives its values to"""
        m = re.search(r"([\w:]+\([^()]*\)(?: const)?::\$_\d+)", d)
        if not m: return None
        t = m[1]
        if t not in self.lam:
            ks = set()
            for s, dd in self.p.dem.items():
                if dd.startswith(t + "::operator()") and s in self.p.fns:
                    for b, k, i in self.p.fns[s].calls():
                        for q in self.p.callee_qs(i):
                            c = q.rsplit("::", 1)[0]
                            if c in KINDS and last(q) == "SetValues": ks.add(c)
            self.lam[t] = next(iter(ks)) if len(ks) == 1 else None
        return self.lam[t]
    def length(self, st, a):
        if not a or a[0] != "p": return None
        v = st.mem.get((a[1], a[2] + (N,)))
        if v and v[0] == "tagn":
            k = self.tags.kind(st.mem.get(v[1]))
            return ("len",) + self.spec.value(k)[1:3] if k else None
        return v
    def given(self, st, fn, inst, kind, a, vec, what="values of"):
        key = (fn.q, inst[2], kind)
        self.sites.setdefault(key, set())
        tag = st.mem.get((("tagplace",), ()))
        if tag:
            cur = st.mem.get(tag[1])
            k = self.tags.kind(cur)
            if k is None and not self.tags.is_double(cur) or k not in (None, kind):
                self.bad.setdefault(key + ("tag",), (fn, inst, f"the {kind} is given the value of an expression that is not known to be of its kind"))
        if not vec: return
        v = self.length(st, a)
        if v is None or v[0] != "len" or not self.spec.right(kind, ("n", v[1], v[2], 0)):
            t = text(self.spec, ("n", v[1], v[2], 0)) if v and v[0] == "len" else "a number that was not checked"
            self.bad.setdefault(key + ("n",), (fn, inst, f"the {kind} is given {t} of values, not {text(self.spec, self.spec.value(kind))}"))
        else: self.r.count("checked_lengths")
    def inline_args(self, ip, st, fn, inst, g, args):
        c = g.q.rsplit("::", 1)[0]
        if c == "Region": return False
        if g.q.startswith("std::"): return False
        if g.q in ("dsCommand::ValidateDeviceAndRegion",): return False
        return None
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        n, ns = last(q), st.copy()
        c = q.rsplit("::", 1)[0] if "::" in q else ""
        a0 = args[0] if args else None
        sym = self.p.callees(inst)[0]
        dem = self.p.dem.get(sym, sym)
        if q == "dsAssert_": return [(ns, None, "noreturn")]
        ps, cst = ip.sig(sym)
        off = len(args) - len(ps or [])
        if any(t.endswith("OutputType") and args[off + k] == deps.FATAL for k, t in enumerate(ps or []) if 0 <= off + k < len(args)): return [(ns, None, "noreturn")]
        if c in KINDS and n == "SetValues" and fn.q != q:
            self.given(st, fn, inst, c, args[1] if len(args) > 1 else None, "vector<" in dem)
            ns.prop = True
            return [(ns, None, "ret")]
        if c in KINDS: return [(ns, None, "ret")]
        if c.endswith("ModelExprData") and n == "GetScalarValues" and len(args) == 2 and args[0] and args[0][0] == "p":
            ip.havoc_obj(ns, args[0])
            if args[1] and args[1][0] == "p":
                place = (args[1][1], args[1][2] + (self.tags.field,))
                ns.mem[(args[0][1], args[0][2] + ("$of",))] = ("of", place)
            return [(ns, None, "ret")]
        if c.endswith("ModelExprEval") and n == "eval_function":
            if args[0] and args[0][0] == "p":
                place = (args[0][1], args[0][2] + (self.tags.field,))
                ns.mem[(("tagplace",), ())] = ("tp", place)
                ip.havoc_obj(ns, args[0])
            return [(ns, None, "ret")]
        if c.endswith("ModelExprEval"): return [(ns, None, "ret")]
        if c.endswith("ModelExprData") and n == "GetType" and a0 and a0[0] == "p" and "[]" not in a0[2]:
            key = (a0[1], a0[2] + (self.tags.field,))
            v = ns.mem.get(key)
            if v is None: v = ns.mem[key] = ("sym", "tag", a0[1], a0[2])
            return [(ns, v, "ret")]
        if c.endswith("ScalarValuesType") and a0 and a0[0] == "p":
            if n == "GetVector":
                of = st.mem.get((a0[1], a0[2] + ("$of",)))
                if of:
                    vp = ("p", ("vec",) + of[1], ())
                    ns.mem[(vp[1], (N,))] = ("tagn", of[1])
                    return [(ns, vp, "ret")]
            if n == "ScalarValuesType" and len(args) == 2 and args[1] and args[1][0] == "p":
                of = st.mem.get((args[1][1], args[1][2] + ("$of",)))
                if of: ns.mem[(a0[1], a0[2] + ("$of",))] = of
            return [(ns, None, "ret")]
        if n in ("GetNumberNodes", "GetNumberEdges", "GetNumberTriangles", "GetNumberTetrahedrons") and c == "Region":
            l = {"GetNumberNodes": "Region::GetNodeList", "GetNumberEdges": "Region::GetEdgeList", "GetNumberTriangles": "Region::GetTriangleList", "GetNumberTetrahedrons": "Region::GetTetrahedronList"}[n]
            return [(ns, ("len", 1, self.lens[l]), "ret")]
        if q in self.lens:
            vp = ("p", ("list", self.lens[q]), ())
            ns.mem[(vp[1], (N,))] = ("len", 1, self.lens[q])
            return [(ns, vp, "ret")]
        if q.startswith("std::function::"):
            if not a0 or a0[0] != "p": return [(ns, None, "ret")]
            key = (a0[1], a0[2] + ("$kind",))
            if n in ("operator()", "operator{}"):
                k = st.mem.get(key)
                if k: self.given(st, fn, inst, k[1], args[1] if len(args) > 1 else None, True); ns.prop = True
                else: self.r.count("function_objects_unknown")
                return [(ns, None, "ret")]
            if n in ("operator=", "function"):
                k = self.lambda_kind(dem)
                if k: ns.mem[key] = ("kind", k)
                elif len(args) > 1 and args[1] and args[1][0] == "p" and (args[1][1], args[1][2] + ("$kind",)) in st.mem: ns.mem[key] = st.mem[(args[1][1], args[1][2] + ("$kind",))]
                elif n == "operator=" or len(args) > 1: ns.mem.pop(key, None)
                return [(ns, a0, "ret")]
            return [(ns, None, "ret")]
        if q.startswith("std::vector::") and a0 and a0[0] == "p":
            key = (a0[1], a0[2] + (N,))
            if n == "size":
                return [(ns, self.length(st, a0) or ("szof", a0[1], a0[2]), "ret")]
            if n in ("vector", "operator=", "resize", "assign"):
                ns.mem.pop(key, None)
                a1 = args[1] if len(args) > 1 else None
                vp = bool(ps) and ps[0].startswith("std::vector<")
                if a1 and a1[0] == "p" and vp:
                    v = st.mem.get((a1[1], a1[2] + (N,))) or ("szof", a1[1], a1[2])
                    ns.mem[key] = v
                elif a1 and ps and ps[0].startswith("unsigned long") and a1[0] in ("len", "szof"): ns.mem[key] = a1
                return [(ns, a0 if n == "operator=" else None, "ret")]
            if n in ("operator[]", "at", "begin", "end", "empty", "reserve", "data", "front", "back", "cbegin", "cend"): return [(ns, None, "ret")]
            self.touched(ns, a0)
            return [(ns, None, "ret")]
        # what is changed by code that is not followed
        if not ip.p.resolve(sym) or not ip.reach & {ip.p.resolve(sym).n}:
            for k, a in enumerate(args):
                if a and a[0] == "p" and ps is not None and 0 <= k - off < len(ps):
                    t = ps[k - off]
                    if t.endswith("&") and " const&" not in t and "vector<" in t: self.touched(ns, a)
            if ns.mem != st.mem: return [(ns, None, "ret")]
        return None
    def touched(self, ns, a):
        """the list may have changed: what was found out about it does not hold any more"""
        for k in [k for k, v in ns.mem.items() if (k[0] == a[1] and k[1][:len(a[2])] == a[2] and k[1] and k[1][-1] in (N, "$cmp")) or v == ("szof", a[1], a[2])]: del ns.mem[k]
        old = ("szof", a[1], a[2])
        for k in [k for k, v in ns.env.items() if v == old or (isinstance(v, tuple) and v[0] == "leneq" and v[1:3] == a[1:3])]: del ns.env[k]
    def op(self, ip, st, fn, inst, a, b):
        o = inst[3]
        if inst[0] == "bin":
            if a and b and o in ("mul", "shl") and {a[0], b[0]} == {"len", "c"}:
                l, k = (a, b[1]) if a[0] == "len" else (b, a[1])
                if o == "shl": k = 1 << k if a[0] == "len" and 0 <= k < 16 else 0
                return ("len", l[1] * k, l[2])
            if a and b and o == "add" and a[0] == b[0] == "len" and a[2] == b[2]: return ("len", a[1] + b[1], a[2])
            return None
        if not a or not b: return None
        if {a[0], b[0]} == {"len", "szof"}:
            l, z = (a, b) if a[0] == "len" else (b, a)
            m = re.match(r"[su](lt|le|gt|ge)$", o)
            if m:      # (two of these that do not hold: as many)
                w = m[1] if a is z else {"l": "g", "g": "l"}[m[1][0]] + m[1][1]
                v = ("lencmp", z[1], z[2], l, w[0])
                return v if w[1] == "t" else ("not", ("lencmp", z[1], z[2], l, {"l": "g", "g": "l"}[w[0]]))
            if o not in ("eq", "ne"): return None
            v = ("leneq", z[1], z[2], l)
            return v if o == "eq" else ("not", v)
        return None
    def assume(self, ip, st, v, truth):
        if v[0] == "leneq" and truth:
            old = ("szof", v[1], v[2])
            st.mem[(v[1], v[2] + (N,))] = v[3]
            for k in [k for k, x in st.mem.items() if x == old]: st.mem[k] = v[3]
            for k in [k for k, x in st.env.items() if x == old]: st.env[k] = v[3]
        if v[0] == "lencmp" and not truth:
            had = st.mem.get((v[1], v[2] + ("$cmp",)))
            if had and had[1] == v[3] and had[2] != v[4]: return self.assume(ip, st, ("leneq",) + v[1:4], True)
            st.mem[(v[1], v[2] + ("$cmp",))] = ("cmp", v[3], v[4])
        return True

class Tags:
    """which tag the constructors of the value of an expression give to which kind"""
    def __init__(self, p, cls):
        self.p, self.cls = p, cls
        g = p.find(cls + "::GetType")[0]
        self.field = field_path(p, cls + "::GetType")[-1]
        self.of, self.double, self.invalid, self.clash = {}, set(), set(), []
        for f in p.find(cls + "::" + last(cls)):
            ps, _ = split_params(f.d)
            tag = None
            for bl in f.blocks:
                for i in bl:
                    if i[0] == "store" and isinstance(i[3], dict) and isinstance(i[3].get("c"), int):
                        x = f.inst(i[4]) if isinstance(i[4], int) else None
                        if x and x[0] == "gep" and x[3] == {"a": 0} and x[5] and x[5][-1] == self.field: tag = i[3]["c"]
            if tag is None: continue
            k = kind_of(ps[0].replace("InterfaceNodeScalarData", "InterfaceNodeModel")) if ps else None
            if k:
                if self.of.get(tag, k) != k or any(t != tag and kk == k for t, kk in self.of.items()): self.clash.append((f, k, tag))
                self.of[tag] = k
            elif ps and ("double" == ps[0] or "float128" in ps[0] or "boost" in ps[0]): self.double.add(tag)
            else: self.invalid.add(tag)
    def kind(self, v): return self.of.get(v[1]) if v and v[0] == "c" else None
    def is_double(self, v): return bool(v) and v[0] == "c" and v[1] in self.double

def check_checked(r):
    p = load()
    spec = Spec(p)
    mee, imee = Tags(p, "MEE::ModelExprData"), Tags(p, "IMEE::InterfaceModelExprData")
    todo = []
    for f in p.fns.values():
        if re.match(r"\w*ExprModel::calc\w+Values$", f.q): todo.append((f, imee if "Interface" in f.q else mee, True))
    for q in ("dsCommand::setNodeValuesCmd", "dsMesh::DevsimLoader::Instantiate_"):
        for f in p.find(q): todo.append((f, mee, False))
    for f, tags, must in todo:
        c = Checked(p, r, spec, tags)
        st = entry(f)
        st.prop = False
        outs = Interp(p, c).run(f, st)
        for s, rv, kind, tr in outs:
            if kind != "ret": continue
            r.count("checked_ends")
            if must and not s.prop: r.add(f"{f.q}|novalues", f"{f.q} can end without an error and without having given values to the model", f.where())
        r.cov["checked_sites"] = r.cov.get("checked_sites", 0) + len(c.sites)
        for (q, line, k, w), (g, i, msg) in sorted(c.bad.items()):
            r.add(f"{q}|{w}|{k}|{msg[:60]}", f"{msg} ({q})", f"{rel(g.file)}:{line}")
        if DEBUG: print(f.q, len(outs), len(c.sites), len(c.bad))

# -- the value of an expression is what its tag says ---------------------------------------------------
class Tagged(Client):
    """The members of the value of an expression (one list for each kind, a single value) are only used
    when the tag names them, or once they were given a new list; a tag that is changed names a new list."""
    max_depth = 6
    def __init__(self, p, r, tags):
        self.p, self.r, self.tags, self.bad = p, r, tags, {}
        self.interesting = set()
    def tag(self, st, base, path): return st.mem.get((base, path + (self.tags.field,)))
    def obj(self, ptr, kind=None):
        """the value whose member this is"""
        return ptr and ptr[0] == "p" and ptr[1][0] in ("arg", "al") and ptr[2] and isinstance(ptr[2][-1], str)
    def inline_args(self, ip, st, fn, inst, g, args):
        if g.q.rsplit("::", 1)[0] == self.tags.cls: return True
        return None if g.q.startswith("MEE::{anon}") or g.q.startswith("IMEE::{anon}") else False
    def load(self, ip, st, fn, inst, ptr):
        if self.obj(ptr) and ptr[2][-1] == self.tags.field:
            key = (ptr[1], ptr[2])
            v = st.mem.get(key)
            if v is None: v = st.mem[key] = ("sym", "tag", ptr[1], ptr[2])
            return v
        if self.obj(ptr) and ptr[2][-1] in self.tags.single: self.use(st, fn, inst, ptr, None)
        return None
    def store(self, ip, st, fn, inst, v, ptr):
        if self.obj(ptr) and ptr[2][-1] == self.tags.field: st.mem[(("chg",), (ptr[1],) + ptr[2][:-1])] = TRUE
        return None
    def use(self, st, fn, inst, ptr, kind):
        base, path = ptr[1], ptr[2][:-1]
        if last(fn.q) in ("operator=", last(self.tags.cls)): return
        t = self.tag(st, base, path)
        self.r.count("tagged_uses")
        if kind and st.mem.get((base, ptr[2] + ("$fresh",))): return
        ok = self.tags.kind(t) == kind if kind else self.tags.is_double(t)
        if not ok:
            self.bad.setdefault((fn.q, inst[2], kind), (fn, inst, f"the {'values on a ' + kind if kind else 'single value'} of an expression {'are' if kind else 'is'} used when the tag does not say there {'are' if kind else 'is'} any"))
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        n, ns = last(q), st.copy()
        a0 = args[0] if args else None
        dem = self.p.dem.get(self.p.callees(inst)[0], "")
        if q == "dsAssert_": return [(ns, None, "noreturn")]
        for a in args:
            if self.obj(a) and a[2][-1] in self.tags.single: self.use(ns, fn, inst, a, None)
        if q.startswith(("std::shared_ptr::", "std::__shared_ptr", "std::__shared_ptr_access")) and self.obj(a0):
            k = kind_of(dem.split("::operator")[0].replace("InterfaceNodeScalarData", "InterfaceNodeModel"))
            if k:
                if n in ("operator->", "operator*", "get", "_M_get"): self.use(ns, fn, inst, a0, k)
                if n in ("operator=", "reset") and len(args) >= 2:
                    ns.mem[(a0[1], a0[2] + ("$fresh",))] = TRUE
                    ns.mem[(("fresh",), (a0[1], k) + a0[2][:-1])] = TRUE
                elif n == "reset": ns.mem.pop((a0[1], a0[2] + ("$fresh",)), None)
                return [(ns, None, "ret")]
        if q.startswith("std::"): return [(ns, None, "ret")]
        return None

def flags_of(p, tags):
    """which flag of the survey of the arguments says that there are arguments with which tag"""
    class C(Client):
        interesting = set()
        flags = {}
        def call(self, ip, st, fn, inst, qs, args):
            q = only(qs) or ""
            ns = st.copy()
            if q == "dsAssert_": return [(ns, None, "noreturn")]
            if last(q) == "GetType":
                v = ("sym", "tag", fn.n, inst[2])
                ip.subst(ns, v, None)
                ns.mem[(("last",), ())] = v
                return [(ns, v, "ret")]
            return [(ns, None, "ret")] if q.startswith("std::") else None
        def store(self, ip, st, fn, inst, v, ptr):
            if v == TRUE and ptr and ptr[0] == "p" and ptr[1] == ("arg", 0) and len(ptr[2]) == 1:
                t = st.mem.get((("last",), ()))
                self.flags.setdefault(ptr[2][0], set()).add(t[1] if t and t[0] == "c" else None)
    out = {}
    for f in p.fns.values():
        if last(f.q) == "doit" and f.q.startswith(tags.cls.split("::")[0]):
            c = C(); c.flags = {}
            Interp(p, c).run(f, entry(f))
            for k, v in c.flags.items():
                if len(v) == 1 and None not in v: out[k] = next(iter(v))
    return out

class Survey(Client):
    """the values of a function of expressions are of the kind its arguments were found to be of"""
    max_states = 400000
    def __init__(self, p, r, tags, flags): self.p, self.r, self.tags, self.flags, self.bad, self.interesting = p, r, tags, flags, {}, set()
    def load(self, ip, st, fn, inst, ptr):
        if ptr and ptr[0] == "p" and ptr[2] and ptr[2][-1] in self.flags:
            v = st.mem.get((("flag",), (ptr[2][-1],)))
            if v is None: v = st.mem[(("flag",), (ptr[2][-1],))] = ("sym", "flag", ptr[2][-1], 0)
            return v
        return None
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        n, ns = last(q), st.copy()
        if q == "dsAssert_": return [(ns, None, "noreturn")]
        if n.startswith("convertTo"): ns.mem[(("stale",), ())] = TRUE
        if n == "doit" and args and args[0] and args[0][0] == "p":
            ip.havoc_obj(ns, args[0])
            ns.mem.pop((("stale",), ()), None)
            for k in self.flags:
                ip.subst(ns, ("sym", "flag", k, 0), None)
                ns.mem.pop((("flag",), (k,)), None)
            return [(ns, None, "ret")]
        if q == "ScalarData::ScalarData":
            dem = self.p.dem.get(self.p.callees(inst)[0], "")
            ps, _ = ip.sig(self.p.callees(inst)[0])
            k = kind_of(dem.split("::ScalarData(")[0])
            if k and ps and "ScalarData" not in ps[0] and "Model const" not in ps[0]:
                self.r.count("surveyed_values")
                want = {t for t, kk in self.tags.of.items() if kk == k}
                if st.mem.get((("stale",), ())):
                    self.bad.setdefault((fn.q, inst[2], k + " old"), (fn, inst, f"values on a {k} are made from arguments that became of another kind after it was found out of which kinds they are"))
                if not any(v == TRUE and key[1] and self.flags.get(key[1][-1]) in want for key, v in st.mem.items()):
                    self.bad.setdefault((fn.q, inst[2], k), (fn, inst, f"values on a {k} are made although no argument was found to have such values"))
            return [(ns, None, "ret")]
        if q.startswith(("std::", "MathEval", "MEE::ModelExprData")): return [(ns, None, "ret")]
        return None

def check_tags(r):
    p = load()
    for cls in ("MEE::ModelExprData", "IMEE::InterfaceModelExprData"):
        tags = Tags(p, cls)
        tags.single = {field_path(p, cls + "::GetDoubleValue")[-1]}
        r.count("tags", len(tags.of))
        for f, k, tag in tags.clash: r.add(f"{cls}|tag|{k}", f"the values of an expression on a {k} carry the tag of another kind ({f.q})", f.where())
        for tag in tags.of:
            if tag in tags.double | tags.invalid: r.add(f"{cls}|tag|{tag}", f"the tag of values on a {tags.of[tag]} is also that of no or single values", f"{cls}")
        fields, copies = set(), []
        for f in p.fns.values():
            if f.q.rsplit("::", 1)[0] != cls: continue
            n = last(f.q)
            mine, other = set(), set()
            for bl in f.blocks:
                for i in bl:
                    if i[0] == "gep" and i[4] == cls and len(i[5]) == 1:
                        if i[3] == {"a": 0}: mine.add(i[5][0])
                        elif i[3] == {"a": 1}: other.add(i[5][0])
            fields |= mine
            ps, _ = split_params(f.d)
            if ps and len(ps) == 1 and re.match(re.escape(cls) + r"<.*> const&$", ps[0]) and n in ("operator=", last(cls)): copies.append((f, mine, other))
            if n == last(cls) or n == "operator=" or n.startswith("~") or n in ("GetType", "GetDoubleValue"): continue
            if n.endswith("op_equal") and n != "op_equal": continue      # reached from op_equal
            c = Tagged(p, r, tags)
            for s, rv, kind, tr in Interp(p, c).run(f, entry(f)):
                if kind != "ret": continue
                r.count("tagged_ends")
                for key in list(s.mem):
                    if key[0] != ("chg",): continue
                    base, path = key[1][0], key[1][1:]
                    if base[0] != "arg": continue
                    k = tags.kind(s.mem.get((base, path + (tags.field,))))
                    if k and not s.mem.get((("fresh",), (base, k) + path)):
                        r.add(f"{f.q}|nolist|{k}", f"{f.q} can leave an expression with the tag of values on a {k} and without such values", f.where())
            for (q, line, k), (g, i, msg) in sorted(c.bad.items(), key=str):
                r.add(f"{q}|use|{k}", f"{msg} ({q})", f"{rel(g.file)}:{line}")
        for f, mine, other in copies:
            if not other and not mine: continue
            miss = fields - mine | fields - other
            r.count("copies")
            if miss and mine and other: r.add(f"{f.q}|copy|{sorted(miss)}", f"the copy of the value of an expression leaves out {', '.join(sorted(miss))} ({f.q})", f.where())
        flags = flags_of(p, tags)
        r.cov["flags"] = r.cov.get("flags", 0) + len(flags)
        if len(tags.of) < 2 or not set(tags.of) <= set(flags.values()): continue      # (one kind: nothing to confuse)
        for f in p.fns.values():
            if f.q.startswith(cls.split("::")[0]) and last(f.q) == "EvaluateExternalMath":
                c = Survey(p, r, tags, flags)
                Interp(p, c).run(f, entry(f))
                for (q, line, k), (g, i, msg) in sorted(c.bad.items()):
                    r.add(f"{q}|survey|{k}", f"{msg} ({q})", f"{rel(g.file)}:{line}")

def check_amounts(r):
    r.explain = ("lengths of lists of values as multiples of the numbers of nodes, edges, triangles and tetrahedra, by forward dataflow with helpers in place, at every place where a model or the value of an expression is given a list; "
                 "the loops that fill such lists; every ending of every calculation of a built-in model, constructed with its own names; lists from commands, files and expressions by path-sensitive simulation; "
                 "the members and the tag of the value of an expression by path-sensitive simulation of its methods")
    r.assumptions += ["a list of the lists of a region is as long as the region has such elements", "a function object gives its values to the kind of model its code names"]
    check_lengths(r)
    check_provided(r)
    check_parts(r)
    check_left_out(r)
    check_checked(r)
    check_tags(r)
    r.need("lengths", 60); r.need("lengths_known", 50); r.need("filling_loops", 40)
    r.need("calculation_ends", 150); r.need("constructed", 80)
    r.need("checked_ends", 15); r.need("checked_lengths", 20); r.need("tagged_ends", 50); r.need("tags", 5)
DEBUG = False
