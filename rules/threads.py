"""C14: evaluating a list in several threads gives what one thread gives.

Everything starts at the calls that start a thread (std::async, std::thread).
  A  the arithmetic that hands out the parts, as an abstract interpretation over linear constraints
  B  the functions that work on one part: which entries they read and write
  C  what the code reached from a thread writes that other threads can reach
  D  what becomes of the record a part leaves (errors, floating point exceptions)
"""
import re
from math import gcd
from common import *
from lengths import Lengths
from errors import start

BIG = 1 << 48           # no list is as long as this

# ---------------------------------------------------------------------------------------------------
# linear expressions and constraints ( e >= 0 )
def lc(k): return ((), k)
def ls(s): return (((s, 1),), 0)
def ladd(a, b, m=1):
    d = dict(a[0])
    for s, k in b[0]:
        d[s] = d.get(s, 0) + m * k
    return (tuple(sorted(((s, k) for s, k in d.items() if k), key=str)), a[1] + m * b[1])
def lscale(a, m): return (tuple((s, k * m) for s, k in a[0]) if m else (), a[1] * m)
def ge(a, b, k=0): return ladd(ladd(a, b, -1), lc(-k))       # a >= b + k
def norm(e):
    g = 0
    for s, k in e[0]: g = gcd(g, abs(k))
    if g > 1: e = (tuple((s, k // g) for s, k in e[0]), e[1] // g)      # floor: tightened to integers
    return e
class FM:
    """satisfiability of constraints over the integers (an answer of False is certain)"""
    def __init__(self): self.memo = {}
    def sat(self, cons):
        cs = set()
        for e in cons:
            e = norm(e)
            if not e[0]:
                if e[1] < 0: return False
                continue
            cs.add(e)
        key = frozenset(cs)
        r = self.memo.get(key)
        if r is None: r = self.memo[key] = self.solve(cs)
        return r
    def solve(self, cs):
        cs = set(cs)
        for rounds in range(60):
            # the strongest of parallel constraints
            best = {}
            for v, k in cs:
                if not v:
                    if k < 0: return False
                    continue
                if v not in best or k < best[v]: best[v] = k
            for v, k in best.items():
                n = tuple((s, -x) for s, x in v)
                if n in best and best[n] + k < 0: return False
            if not best: return True
            occ = {}
            for v in best:
                for s, x in v:
                    o = occ.setdefault(s, [0, 0]); o[x > 0] += 1
            s = min(occ, key=lambda q: (occ[q][0] * occ[q][1], str(q)))
            if occ[s][0] * occ[s][1] > 400: return True
            lo, hi, rest = [], [], set()
            for v, k in best.items():
                c = dict(v).get(s, 0)
                if c > 0: lo.append(((v, k), c))
                elif c < 0: hi.append(((v, k), -c))
                else: rest.add((v, k))
            for a, ca in lo:
                for b, cb in hi:
                    e = norm(ladd(lscale(a, cb), lscale(b, ca)))
                    if not e[0] and e[1] < 0: return False
                    rest.add(e)
            cs = rest
        return True
    def entails(self, cons, e):
        """e >= 0 follows"""
        return not self.sat(list(cons) + [ladd(lc(-1), e, -1)])

NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}

class Undecided(Exception): pass

class Partition:
    """the loop that hands out the parts of a list"""
    def __init__(self, p, L, fn, block, inst, ob, oe, seqcalls):
        self.p, self.L, self.fn, self.block, self.inst, self.ob, self.oe, self.seq = p, L, fn, block, inst, ob, oe, seqcalls
        self.fm = FM()
        bodies = [(len(bs), h, bs) for h, bs in L.loopbody(fn).items() if block in bs]
        if not bodies: raise Undecided("a thread is not started in a loop")
        n, self.head, self.body = min(bodies)
        self.phis = [i for i in fn.blocks[self.head] if i[0] == "phi"]
        self.cells = set()
        for bl in fn.blocks:
            for i in bl:
                if i[0] == "alloca" and i[3] == "i64" and all(self.cell_use(i[1], u) for _, _, u in fn.users().get(i[1], ())): self.cells.add(i[1])
        self.divisors = set()
        self.base = set()
        self.steps = 0
    def cell_use(self, a, u):
        if u[0] == "load": return u[3] == a
        if u[0] == "store": return u[4] == a and u[3] != a
        if u[0] == "call": return bool(self.p.callee_qs(u) & {"std::min", "std::max"}) or any(s.startswith("llvm.lifetime") for s in self.p.callees(u))
        return False
    def sym(self, s):
        self.base.add(s)
        return ls(s)
    def val(self, st, o):
        env = st["env"]
        if isinstance(o, dict):
            if "c" in o and isinstance(o["c"], int): return lc(o["c"])
            if "a" in o: return self.sym(("a", o["a"]))
            return ls(("?", str(o)))
        if isinstance(o, int):
            if o in env: return env[o]
            d = self.fn.defs.get(o)
            if d and d[0] not in self.body: return self.sym(("v", o))
            return ls(("?", o))
        return ls(("?", str(o)))
    def fork(self, st, *cases):
        """the feasible ones of some cases [(value, constraints)]"""
        out = []
        for v, cs in cases:
            if self.fm.sat(st["cons"] + cs + self.basics()): out.append((v, cs))
        return out
    def basics(self): return [ls(s) for s in self.base] + [ge(lc(BIG), ls(s)) for s in self.base]
    def clone(self, st):
        return {"env": dict(st["env"]), "cells": dict(st["cells"]), "ptr": dict(st["ptr"]), "cons": list(st["cons"]), "ghost": st["ghost"], "opaque": st["opaque"], "spawned": st["spawned"], "seq": st["seq"]}
    def walk(self, b, pred, st, inside, out, seen):
        """follows the paths from b; inside: within the loop, else from the entry to the loop"""
        self.steps += 1
        if self.steps > 6000: raise Undecided("too many paths")
        fn = self.fn
        if pred is not None and b == self.head:
            out.append(("head", pred, st)); return
        if inside and b not in self.body:
            out.append(("exit", b, st)); return
        if b in seen: raise Undecided("another loop")
        if b in self.L.loopbody(fn) and b != self.head: raise Undecided("another loop")
        seen = seen | {b}
        sts = [st]
        new = {}
        if not (inside and pred is None):
            for i in fn.blocks[b]:
                if i[0] != "phi": break
                for v, q in i[3]:
                    if q == pred: new[i[1]] = (self.val(st, v), st["ptr"].get(v) if isinstance(v, int) else None)
            for k, (v, q) in new.items():
                st["env"][k] = v
                if q is not None: st["ptr"][k] = q
        for i in fn.blocks[b]:
            if i[0] == "phi": continue
            if i[0] == "ret":
                for s in sts: out.append(("ret", b, s))
                return
            if i[0] == "br" or i[0] == "switch" or (i[0] == "call" and i[5] >= 0):
                if i[0] == "call": sts = [y for s in sts for y in self.step(i, s)]
                for s in sts: self.branch(b, i, s, inside, out, seen)
                return
            if i[0] in ("unreachable", "resume"): return
            sts = [y for s in sts for y in self.step(i, s)]
    def branch(self, b, i, st, inside, out, seen):
        fn = self.fn
        if i[0] == "call":
            if not i[9]: self.walk(i[5], b, st, inside, out, seen)
            return
        if i[0] == "switch":
            x = self.val(st, i[3])
            only = None if x[0] else next((t for cc, t in i[5] if cc.get("c") == x[1]), i[4])
            for t in fn.succs(b) if only is None else [only]:
                s = self.clone(st)
                if only is None: s["opaque"] = True
                self.walk(t, b, s, inside, out, seen)
            return
        if i[3] is None:
            self.walk(i[4][0], b, st, inside, out, seen); return
        for truth, t in ((True, i[4][0]), (False, i[4][1])):
            for cs in self.cond(st, i[3], truth):
                s = self.clone(st)
                if cs is None:
                    s["opaque"] = True
                else:
                    s["cons"] += cs
                    if not self.fm.sat(s["cons"] + self.basics()): continue
                self.walk(t, b, s, inside, out, seen)
    def cond(self, st, o, truth):
        """the cases in which a condition has a value: lists of constraints, None when not known"""
        if isinstance(o, dict) and "c" in o: return [[]] if bool(o["c"]) == truth else []
        c = self.fn.inst(o)
        if c is None or c[0] != "icmp" or c[3] not in NEG: 
            return [None]
        x, y = st["env"].get(("cmp", c[1])) or (self.val(st, c[4]), self.val(st, c[5]))
        if any(s[0] == "?" for s, k in x[0] + y[0]): return [None]
        op = c[3] if truth else NEG[c[3]]
        op = op[1:] if op[0] in "us" and op not in ("eq", "ne") else op
        if op == "eq": return [[ge(x, y), ge(y, x)]]
        if op == "ne": return [[ge(x, y, 1)], [ge(y, x, 1)]]
        return [[{"lt": ge(y, x, 1), "le": ge(y, x), "gt": ge(x, y, 1), "ge": ge(x, y)}[op]]]
    def step(self, i, st):
        """executes an instruction; the states after it"""
        op, env = i[0], st["env"]
        def some(cases):
            r = []
            cases = self.fork(st, *cases)
            for n, (v, cs) in enumerate(cases):
                s = st if n == len(cases) - 1 else self.clone(st)
                s["env"][i[1]] = v; s["cons"] += cs
                r.append(s)
            return r
        if op == "icmp":
            env[("cmp", i[1])] = (self.val(st, i[4]), self.val(st, i[5]))
            return [st]
        if op == "cast":
            env[i[1]] = self.val(st, i[4])
            return [st]
        if op == "bin":
            x, y = self.val(st, i[4]), self.val(st, i[5])
            unknown = any(s[0] == "?" for s, k in x[0] + y[0])
            if i[3] == "add":
                env[i[1]] = ladd(x, y); return [st]
            if i[3] == "sub":
                d = ladd(x, y, -1)
                if unknown: env[i[1]] = d; return [st]
                return some([(d, [ge(x, y)]), (ladd(d, lc(1 << 64)), [ge(y, x, 1)])])
            if i[3] == "mul" and (not x[0] or not y[0]):
                env[i[1]] = lscale(y, x[1]) if not x[0] else lscale(x, y[1]); return [st]
            if i[3] == "shl" and not y[0] and 0 <= y[1] < 16:
                env[i[1]] = lscale(x, 1 << y[1]); return [st]
            if i[3] in ("udiv", "urem", "lshr", "sdiv", "srem") and not unknown:
                if i[3] == "lshr":
                    if y[0] or not 0 <= y[1] < 16: env[i[1]] = ls(("?", i[1])); return [st]
                    y = lc(1 << y[1])
                if any(s[0] in "h?" for s, k in x[0] + y[0]): env[i[1]] = ls(("?", i[1])); return [st]
                q = ("q", i[1])
                z = self.sym(q)
                for s, k in y[0]: self.divisors.add(s)
                if i[3][1:] == "rem":
                    self.divisors.add(q)
                    st["cons"] += [z, ge(x, z), ge(y, z, 1)]
                else:
                    if not y[0] and y[1] > 0: st["cons"] += [ge(x, lscale(z, y[1])), ge(ladd(lscale(z, y[1]), lc(y[1])), x, 1)]
                    else:
                        m = next((m for m in (3, 2, 1) if self.fm.entails(st["cons"] + self.basics(), ge(y, lc(m)))), 0)
                        st["cons"] += [ge(x, lscale(z, m))] if m else [ge(x, z)]
                env[i[1]] = z
                return [st]
            env[i[1]] = ls(("?", i[1])); return [st]
        if op == "select":
            r = []
            for truth, o in ((True, i[4]), (False, i[5])):
                for cs in self.cond(st, i[3], truth):
                    s = self.clone(st)
                    if cs is None: s["opaque"] = True
                    else:
                        s["cons"] += cs
                        if not self.fm.sat(s["cons"] + self.basics()): continue
                    s["env"][i[1]] = self.val(st, o)
                    r.append(s)
            return r
        if op == "store":
            a = i[4]
            a = st["ptr"].get(a, a) if isinstance(a, int) else a
            if isinstance(a, int) and a in self.cells: st["cells"][a] = self.val(st, i[3])
            return [st]
        if op == "load":
            a = i[3]
            a = st["ptr"].get(a, a) if isinstance(a, int) else a
            if isinstance(a, int) and a in self.cells and a in st["cells"]: env[i[1]] = st["cells"][a]
            elif self.fn.defs[i[1]][0] in self.body: env[i[1]] = ls(("?", i[1]))
            return [st]
        if op == "call":
            if i is self.inst:
                b, e = self.val(st, self.ob), self.val(st, self.oe)
                return self.spawn(st, b, e)
            if any(i is c for c, _, _ in self.seq):
                x, y = next((x, y) for c, x, y in self.seq if c is i)
                st["seq"] = (self.val(st, x), self.val(st, y))
                return [st]
            q = self.p.callee_qs(i)
            if q & {"std::min", "std::max"} and len(i[4]) == 2:
                a, c = [st["ptr"].get(o, o) if isinstance(o, int) else o for o in i[4]]
                if a in st["cells"] and c in st["cells"]:
                    x, y = st["cells"][a], st["cells"][c]
                    if not any(s[0] == "?" for s, k in x[0] + y[0]):
                        first = [ge(y, x)] if "std::min" in q else [ge(x, y)]
                        second = [ge(x, y, 1)] if "std::min" in q else [ge(y, x, 1)]
                        r = []
                        for cell, cs in ((a, first), (c, second)):
                            s = self.clone(st); s["cons"] += cs
                            if not self.fm.sat(s["cons"] + self.basics()): continue
                            s["ptr"][i[1]] = cell
                            r.append(s)
                        return r
            if i[1] is not None and i[1] >= 0 and self.fn.defs[i[1]][0] in self.body: env[i[1]] = ls(("?", i[1]))
            return [st]
        return [st]
    def unknown(self, st, *es):
        return any(s[0] == "?" for e in es for s, k in e[0])
    def fail(self, st, what, *es):
        if st["opaque"] or self.unknown(st, *es): raise Undecided("values that are not followed")
        if any(s in self.divisors for e in st["cons"] for s, k in e[0] if self.varying(e)): raise Undecided("counts the threads")
        self.bad.setdefault(what, st)
    def varying(self, e):
        return any(s[0] == "h" for s, k in e[0])
    def spawn(self, st, b, e):
        cons = st["cons"] + self.basics()
        self.obligations += 3
        if self.unknown(st, b, e): raise Undecided("bounds that are not followed")
        if not (self.fm.entails(cons, ge(b, st["ghost"])) ):
            self.fail(st, "a part that is handed out begins before the end of the part before it", b, e)
        elif not self.fm.entails(cons, ge(st["ghost"], b)):
            self.fail(st, "a part that is handed out does not begin where the part before it ends", b, e)
        if not self.fm.entails(cons, ge(self.vlen, e)):
            self.fail(st, "a part that is handed out can end after the end of the list", b, e)
        st["ghost"] = e
        st["spawned"] = True
        return [st]
    # -- the fixed point
    def terms(self, init):
        return sorted(init, key=str)
    def cubes(self, cons, state):
        """the truth of the predicates over the variables at the head of the loop"""
        names = self.terms(state)
        hs = {n: ls(("n", n)) for n in names}
        eqs = []
        for n in names:
            eqs += [ge(hs[n], state[n]), ge(state[n], hs[n])]
        ts = [hs[n] for n in names] + [self.vlen, lc(0)]
        preds = []
        for x in range(len(ts)):
            for y in range(x):
                a, b = ts[x], ts[y]
                if x >= len(names) and y >= len(names): continue
                preds.append(([ge(b, a, 1)], [ge(a, b), ge(b, a)], [ge(a, b, 1)]))
        for s in sorted((s for s in self.base if s[0] == "q"), key=str):
            preds.append(([ge(lc(0), ls(s))], [ge(ls(s), lc(1))]))
        out = []
        def go(k, chosen, cons):
            if len(out) > 400: raise Undecided("too many cases")
            if k == len(preds): out.append(tuple(chosen)); return
            for c in preds[k]:
                if self.fm.sat(cons + c): go(k + 1, chosen + c, cons + c)
        go(0, [], cons + eqs + self.basics())
        def ren(e): return (tuple(((("h", s[1]) if s[0] == "n" else s), k) for s, k in e[0]), e[1])
        return [tuple(ren(e) for e in c) for c in out]
    def run(self, vlen):
        self.vlen = vlen
        self.bad, self.obligations = {}, 0
        fn = self.fn
        st = {"env": {}, "cells": {}, "ptr": {}, "cons": [], "ghost": lc(0), "opaque": False, "spawned": False, "seq": None}
        for s, k in vlen[0]: self.base.add(s)
        out = []
        self.walk(0, None, st, False, out, frozenset())
        work, seen = [], set()
        for kind, b, s in out:
            if kind == "ret":
                self.obligations += 1
                if s["seq"] is None:
                    if self.fm.sat(s["cons"] + self.basics() + [ge(self.vlen, lc(1))]):
                        if s["opaque"]: continue
                        self.fail(s, "a list can be left without an evaluation of its entries")
                else:
                    cons = s["cons"] + self.basics()
                    x, y = s["seq"]
                    if self.unknown(s, x, y): continue
                    if not (self.fm.entails(cons, ge(x, lc(0))) and self.fm.entails(cons, ge(lc(0), x)) and self.fm.entails(cons, ge(y, self.vlen)) and self.fm.entails(cons, ge(self.vlen, y))):
                        self.fail(s, "an evaluation that is not split does not get the whole list", x, y)
            elif kind == "head":
                state = {}
                for i in self.phis:
                    v = next(v for v, q in i[3] if q == b)
                    x = self.val(s, v)
                    if not self.unknown(s, x): state[i[1]] = x
                for c, x in s["cells"].items():
                    if not self.unknown(s, x): state[("cell", c)] = x
                state["ghost"] = s["ghost"]
                ctx = (tuple(s["cons"]), tuple(sorted(s["env"].items(), key=str)))
                for cube in self.cubes(list(s["cons"]), state):
                    work.append((ctx, s["opaque"], tuple(self.terms(state)), cube))
        if not work: raise Undecided("the loop is not reached")
        while work:
            item = work.pop()
            if item in seen: continue
            seen.add(item)
            if len(seen) > 600: raise Undecided("too many cases")
            ctx, opaque, names, cube = item
            env = dict(ctx[1])
            env.update({n: ls(("h", n)) for n in names if isinstance(n, int)})
            st = {"env": env, "cells": {n[1]: ls(("h", n)) for n in names if isinstance(n, tuple)}, "ptr": {},
                  "cons": list(ctx[0]) + list(cube), "ghost": ls(("h", "ghost")), "opaque": opaque, "spawned": False, "seq": None}
            for i in self.phis:
                if i[1] not in names: st["env"][i[1]] = ls(("?", i[1]))
            out = []
            self.walk(self.head, None, st, True, out, frozenset())
            for kind, b, s in out:
                if kind == "exit":
                    self.obligations += 1
                    cons = s["cons"] + self.basics()
                    if not self.fm.entails(cons, ge(s["ghost"], self.vlen)):
                        self.fail(s, "the parts that are handed out can end before the end of the list", s["ghost"])
                elif kind == "ret": raise Undecided("returns from the loop")
                elif kind == "head":
                    state = {}
                    for n in names:
                        if n == "ghost": state[n] = s["ghost"]
                        elif isinstance(n, int):
                            i = next(i for i in self.phis if i[1] == n)
                            state[n] = self.val(s, next(v for v, q in i[3] if q == b))
                        else: state[n] = s["cells"].get(n[1], ls(("?", n)))
                    if any(self.unknown(s, v) for v in state.values()): raise Undecided("values that are not followed")
                    for c in self.cubes(s["cons"], state): work.append((ctx, opaque or s["opaque"], names, c))
        return len(seen)

# ---------------------------------------------------------------------------------------------------
START = re.compile(r"std::(async<|async\(|thread::thread<|jthread::jthread<)")

class Spawn:
    """a call that starts a thread: the object that runs in it, and which of its fields hold the range"""
    def __init__(self, p, fn, b, i):
        self.p, self.fn, self.block, self.inst = p, fn, b, i
        self.obj = self.type = self.beg = self.end = None
        self.ranges, self.fields, self.roots = [], {}, []
        for o in i[4]:
            d = fn.inst(o) if isinstance(o, int) else None
            if d is not None and d[0] == "alloca" and not d[3].startswith("std::") and p.find(d[3] + "::operator{}"):
                self.obj, self.type = o, d[3]
        if self.obj is None: return
        self.roots = p.find(self.type + "::operator{}")
        dem = p.dem.get(i[3].get("f"), "")
        best = [f for f in self.roots if re.sub(r"::operator\(\).*", "", f.d) in dem]
        if best: self.roots = best
        self.bind()
        self.range()
    def bind(self):
        """what the fields of the object hold: {field: operand in fn}"""
        p, fn = self.p, self.fn
        for _, _, u in fn.users().get(self.obj, ()):
            if u[0] == "call" and u[4] and u[4][0] == self.obj:
                for s in p.callees(u):
                    g = p.resolve(s)
                    if g is None or last2(g.q) != self.type.split("::")[-1]: continue
                    for bl in g.blocks:
                        for x in bl:
                            if x[0] == "store" and isinstance(x[3], dict) and "a" in x[3]:
                                ga = g.inst(x[4])
                                if ga is not None and ga[0] == "gep" and ga[3] == {"a": 0} and x[3]["a"] < len(u[4]): self.fields[ga[5][-1]] = u[4][x[3]["a"]]
            elif u[0] == "gep" and u[3] == self.obj:
                for _, _, v in fn.users().get(u[1], ()):
                    if v[0] == "store" and v[4] == u[1] and u[5]: self.fields[u[5][-1]] = v[3]
    def field(self, f, o):
        """the field of the object an operand of a root is a load of"""
        x = f.inst(o) if isinstance(o, int) else None
        if x is None or x[0] != "load": return None
        g = f.inst(x[3])
        return g[5][-1] if g is not None and g[0] == "gep" and g[3] == {"a": 0} and g[5] else None
    def range(self):
        for f in self.roots:
            for b, k, i in f.calls():
                fl = [(n, self.field(f, o)) for n, o in enumerate(i[4])]
                ints = [(n, x) for (n, x) in fl if x and f.inst(i[4][n])[4] == "i64"]
                if len(ints) == 2 and len({x for _, x in ints}) == 2:
                    pair = (ints[0][1], ints[1][1])
                    if self.beg is None: self.beg, self.end = pair
                    elif (self.beg, self.end) != pair: self.beg = self.end = False
                    self.ranges.append((f, b, i, ints[0][0], ints[1][0]))
    def known(self): return bool(self.beg and self.end and self.beg in self.fields and self.end in self.fields)

def last2(q): return q.split("::")[-1]

def spawns(p):
    for fn in sorted(p.fns.values(), key=lambda f: f.n):
        for b, k, i in fn.calls():
            if any(START.match(strip_ret(p.dem.get(s, ""))) for s in p.callees(i)): yield Spawn(p, fn, b, i)

def strip_ret(d):
    k = d.find("std::async<")
    return d[k:] if k >= 0 else d

def closure(p, roots):
    """the functions a thread can reach"""
    sigs = {}
    def tree(x):
        if isinstance(x, dict):
            if "f" in x: yield x["f"]
            for y in x.values(): yield from tree(y)
        elif isinstance(x, list):
            for y in x: yield from tree(y)
    taken = set()
    for o in p.globals.values():
        if "vtable" not in o["d"] and "typeinfo" not in o["d"]: taken |= set(tree(o.get("init")))
    for f in p.fns.values():
        for bl in f.blocks:
            for i in bl:
                for o in (i[4] if i[0] == "call" else i[3:]):
                    if isinstance(o, (dict, list)): taken |= set(tree(o))
    for s in taken:
        g = p.resolve(s)
        if g is not None: sigs.setdefault((len(g.aty), g.rty), set()).add(g)
    edges, ext, done, work = {}, {}, {}, list(roots)
    for f in roots: done[f.n] = f
    while work:
        f = work.pop()
        es = edges[f.n] = []
        if f.q == "dsAssert_" or any("EnsurePythonGIL::EnsurePythonGIL" in p.callee_qs(i) for _, _, i in f.calls()): continue    # ends the program; one thread at a time
        for b, k, i in f.calls():
            for s in p.callees(i):
                g = p.resolve(s)
                if g is None: ext.setdefault(s, []).append((f, i))
                else: es.append((i, g))
            if "i" in i[3]:
                n = len(i[4])
                for g in sigs.get((n, i[7]), ()): es.append((i, g))
            for i2, g in es:
                if g.n not in done: done[g.n] = g; work.append(g)
    return done, edges, ext

def check_partition(r):
    p = load()
    L = Lengths(p, None)
    chain = chains(p, r)
    for sp in chain.spawns:
        r.count("calls that start a thread")
        if not sp.known():
            r.count("not decided: threads whose range is not recognised"); continue
        fn = sp.fn
        # the same evaluation without threads: a call that a thread makes too, for a range
        seq = []
        for b, k, i in fn.calls():
            if i is sp.inst: continue
            for s in p.callees(i):
                g = p.resolve(s)
                if g is not None and g.n in chain.ctx and last2(g.q) != last2(sp.type):
                    x, y = chain.ctx[g.n]
                    if x[0] == "a" and y[0] == "a": seq.append((i, i[4][x[1]], i[4][y[1]]))
        vlen = lengths_of(fn, seq)
        if vlen is None:
            r.count("not decided: the length of the list is not recognised"); continue
        key = f"{fn.q}"
        try:
            a = Partition(p, L, fn, sp.block, sp.inst, sp.fields[sp.beg], sp.fields[sp.end], seq)
            n = a.run(vlen)
        except Undecided as e:
            r.count("not decided: partitions"); r.samples.append(f"not decided: {fn.where()} {fn.q}: {e}"); continue
        r.count("partitions of a list proved" if not a.bad else "partitions of a list refuted")
        r.count("abstract states of the partitions", n)
        r.count("obligations of the partitions", a.obligations)
        for what in sorted(a.bad):
            r.add(f"partition:{key}:{what}", what, f"{fn.where(sp.inst)} {key}")
        fresh(p, r, L, sp)
    return chain

def lengths_of(fn, seq):
    es = [y for _, _, y in seq]
    if es and all(e == es[0] for e in es) and isinstance(es[0], dict) and "a" in es[0]: return ls(("a", es[0]["a"]))
    ints = [n for n, t in enumerate(fn.aty) if t == "i64"]
    if len(ints) == 1: return ls(("a", ints[0]))
    return None

def fresh(p, r, L, sp):
    """each part works with an object of its own"""
    fn = sp.fn
    bodies = [(len(bs), bs) for h, bs in L.loopbody(fn).items() if sp.block in bs]
    if not bodies: return
    body = min(bodies, key=lambda x: x[0])[1]
    def origin(o, n=0):
        if isinstance(o, dict): return "shared" if "g" in o else None
        if n > 8: return None
        i = fn.inst(o)
        if i is None: return None
        b = fn.defs[o][0]
        if i[0] == "alloca":
            made = []
            for ub, _, u in fn.users().get(o, ()):
                if u[0] == "call" and u[4] and (u[4][0] == o or u[8] >= 0 and u[4][u[8]] == o):
                    q = next(iter(p.callee_qs(u)), "")
                    if re.search(r"::(shared_ptr|unique_ptr)$", q) or re.search(r"std::make_(shared|unique)$", q): made.append((ub, "ptr", u))
                    elif last2(q) == last2(i[3]): made.append((ub, "obj", u))
            if any(k == "obj" for _, k, _ in made): return "shared"
            if made and all(ub not in body for ub, _, _ in made): return "shared"
            if made: return "fresh"
            return None
        if i[0] == "call":
            q = next(iter(p.callee_qs(i)), "")
            if q == "operator new": return "fresh" if b in body else "shared"
            if last2(q) in ("operator*", "operator->", "get") and i[4]: return origin(i[4][0], n + 1)
            return None
        if i[0] in ("load", "cast"):
            return origin(i[3] if i[0] == "load" else i[4], n + 1)
        return None
    for name, o in sorted(sp.fields.items()):
        d = fn.inst(o) if isinstance(o, int) else None
        if name in (sp.beg, sp.end): continue
        k = origin(o)
        r.count("objects given to threads")
        if k == "fresh": r.count("objects made for one part")
        if k == "shared":
            # only what the thread itself calls matters
            r.add(f"shared:{fn.q}:{name}", "the threads work with the same object: what one part leaves in it is overwritten by another", f"{fn.where(sp.inst)} {fn.q}")

class Chain: pass
_chain = {}
def chains(p, r):
    """the functions that get the range of a part, and in which of their arguments"""
    if id(p) in _chain: return _chain[id(p)]
    c = Chain()
    c.spawns = list(spawns(p))
    roots = {f.n: f for sp in c.spawns for f in sp.roots}
    c.fns, c.edges, c.ext = closure(p, list(roots.values()))
    c.ctx, c.roots, c.calls = {}, roots, {}
    work = []
    for sp in c.spawns:
        if not sp.known(): continue
        for f, b, i, x, y in sp.ranges:
            c.calls.setdefault(f.n, []).append((b, i))
            for i2, g in c.edges[f.n]:
                if i2 is i: work.append((g, x, y))
    while work:
        g, x, y = work.pop()
        if g.n in c.ctx: continue
        c.ctx[g.n] = (("a", x), ("a", y))
        for b, k, i in g.calls():
            xs = [n for n, o in enumerate(i[4]) if o == {"a": x}]
            ys = [n for n, o in enumerate(i[4]) if o == {"a": y}]
            if len(xs) == 1 and len(ys) == 1:
                tgt = [h for i2, h in c.edges[g.n] if i2 is i]
                if tgt: c.calls.setdefault(g.n, []).append((b, i))
                for h in tgt: work.append((h, xs[0], ys[0]))
    _chain[id(p)] = c
    return c

# ---------------------------------------------------------------------------------------------------
CONTAINERS = re.compile(r"^std::(__cxx11::)?(vector|array|map|set|deque|list|basic_string|unordered_map|unordered_set|valarray|span)::")
POINTERS = re.compile(r"^std::(__shared_ptr_access|__shared_ptr|shared_ptr|unique_ptr|__uniq_ptr\w*|weak_ptr|reference_wrapper)::")
ELEMENT = {"operator[]", "at", "front", "back", "data", "begin", "end", "cbegin", "c_str", "find", "rbegin"}
DEREF = {"operator*", "operator->", "get"}
WRITER = {"push_back", "emplace_back", "resize", "clear", "insert", "erase", "assign", "append", "pop_back", "operator=", "operator+=", "operator-=", "operator*=", "operator/=", "reset", "swap", "reserve", "emplace", "replace", "push_front", "pop_front", "operator++", "operator--", "str", "fill"}
NOT_REENTRANT = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "strtok", "strerror", "localtime", "gmtime", "ctime", "asctime", "setlocale", "fesetround"}

class Effects:
    """what a function writes, as places reached from its arguments or from globals"""
    def __init__(self, p, edges=None):
        self.p, self.edges = p, edges or {}
        self.m, self.rm, self.active, self.ractive, self.pm = {}, {}, set(), set(), {}
    def targets(self, f, i):
        out = []
        for s in self.p.callees(i):
            g = self.p.resolve(s)
            if g is not None: out.append(g)
        if "i" in i[3]: out += [g for i2, g in self.edges.get(f.n, ()) if i2 is i]
        return out
    def paths(self, f, o, n=0):
        """{(root, path)} an address can be; empty when it is not followed"""
        if isinstance(o, dict):
            if "a" in o: return {(("a", o["a"]), ())}
            if "g" in o: return {(("g", o["g"]), ())}
            if "ge" in o: return self.paths(f, o["ge"], n + 1)
            return set()
        if not isinstance(o, int) or n > 14: return set()
        key = (f.n, o)
        if key in self.pm: return self.pm[key]
        self.pm[key] = set()            # cycles
        r = self.pm[key] = {(a, b[:10]) for a, b in self.path1(f, o, n)}
        return r
    def path1(self, f, o, n):
        i = f.inst(o)
        if i is None: return set()
        if i[0] == "alloca": return {(("al", o), ())}
        if i[0] == "gep":
            steps, k = [], 0
            for s in i[5]:
                if s == "[]":
                    d = i[6][k]; k += 1
                    steps.append("[%d]" % d["c"] if isinstance(d, dict) and isinstance(d.get("c"), int) else "[]")
                else: steps.append(s)
            if i[5] == ["[]"] and steps[0] != "[]":
                # an offset from a place in an array: some entry
                return {(a, b if b and b[-1] == "[]" else b + ("[]",)) for a, b in self.paths(f, i[3], n + 1)}
            return {(a, b + tuple(steps)) if not (b and b[-1] == "[]" and steps[:1] == ["[]"]) else (a, b + tuple(steps[1:])) for a, b in self.paths(f, i[3], n + 1)}
        if i[0] == "load": return {(a, b + ("*",)) for a, b in self.paths(f, i[3], n + 1) if a[0] != "al"}
        if i[0] == "cast": return self.paths(f, i[4], n + 1)
        if i[0] == "phi":
            r = set()
            for v, q in i[3]: r |= self.paths(f, v, n + 1)
            return r
        if i[0] == "select": return self.paths(f, i[4], n + 1) | self.paths(f, i[5], n + 1)
        if i[0] == "call":
            qs = self.p.callee_qs(i)
            if any(s.startswith("llvm.threadlocal.address") for s in self.p.callees(i)): return {(("tls",), ())}
            q = next(iter(qs), "")
            if i[4] and CONTAINERS.match(q) and last2(q) in ELEMENT:
                ix = "[]"
                if last2(q) in ("operator[]", "at") and isinstance(i[4][1], dict) and isinstance(i[4][1].get("c"), int): ix = "[%d]" % i[4][1]["c"]
                return {(a, b + (ix,)) for a, b in self.paths(f, i[4][0], n + 1)}
            if i[4] and POINTERS.match(q) and last2(q) in DEREF: return {(a, b + ("*",)) for a, b in self.paths(f, i[4][0], n + 1) if a[0] != "al"}
            r = set()
            for g in self.targets(f, i):
                for a, b in self.rets(g):
                    if a[0] == "a":
                        if a[1] < len(i[4]): r |= {(x, y + b) for x, y in self.paths(f, i[4][a[1]], n + 1)}
                    elif a[0] in ("g", "tls"): r.add((a, b))
            return r
        return set()
    def rets(self, g):
        if g.n in self.rm: return self.rm[g.n]
        if g.n in self.ractive or len(self.ractive) > 12 or g.rty != "ptr": return set()
        self.ractive.add(g.n)
        r = set()
        for b, i in g.exits():
            if i[3] is not None: r |= {x for x in self.paths(g, i[3]) if x[0][0] in ("a", "g", "tls")}
        self.ractive.discard(g.n)
        self.rm[g.n] = r
        return r
    def exempt(self, f):
        """the blocks that only one thread executes at a time"""
        p = self.p
        out = set()
        for b, k, i in f.calls():
            if "__cxa_guard_acquire" in p.callees(i):
                w = list(f.succs(b, True))
                while w:
                    x = w.pop()
                    if x in out: continue
                    out.add(x)
                    if any(j[0] == "call" and "__cxa_guard_release" in p.callees(j) for j in f.blocks[x]): continue
                    w += f.succs(x, True)
            q = next(iter(p.callee_qs(i)), "")
            if re.search(r"std::(lock_guard::lock_guard|unique_lock::unique_lock|scoped_lock::scoped_lock|\w*mutex::lock)$|^std::call_once", q): return set(range(len(f.blocks)))
        return out
    def of(self, f):
        """{(root, path): (function, instruction) of the write}"""
        if f.n in self.m: return self.m[f.n]
        if f.n in self.active: return {}
        self.active.add(f.n)
        p, r = self.p, {}
        skip = self.exempt(f)
        def put(places, i, f0=f):
            for a, b in places:
                if a[0] in ("a", "g"): r.setdefault((a, b[:12]), (f0, i))
        for b, bl in enumerate(f.blocks):
            if b in skip: continue
            for i in bl:
                if i[0] == "store": put(self.paths(f, i[4]), i)
                elif i[0] == "call":
                    tg = self.targets(f, i)
                    for g in tg:
                        for (a, b2), (f2, i2) in self.of(g).items():
                            if a[0] == "g": r.setdefault((a, b2), (f2, i2))
                            elif a[1] < len(i[4]):
                                for x, y in self.paths(f, i[4][a[1]]):
                                    if x[0] in ("a", "g"): r.setdefault((x, (y + b2)[:12]), (f2, i2))
                    if not tg and i[4]:
                        for s in p.callees(i): 
                            q = p.q(s)
                            if writes_first(p, s, q): put(self.paths(f, i[4][0]), i)
                        if i[8] >= 0: put(self.paths(f, i[4][i[8]]), i)
        self.active.discard(f.n)
        if not self.active: self.m[f.n] = r
        else: self.m[f.n] = r
        return r

def writes_first(p, s, q):
    d = p.dem.get(s, s)
    if s.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")) or q in ("memcpy", "memset", "memmove", "strcpy"): return True
    if last2(q) in ("push_back", "emplace_back") or last2(q) in WRITER: return not d.endswith(" const") and ("::" in q)
    return False

def check_shared(r):
    p = load()
    c = chains(p, r)
    E = Effects(p, c.edges)
    r.count("functions threads can reach", len(c.fns))
    r.count("calls in functions threads can reach", sum(1 for f in c.fns.values() for _ in f.calls()))
    for s, sites in sorted(c.ext.items()):
        q = p.q(s)
        f, i = sites[0]
        if q in NOT_REENTRANT or q.startswith("std::") and q[5:] in NOT_REENTRANT:
            r.add(f"reentrant:{f.q}:{q}", f"a thread calls {q}, which keeps state all threads share", f"{f.where(i)} {f.q}")
        elif re.match(r"_?Py[A-Z_]", q):
            r.add(f"python:{f.q}:{q}", f"a thread calls {q} of the interpreter, which only its own thread may", f"{f.where(i)} {f.q}")
    # globals, wherever they are written
    for f in sorted(c.fns.values(), key=lambda f: f.n):
        skip = E.exempt(f)
        for b, bl in enumerate(f.blocks):
            for i in bl:
                if b in skip: continue
                places = set()
                if i[0] == "store": places = E.paths(f, i[4])
                elif i[0] == "call" and i[4] and not E.targets(f, i) and any(writes_first(p, s, p.q(s)) for s in p.callees(i)): places = E.paths(f, i[4][0])
                if i[0] == "store" or places: r.count("writes examined")
                for a, path in places:
                    if a[0] != "g": continue
                    o = p.globals.get(a[1])
                    if o is None or o.get("tls") or o.get("const") or a[1].startswith("_ZGV"): continue
                    if "*" in path and not path[0] == "*": continue
                    if f.q == "std::ios_base::Init::Init": continue
                    name = o.get("d", a[1])
                    r.add(f"global:{f.q}:{name}", f"a thread writes {name}, which all threads share", f"{f.where(i)} {f.q}")
    # what is reached from the object of the thread
    for sp in c.spawns:
        for f in sp.roots:
            for (a, path), (g, i) in sorted(E.of(f).items(), key=str):
                if a != ("a", 0): continue
                r.count("places written from a thread")
                if path.count("*") < 2: continue
                k = [n for n, s in enumerate(path) if s == "*"][1]
                if "[]" in path[k:]: continue
                at = ".".join(s for s in path if s != "*")
                r.add(f"object:{g.q}:{at}", f"a thread writes {at}, which all threads share", f"{g.where(i)} {g.q}")

# ---------------------------------------------------------------------------------------------------
class Loop:
    """a loop of a function that gets a part of a list, from entry B to before entry E"""
    def __init__(self, p, L, E, fn, head, body, B, End):
        self.p, self.L, self.E, self.fn, self.head, self.body = p, L, E, fn, head, body
        self.B, self.End = ls(B), ls(End)
        self.bad, self.state, self.checked = {}, "none", 0
        self.n = ls(("n",))
        self.pm = {}
    # -- values: integers, and addresses in lists, in the n-th pass
    def lin(self, o, k=0):
        fn = self.fn
        if isinstance(o, dict):
            if isinstance(o.get("c"), int): return lc(o["c"])
            if "a" in o: return ls(("a", o["a"]))
            return ls(("?", str(o)))
        i = fn.inst(o)
        if i is None or k > 20: return ls(("?", o))
        if i[0] == "phi":
            if fn.defs[o][0] == self.head:
                s = self.step(i)
                if s is not None:
                    init = self.lin(s[0], k + 1)
                    return ladd(init, lscale(self.n, s[1]))
            return ls(("v", o))
        if i[0] == "cast": return self.lin(i[4], k + 1)
        if i[0] == "bin":
            x, y = self.lin(i[4], k + 1), self.lin(i[5], k + 1)
            if i[3] == "add": return ladd(x, y)
            if i[3] == "sub": return ladd(x, y, -1)
            if i[3] == "mul" and (not x[0] or not y[0]): return lscale(y, x[1]) if not x[0] else lscale(x, y[1])
            if i[3] == "shl" and not y[0] and 0 <= y[1] < 16: return lscale(x, 1 << y[1])
        return ls(("v", o))
    def step(self, phi):
        """(initial value, step) of a value that advances by a constant"""
        key = phi[1]
        if key in self.pm: return self.pm[key]
        self.pm[key] = None
        init, step = [], set()
        for v, q in phi[3]:
            if q not in self.body:
                init.append(v); continue
            o, s = v, 0
            for _ in range(8):
                if o == phi[1]: break
                i = self.fn.inst(o)
                if i is None: o = None; break
                if i[0] == "gep" and i[5] == ["[]"] and isinstance(i[6][0], dict) and isinstance(i[6][0].get("c"), int): s += i[6][0]["c"]; o = i[3]
                elif i[0] == "bin" and i[3] in ("add", "sub") and isinstance(i[5], dict) and isinstance(i[5].get("c"), int): s += i[5]["c"] * (1 if i[3] == "add" else -1); o = i[4]
                elif i[0] == "phi" and self.fn.defs[o][0] in self.body:
                    srcs = {str(x) for x, _ in i[3]}
                    if len(srcs) != 1: o = None; break
                    o = i[3][0][0]
                else: o = None; break
            if o != phi[1]: return None
            step.add(s)
        if not init or len({str(x) for x in init}) != 1 or len(step) != 1: return None
        s = step.pop()
        if s >= 1 << 63: s -= 1 << 64
        r = self.pm[key] = (init[0], s)
        return r
    def addr(self, o, k=0):
        """(list, index) of an address"""
        fn, p = self.fn, self.p
        if isinstance(o, dict):
            return (("a%d" % o["a"]), lc(0)) if "a" in o else None
        i = fn.inst(o)
        if i is None or k > 20: return None
        if i[0] == "alloca": return (("al", o), lc(0))
        if i[0] == "phi":
            s = self.step(i) if fn.defs[o][0] == self.head else None
            if s is None: return None
            a = self.addr(s[0], k + 1)
            return a and (a[0], ladd(a[1], lscale(self.n, s[1])))
        if i[0] == "cast": return self.addr(i[4], k + 1)
        if i[0] == "gep":
            a = self.addr(i[3], k + 1)
            if a is None: return None
            if i[5] == ["[]"]: return (a[0], ladd(a[1], self.lin(i[6][0], k + 1)))
            if isinstance(a[0], tuple): 
                return (a[0], self.lin(i[6][-1], k + 1)) if i[5] and i[5][-1] == "[]" else (a[0] + tuple(i[5]), lc(0))
            return None if "[]" in i[5] else (a[0] + "." + ".".join(i[5]), lc(0))
        if i[0] == "call" and i[4]:
            q = next(iter(p.callee_qs(i)), "")
            if CONTAINERS.match(q) and last2(q) in ("operator[]", "at", "data", "begin", "cbegin", "front"):
                v = self.listof(i[4][0], k + 1)
                if v is None: return None
                return (v, self.lin(i[4][1], k + 1) if last2(q) in ("operator[]", "at") else lc(0))
            if "__normal_iterator::" in q and last2(q) in ("operator*", "operator+", "operator-", "operator[]"):
                a = self.iterator(i[4][0], k + 1)
                if a is None or last2(q) == "operator*": return a
                if len(i[4]) < 2: return None
                return (a[0], ladd(a[1], self.lin(i[4][1], k + 1), -1 if last2(q) == "operator-" else 1))
        if i[0] == "load":
            v = self.listof(o, k + 1)
            return v and (v, lc(0))
        return None
    def iterator(self, o, k):
        """where an iterator that is set once is"""
        fn = self.fn
        i = fn.inst(o) if isinstance(o, int) else None
        if i is None or i[0] != "alloca": return None
        at = []
        for b, _, u in fn.users().get(o, ()):
            if u[0] == "store" and u[4] == o: at.append(u[3])
            elif u[0] == "gep" and u[3] == o: at += [v[3] for _, _, v in fn.users().get(u[1], ()) if v[0] == "store" and v[4] == u[1]]
            elif u[0] == "call" and any(last2(q) not in ("operator*", "operator+", "operator-", "operator[]", "operator!=", "operator==", "operator<", "base") and not q.startswith("llvm.") for q in self.p.callee_qs(u)): return None
        return self.addr(at[0], k + 1) if len(at) == 1 else None
    def listof(self, o, k=0):
        """a name for the list an address is that of"""
        fn = self.fn
        if k > 20: return None
        if isinstance(o, dict): return "a%d" % o["a"] if "a" in o else None
        i = fn.inst(o)
        if i is None: return None
        if i[0] == "load":
            b = self.listof(i[3], k + 1)
            return b and "*" + b
        if i[0] == "gep":
            b = self.listof(i[3], k + 1)
            if b is None: return None
            if "[]" in i[5]: return b + "[?%s]" % (i[6],)
            return b + "." + ".".join(i[5])
        if i[0] == "call" and i[4]:
            q = next(iter(self.p.callee_qs(i)), "")
            b = self.listof(i[4][0], k + 1)
            if b is None: return None
            if CONTAINERS.match(q) and last2(q) in ("operator[]", "at"):
                x = i[4][1]
                return b + ("[%d]" % x["c"] if isinstance(x, dict) and isinstance(x.get("c"), int) else "[v%s]" % (x,))
        if i[0] == "alloca": return "al%d" % o
        return None
    def known(self, e): return all(s in (("n",),) or s[0] == "a" for s, k in e[0])
    def ranged(self, e):
        """depends on the pass, or on which part this is"""
        d = dict(e[0])
        return ("n",) in d or self.B[0][0][0] in d or self.End[0][0][0] in d
    # -- the rule
    def check(self):
        fn, p = self.fn, self.p
        t = fn.blocks[self.head][-1]
        cs = [s for s in self.L.succs(fn, self.head)]
        c = fn.inst(t[3]) if t[0] == "br" and t[3] is not None and isinstance(t[3], int) else None
        accesses = self.accesses()
        if c is None or c[0] != "icmp" or c[3] not in NEG:
            self.state = "unknown" if any(self.ranged(ix) for _, _, _, ix, _, _ in accesses) else "none"; return
        inside = [s for s in cs if s in self.body]
        if len(inside) != 1: self.state = "unknown"; return
        pred = c[3] if t[4][0] == inside[0] else NEG[c[3]]
        x, y = self.bound(c[4]), self.bound(c[5])
        nn = ("n",)
        if dict(y[0]).get(nn, 0) and not dict(x[0]).get(nn, 0):
            x, y, pred = y, x, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pred, pred)
        if not self.known(x) or not self.known(y) or dict(x[0]).get(nn, 0) not in (1, -1) or dict(y[0]).get(nn, 0):
            self.state = "unknown" if self.about(x, y) or any(self.ranged(ix) for _, _, _, ix, _, _ in accesses) else "none"; return
        if not (self.ranged(ladd(x, self.n, -dict(x[0])[nn])) or self.ranged(y)):
            self.state = "unknown" if any(self.ranged(ladd(ix, self.n, -dict(ix[0]).get(nn, 0))) for _, _, _, ix, _, _ in accesses) else "none"; return
        # the number of passes: x = x0 + n against y
        up = dict(x[0])[nn] == 1
        x0 = ladd(x, self.n, -1 if up else 1)
        if pred in ("ult", "slt", "ne") and up: N = ladd(y, x0, -1)
        elif pred in ("ule", "sle") and up: N = ladd(ladd(y, x0, -1), lc(1))
        elif pred in ("ugt", "sgt", "ne") and not up: N = ladd(x0, y, -1)
        else: self.state = "unknown"; return
        want = ladd(self.End, self.B, -1)
        def full(kind="part"):
            d = ladd(N, want, -1)
            return d[0] == () and d[1] == 0
        self.state = "good"
        def report(key, what, i):
            self.state = "bad"; self.bad.setdefault(key, (what, i))
        d = ladd(N, want, -1)
        writes = {}
        for b, i, name, ix, w, rmw in accesses:
            if w: writes.setdefault(name, []).append((b, i, ix, rmw))
        if not writes:
            self.state = "none" if not self.unknownwrites else "unknown"; return
        self.checked += 1
        mine = any(self.ranged(ix) for ws in writes.values() for _, _, ix, _ in ws)
        if not mine:
            self.state = "unknown"; return
        if d[0] or d[1]:
            if not d[0]: report("count", "the loop over a part of a list " + ("stops before the end of the part" if d[1] < 0 else "goes past the end of the part"), c)
            else: report("count", "the loop over a part of a list does not go from the beginning to the end of the part", c)
        for name, ws in writes.items():
            exact = []
            for b, i, ix, rmw in ws:
                if not self.ranged(ix): continue
                dd = ladd(ix, ladd(self.B, self.n), -1)
                self.checked += 1
                if not self.known(dd): self.state = "unknown" if self.state == "good" else self.state; continue
                if dd[0] or dd[1]: report("write", "an entry is written that is not the one of this pass of the loop", i)
                else: exact.append((b, i, rmw))
            if exact and not any(r for _, _, r in exact):
                self.checked += 1
                if self.avoids({b for b, _, _ in exact}): report("left", "an entry can be left without a value", exact[0][1])
        for b, i, name, ix, w, rmw in accesses:
            if w and not rmw or not self.ranged(ix): continue
            dd = ladd(ix, ladd(self.B, self.n), -1)
            self.checked += 1
            if self.known(dd) and (dd[0] or dd[1]): report("read", "an entry is read that is not the one of this pass of the loop", i)
        for b in sorted(self.body):
            if b == self.head: continue
            for s in self.L.succs(fn, b):
                if s not in self.body and not self.ends(s):
                    self.checked += 1
                    report("exit", "the loop over a part of a list can be left before its end", fn.blocks[b][-1])
        for i in self.carried():
            report("carried", "a value from one entry is used for the next", i)
    def bound(self, o): return self.lin_or_addr(o)
    def lin_or_addr(self, o):
        """an integer, or an address as its index"""
        i = self.fn.inst(o) if isinstance(o, int) else None
        a = None
        if i is not None and (i[0] in ("gep", "phi", "call") ):
            e = self.lin(o)
            if any(s[0] == "v" for s, k in e[0]): a = self.addr(o)
            if a is not None: return a[1]
            return e
        return self.lin(o)
    def about(self, x, y): return self.ranged(ladd(x, self.n, -dict(x[0]).get(("n",), 0))) or self.ranged(ladd(y, self.n, -dict(y[0]).get(("n",), 0)))
    def ends(self, b):
        """control does not return to the caller from here"""
        seen, w = set(), [b]
        while w:
            x = w.pop()
            if x in seen: continue
            seen.add(x)
            if self.fn.blocks[x][-1][0] == "ret": return False
            w += self.L.succs(self.fn, x)
        return True
    def avoids(self, blocks):
        """a pass that meets none of the blocks"""
        latches = self.L.latches(self.fn)[self.head]
        seen, w = set(), [s for s in self.L.succs(self.fn, self.head) if s in self.body]
        if self.head in blocks: return False
        while w:
            x = w.pop()
            if x in seen or x in blocks or x not in self.body or x == self.head: continue
            seen.add(x)
            if x in latches: return True
            w += self.L.succs(self.fn, x)
        return False
    def accesses(self):
        """(block, instruction, list, index, written, also read)"""
        out = []
        self.unknownwrites = False
        fn, p = self.fn, self.p
        for b in sorted(self.body):
            for i in fn.blocks[b]:
                if i[0] in ("load", "store"):
                    a = self.addr(i[3] if i[0] == "load" else i[4])
                    if a is None or isinstance(a[0], tuple):
                        if a is None and i[0] == "store": self.unknownwrites = True
                        continue
                    if i[0] == "load" and i[4] == "ptr": continue
                    out.append((b, i, a[0], a[1], i[0] == "store", False))
                elif i[0] == "call":
                    q = next(iter(p.callee_qs(i)), "")
                    if CONTAINERS.match(q) or q.startswith("llvm."): continue
                    tg = self.E.targets(fn, i)
                    written = set()
                    for g in tg:
                        for (a, path) in self.E.of(g):
                            if a[0] == "a": written.add(a[1])
                    rmw = bool(tg)
                    if not tg:
                        for s in p.callees(i):
                            if writes_first(p, s, p.q(s)): written.add(0); rmw = last2(p.q(s)) not in ("operator=", s)
                            elif last2(p.q(s)) == q.split("::")[-2:][0]: written.add(0)
                    if i[8] >= 0: written.add(i[8])
                    for n, o in enumerate(i[4]):
                        if not isinstance(o, int): continue
                        d = fn.inst(o)
                        if d is None or not (d[0] in ("gep", "phi", "call", "alloca")): continue
                        if n >= 1 and not self.pointer(i, n): continue
                        a = self.addr(o)
                        if a is None or isinstance(a[0], tuple): continue
                        out.append((b, i, a[0], a[1], n in written, n in written and rmw and n != i[8]))
        return out
    def pointer(self, i, n):
        d = self.fn.inst(i[4][n])
        if d[0] in ("gep", "alloca"): return True
        if d[0] == "call": return d[7] == "ptr"
        return self.addr(i[4][n]) is not None
    # -- what is carried from one entry to the next
    def tainted(self):
        """values and variables that depend on the entry"""
        fn = self.fn
        t, al = set(), set()
        for b, i, name, ix, w, rmw in self.accesses():
            if i[0] == "load" and self.ranged(ix) and not w: t.add(i[1])
            if i[0] == "call" and self.ranged(ix):
                if i[1] is not None and i[1] >= 0: t.add(i[1])
                if not w: 
                    for n, o in enumerate(i[4]):
                        d = fn.inst(o) if isinstance(o, int) else None
                        if d is not None and d[0] == "alloca" and (n == i[8] or n == 0): al.add(o)
        for _ in range(6):
            size = len(t) + len(al)
            for b in self.body:
                for i in fn.blocks[b]:
                    if i[0] == "load":
                        a = self.addr(i[3])
                        if a and isinstance(a[0], tuple) and a[0][1] in al: t.add(i[1])
                    elif i[0] == "store":
                        if i[3] in t if isinstance(i[3], int) else False:
                            a = self.addr(i[4])
                            if a and isinstance(a[0], tuple): al.add(a[0][1])
                    elif i[0] == "call":
                        use = any(isinstance(o, int) and (o in t or self.cell(o) in al) for o in i[4])
                        if use:
                            if i[1] is not None and i[1] >= 0 and i[7] != "ptr": t.add(i[1])
                            q = next(iter(self.p.callee_qs(i)), "")
                            if i[8] >= 0 and self.cell(i[4][i[8]]) is not None: al.add(self.cell(i[4][i[8]]))
                            if i[4] and self.cell(i[4][0]) is not None and any(writes_first(self.p, s, self.p.q(s)) or last2(self.p.q(s)) in self.p.q(s).split("::")[:-1] for s in self.p.callees(i)): al.add(self.cell(i[4][0]))
                    elif i[0] not in ("br", "switch", "ret"):
                        from prog import operands as ops
                        os = [v for v, q in i[3]] if i[0] == "phi" else ops(i)
                        if any(isinstance(o, int) and o in t for o in os) and i[1] is not None and i[1] >= 0: t.add(i[1])
            if len(t) + len(al) == size: break
        return t, al
    def cell(self, o):
        a = self.addr(o) if isinstance(o, int) else None
        return a[0][1] if a and isinstance(a[0], tuple) else None
    def compares(self, values, cells):
        """an equality test involves one of these: what is carried can be a remembered result"""
        for b in self.body:
            for i in self.fn.blocks[b]:
                if i[0] == "fcmp" and i[3] in ("oeq", "une", "ueq", "one") and any(isinstance(o, int) and o in values for o in i[4:6]): return True
                if i[0] == "call" and any(re.search(r"operator(==|!=)", q) for q in self.p.callee_qs(i)): return True
                if i[0] == "fcmp" and i[3] in ("oeq", "une"):
                    for o in i[4:6]:
                        d = self.fn.inst(o) if isinstance(o, int) else None
                        if d is not None and d[0] == "load" and self.cell(d[3]) in cells: return True
        return False
    def carried(self):
        fn = self.fn
        t, al = self.tainted()
        phis = [i for i in fn.blocks[self.head] if i[0] == "phi" and self.step(i) is None]
        users = fn.users()
        for i in phis:
            back = [v for v, q in i[3] if q in self.body]
            if not any(isinstance(v, int) and v in t for v in back): continue
            if self.compares({x[1] for x in phis}, al): continue
            used, w = set(), [i[1]]
            hit = False
            while w:
                o = w.pop()
                for b, k, u in users.get(o, ()):
                    if b not in self.body: continue
                    if u[0] in ("store", "br") or (u[0] == "call" and u is not i): hit = True
                    if u[1] is not None and u[1] >= 0 and u[1] not in used and not (u[0] == "phi" and b == self.head): used.add(u[1]); w.append(u[1])
            if hit: yield i
        # variables given a value only for some entries
        for a in sorted(al):
            stores, loads = set(), {}
            for b in self.body:
                for i in fn.blocks[b]:
                    if i[0] == "store" and self.cell(i[4]) == a: stores.add(b)
                    elif i[0] == "load" and self.cell(i[3]) == a: loads.setdefault(b, i)
                    elif i[0] == "call":
                        for n, o in enumerate(i[4]):
                            if self.cell(o) == a if isinstance(o, int) else False:
                                if n == i[8] or (n == 0 and any(writes_first(self.p, s, self.p.q(s)) or last2(self.p.q(s)) in self.p.q(s).split("::")[:-1] for s in self.p.callees(i))): stores.add(b)
                                elif "~" in next(iter(self.p.callee_qs(i)), "") or next(iter(self.p.callee_qs(i)), "").startswith("llvm."): pass
                                else: loads.setdefault(b, i)
            if not stores or not loads: continue
            if self.compares({x[1] for x in phis}, al): continue
            late = self.read_first(a)
            if late is not None:
                yield late; continue
            for b in self.body:
                z = fn.blocks[b][-1]
                if z[0] != "br" or z[3] is None or z[3] not in t: continue
                x, y = z[4]
                for s1, s2 in ((x, y), (y, x)):
                    if s1 not in self.body or s2 not in self.body: continue
                    r1, r2 = self.reach(s1), self.reach(s2)
                    if r1 & stores and not r2 & stores and any(l in r2 and l not in stores for l in loads) and b not in stores and not self.before(stores, b):
                        yield next(loads[l] for l in loads if l in r2)
    def uses(self, a):
        """{block: [(read or written, instruction)]} of a variable"""
        out = {}
        for b in self.body:
            for i in self.fn.blocks[b]:
                if i[0] == "store" and self.cell(i[4]) == a: out.setdefault(b, []).append(("w", i))
                elif i[0] == "load" and self.cell(i[3]) == a: out.setdefault(b, []).append(("r", i))
                elif i[0] == "call":
                    q = next(iter(self.p.callee_qs(i)), "")
                    if "~" in q or q.startswith("llvm.lifetime"): continue
                    for n, o in enumerate(i[4]):
                        if not isinstance(o, int) or self.cell(o) != a: continue
                        wr = n == i[8] or (n == 0 and any(writes_first(self.p, s, self.p.q(s)) or last2(self.p.q(s)) in self.p.q(s).split("::")[:-1] for s in self.p.callees(i)))
                        out.setdefault(b, []).append(("w" if wr else "r", i))
        return out
    def read_first(self, a):
        """a read that comes before the write of the same pass"""
        uses = self.uses(a)
        seen, w = set(), [s for s in self.L.succs(self.fn, self.head) if s in self.body]
        while w:
            b = w.pop()
            if b in seen or b not in self.body or b == self.head: continue
            seen.add(b)
            us = uses.get(b, [])
            if us and us[0][0] == "r":
                if any(k == "w" for k, _ in us): return us[0][1]
                nxt = set()
                for s in self.L.succs(self.fn, b): nxt |= self.reach(s)
                if any(k == "w" for x in nxt - {b} for k, _ in uses.get(x, ())): return us[0][1]
            if not any(k == "w" for k, _ in us): w += self.L.succs(self.fn, b)
    def reach(self, b):
        seen, w = set(), [b]
        while w:
            x = w.pop()
            if x in seen or x not in self.body or x == self.head: continue
            seen.add(x); w += self.L.succs(self.fn, x)
        return seen
    def before(self, blocks, b):
        """every path from the head to b meets one of the blocks"""
        seen, w = set(), [s for s in self.L.succs(self.fn, self.head) if s in self.body]
        while w:
            x = w.pop()
            if x in seen or x in blocks or x == self.head or x not in self.body: continue
            if x == b: return False
            seen.add(x); w += self.L.succs(self.fn, x)
        return True

class Covers(Client):
    """prop = the part has been dealt with"""
    interesting = set()
    max_depth = 1
    str_depth = 0
    def __init__(self, p, heads, exact, fn): self.p, self.heads, self.exact, self.fn = p, heads, exact, fn
    def branch(self, ip, st, fn, inst, truth):
        if fn is self.fn and any(inst is fn.blocks[h][-1] for h in self.heads): st.prop = True
        return True
    def load(self, ip, st, fn, inst, ptr):
        if ptr and ptr[0] == "p" and ptr[1][0] == "elts" and (ptr[1], ptr[2]) not in st.mem:
            st.mem[(ptr[1], ptr[2])] = ("sym", "elt", ptr[1])
    def call(self, ip, st, fn, inst, qs, args):
        q = next(iter(qs), "")
        ns = st.copy()
        if q == "dsAssert_": return [(ns, None, "noreturn")]
        if CONTAINERS.match(q) and last2(q) in ("operator[]", "at") and len(inst[4]) == 2 and args[1] and args[1][0] == "c" and isinstance(inst[4][0], dict) and "a" in inst[4][0]:
            return [(ns, ("p", ("elts", inst[4][0]["a"], args[1][1]), ()), "ret")]
        if any(inst is i for i in self.exact):
            ns.prop = True
            return [(ns, None, "ret")]
        if re.search(r"basic_string::(operator\+=|append|operator=|assign)$", q):
            ns.prop = True      # the error is reported
        return [(ns, None, "ret")]
    def inline_args(self, ip, st, fn, inst, g, args): return False

def check_ranges(r):
    p = load()
    c = chains(p, r)
    L = Lengths(p, None)
    E = Effects(p, c.edges)
    for n, (B, End) in sorted(c.ctx.items()):
        fn = p.fns[n]
        r.count("functions that work on a part of a list")
        heads, shapes = set(), []
        for h, body in sorted(L.loopbody(fn).items()):
            lp = Loop(p, L, E, fn, h, body, B, End)
            lp.check()
            if lp.state == "none": continue
            heads.add(h)
            r.count({"good": "loops over a part verified", "bad": "loops over a part refuted", "unknown": "not decided: loops over a part"}[lp.state])
            r.count("index obligations", lp.checked)
            if lp.state == "bad":
                for key, (what, i) in sorted(lp.bad.items()): r.add(f"range:{fn.q}:{key}", what, f"{fn.where(i)} {fn.q}")
        exact = [i for b, i in c.calls.get(n, ())]
        x, y = B[1], End[1]
        other = False
        for b, k, i in fn.calls():
            if any(i is e for e in exact): continue
            lins = []
            lp = Loop(p, L, E, fn, -1, set(), B, End)
            for o in i[4]:
                v = lp.lin(o) if isinstance(o, (int, dict)) else None
                if v is not None and (dict(v[0]).get(B) or dict(v[0]).get(End)): lins.append(v)
                else:
                    a = lp.addr(o) if isinstance(o, int) else None
                    if a is not None and dict(a[1][0]).get(End): lins.append(a[1])
            tg = E.targets(fn, i)
            if not lins: continue
            q = next(iter(p.callee_qs(i)), "")
            if CONTAINERS.match(q) and last2(q) in ("operator[]", "at", "operator="): continue
            if tg and any(g.n in c.ctx for g in tg) and len(lins) == 2 and all(not s[0] or all(k2 in (B, End) for k2, _ in s[0]) for s in lins) and lins != [ls(B), ls(End)]:
                r.add(f"range:{fn.q}:handed", "the part that is handed on is not the part that was given", f"{fn.where(i)} {fn.q}")
            other = True
            exact.append(i)
        # every way to return deals with the part
        cl = Covers(p, heads, exact, fn)
        st = start(fn, False)
        left = None
        for s, v, kind, tr in Interp(p, cl).run(fn, st):
            r.count("paths of the functions that work on a part")
            if kind == "ret" and not s.prop: left = tr
        if left is not None:
            r.add(f"range:{fn.q}:skipped", "the entries of a part can be left without a value", f"{fn.where()} {fn.q}", trace_lines(left) if callable(trace_lines) else None)
    for n, f in sorted(c.roots.items()):
        calls = [i for b, i in c.calls.get(n, ())]
        if not calls: continue
        r.count("functions that start in a thread")
        cl = Covers(p, set(), calls, f)
        left = None
        for s, v, kind, tr in Interp(p, cl).run(f, start(f, False)):
            if kind == "ret" and not s.prop: left = tr
        if left is not None: r.add(f"range:{f.q}:skipped", "the entries of a part can be left without a value", f"{f.where()} {f.q}")

# ---------------------------------------------------------------------------------------------------
class Recorder(Client):
    """a function that works on a part in a thread; prop = (evaluated, exceptions recorded)"""
    interesting = set()
    max_depth = 3
    str_depth = 0
    def __init__(self, exact): self.exact, self.fields = exact, set()
    def inline_args(self, ip, st, fn, inst, g, args): return g.q.split("::")[:-1] == fn.q.split("::")[:-1] and len(g.blocks) < 30
    def call(self, ip, st, fn, inst, qs, args):
        q, ns = next(iter(qs), ""), st.copy()
        if any(inst is i for i in self.exact):
            ns.prop = (True, False)
            return [(ns, None, "ret")]
        if q == "FPECheck::getFPEFlags": return [(ns, ("tag", "flags", st.prop[0]), "ret")]
    def store(self, ip, st, fn, inst, v, ptr):
        if v and v[0] == "tag" and v[1] == "flags" and v[2] and ptr and ptr[0] == "p" and ptr[1] == ("arg", 0) and ptr[2]:
            self.fields.add(ptr[2][-1])
            st.prop = (st.prop[0], True)

class Joins(Client):
    """prop = (exceptions joined, errors joined)"""
    interesting = set()
    max_depth = 4
    str_depth = 0
    def __init__(self, fpe): self.fpe = fpe
    def side(self, v):
        """the object a place is in, and the field"""
        if v and v[0] == "p" and v[1] in (("arg", 0), ("arg", 1)) and v[2]: return v[1][1], v[2][-1]
    def inline_args(self, ip, st, fn, inst, g, args): return g.q.startswith("FPECheck::") or g.q.split("::")[:-1] == fn.q.split("::")[:-1]
    def load(self, ip, st, fn, inst, ptr):
        s = self.side(ptr)
        if s and s[1] in self.fpe and (ptr[1], ptr[2]) not in st.mem: return ("tag", "fpe", frozenset({s[0]}))
    def op(self, ip, st, fn, inst, a, b):
        if inst[0] == "bin" and inst[3] == "or":
            x = frozenset().union(*(v[2] for v in (a, b) if v and v[0] == "tag" and v[1] == "fpe"))
            if x: return ("tag", "fpe", x)
    def store(self, ip, st, fn, inst, v, ptr):
        s = self.side(ptr)
        if s and s[0] == 0 and s[1] in self.fpe:
            st.prop = (bool(v and v[0] == "tag" and v[1] == "fpe" and v[2] >= {0, 1}), st.prop[1])
            if v is None or v[0] != "tag": st.prop = (True if v is None else False, st.prop[1])
    def call(self, ip, st, fn, inst, qs, args):
        q, ns = next(iter(qs), ""), st.copy()
        if q.startswith("std::") and args:
            l = last2(q)
            s = [self.side(a) for a in args]
            strings = len(args) >= 2 and s[0] and s[1] and s[0][0] != s[1][0] and s[0][1] == s[1][1]
            if strings and l in ("operator==", "operator!="): return [(ns, ("sym", "same" if l == "operator==" else "differ"), "ret")]
            if strings and s[0][0] == 0 and l in ("operator+=", "append"):
                ns.prop = (ns.prop[0], True)
                return [(ns, args[0], "ret")]
            if l == "empty" and s[0] and s[0][0] == 1: return [(ns, ("sym", "same"), "ret")]
            return [(ns, None, "ret")]
    def assume(self, ip, st, val, truth):
        if val == ("sym", "same") and truth or val == ("sym", "differ") and not truth: st.prop = (st.prop[0], True)
        return True

def getters(p, cls):
    """{function: field} of the members of a class that give one of its fields"""
    out = {}
    for f in p.fns.values():
        if f.q.split("::")[:-1] != cls.split("::") or len(f.blocks) > 2: continue
        for b, i in f.exits():
            o = i[3]
            x = f.inst(o) if isinstance(o, int) else None
            if x is not None and x[0] == "load": x = f.inst(x[3])
            if x is not None and x[0] == "gep" and x[3] == {"a": 0} and len(x[5]) == 1: out[f.n] = x[5][0]
    return out

class After:
    """what follows the loop that starts the threads"""
    def __init__(self, p, L, sp):
        self.p, self.L, self.sp, self.fn = p, L, sp, sp.fn
        bodies = [(len(bs), h, bs) for h, bs in L.loopbody(self.fn).items() if sp.block in bs]
        self.ok = bool(bodies)
        if not self.ok: return
        n, self.head, self.body = min(bodies)
        self.exits = sorted({s for b in self.body for s in L.succs(self.fn, b) if s not in self.body})
    def reach(self, start, avoid=(), edges=()):
        seen, w = set(), [b for b in start]
        while w:
            b = w.pop()
            if b in seen or b in avoid: continue
            seen.add(b)
            w += [s for s in self.L.succs(self.fn, b) if (b, s) not in edges]
        return seen
    def returns(self, seen): return any(self.fn.blocks[b][-1][0] == "ret" for b in seen)
    def calls(self, rx):
        return [(b, i) for b, k, i in self.fn.calls() if any(re.search(rx, q) for q in self.p.callee_qs(i))]
    def loopof(self, b):
        hs = [(len(bs), h) for h, bs in self.L.loopbody(self.fn).items() if b in bs and h != self.head]
        return min(hs)[1] if hs else None
    def every(self, h, blocks):
        """each pass of a loop meets one of the blocks"""
        body, latches = self.L.loopbody(self.fn)[h], self.L.latches(self.fn)[h]
        seen, w = set(), [s for s in self.L.succs(self.fn, h) if s in body]
        if h in blocks: return True
        while w:
            b = w.pop()
            if b in seen or b in blocks or b not in body: continue
            if b in latches: return False
            seen.add(b); w += self.L.succs(self.fn, b)
        return True
    def early(self, h):
        body = self.L.loopbody(self.fn)[h]
        for b in body:
            if b == h: continue
            for s in self.L.succs(self.fn, b):
                if s not in body and self.returns(self.reach([s])): return self.fn.blocks[b][-1]
    def whole(self, h):
        """a loop goes over a whole container: True, False, None when not recognised"""
        fn, p = self.fn, self.p
        body = self.L.loopbody(fn)[h]
        t = fn.blocks[h][-1]
        c = fn.inst(t[3]) if t[0] == "br" and isinstance(t[3], int) else None
        if c is None: return None
        if c[0] == "icmp":
            lp = Loop(p, self.L, None, fn, h, body, ("a", -1), ("a", -2))
            x, y = lp.lin(c[4]), lp.lin(c[5])
            if x[0] == ((("n",), 1),) and c[3] in ("ult", "ne", "ule", "slt"):
                z = fn.inst(y[0][0][0][1]) if len(y[0]) == 1 and y[0][0][1] == 1 and y[0][0][0][0] == "v" else None
                if z is not None and z[0] == "call" and any(last2(q) == "size" for q in p.callee_qs(z)): return x[1] == 0 and y[1] == (-1 if c[3] == "ule" else 0)
            return None
        if c[0] == "call" and any(last2(q) in ("operator!=", "operator==") for q in p.callee_qs(c)):
            kinds = []
            for o in c[4]:
                vals = [u[3] for _, _, u in fn.users().get(o, ()) if u[0] == "store" and u[4] == o]
                for _, _, g in fn.users().get(o, ()):
                    if g[0] == "gep" and g[3] == o: vals += [u[3] for ub, _, u in fn.users().get(g[1], ()) if u[0] == "store" and u[4] == g[1] and ub not in body]
                src = [next(iter(p.callee_qs(fn.inst(v))), "") if isinstance(v, int) and fn.inst(v) is not None and fn.inst(v)[0] == "call" else "" for v in vals]
                if len(src) != 1: return None
                kinds.append(last2(src[0]))
            if sorted(k.lstrip("c") for k in kinds) == ["begin", "end"]: return True
            if any(k in ("operator+", "operator-", "next", "prev") for k in kinds): return False
        return None

def check_records(r):
    p = load()
    c = chains(p, r)
    L = Lengths(p, None)
    E = Effects(p, c.edges)
    fpe = {}
    # the exceptions of a part are put on its record
    for n in sorted(c.ctx):
        f = p.fns[n]
        exact = [i for b, i in c.calls.get(n, ())]
        if not exact or not f.calls() : continue
        if not any("FPECheck::getFPEFlags" in p.callee_qs(i) for _, _, i in f.calls()) : continue
        cl = Recorder(exact)
        lost = False
        for s, v, kind, tr in Interp(p, cl).run(f, start(f, (False, False))):
            r.count("paths of the functions that record exceptions")
            if kind == "ret" and s.prop == (True, False): lost = True
        r.count("functions that record the exceptions of a part")
        cls = "::".join(f.q.split("::")[:-1])
        fpe.setdefault(cls, set()).update(cl.fields)
        if lost: r.add(f"record:{f.q}", "the floating point exceptions of a part are not recorded after its evaluation", f"{f.where()} {f.q}")
    seen = set()
    for sp in c.spawns:
        fn = sp.fn
        if not sp.known(): continue
        # the record is reached from the thread
        reached, w = set(), [f.n for f in sp.roots]
        while w:
            n = w.pop()
            if n in reached: continue
            reached.add(n)
            w += [g.n for i2, g in c.edges.get(n, ()) if any(i2 is i for b, i in c.calls.get(n, ()))]
        rec = {"::".join(p.fns[n].q.split("::")[:-1]) for n in reached if any("FPECheck::getFPEFlags" in p.callee_qs(i) for _, _, i in p.fns[n].calls())}
        r.count("threads followed to their record")
        if not rec:
            r.add(f"norecord:{fn.q}", "the floating point exceptions of a part are lost with its thread", f"{fn.where(sp.inst)} {fn.q}"); continue
        cls = sorted(rec)[0]
        get = getters(p, cls)
        a = After(p, L, sp)
        if not a.ok: continue
        # waiting
        waits = [(b, i) for b, i in a.calls(r"^std::(future|shared_future|__basic_future|thread|jthread)::(get|wait|join)$") if b not in a.body]
        joins = []
        for b, k, i in fn.calls():
            for s in p.callees(i):
                g = p.resolve(s)
                if g is not None and g.q.startswith(cls + "::") and len(g.aty) == 2 and g.aty[1] == "ptr" and last2(g.q) != last2(cls): joins.append((b, i, g))
        joins = [(b, i, g) for b, i, g in joins if b not in a.body and b in a.reach(a.exits)]
        def v(key, what, i): r.add(f"{key}:{fn.q}", what, f"{fn.where(i)} {fn.q}")
        hw = None
        if waits:
            hw = {a.loopof(b) for b, i in waits}
            if None not in hw:
                for h in hw:
                    r.count("loops that wait for the parts")
                    if not a.every(h, {b for b, i in waits}): v("wait", "a thread can be left without waiting for it", waits[0][1])
                    if a.whole(h) is False: v("wait", "a thread is left without waiting for it", waits[0][1])
                    e = a.early(h)
                    if e is not None: v("wait", "a thread can be left without waiting for it", e)
                if a.returns(a.reach(a.exits, avoid=hw)): v("wait", "the threads can be left without waiting for them", waits[0][1])
        if joins:
            if waits and None not in hw:
                before = a.reach(a.exits, avoid=hw)
                if any(b in before for b, i, g in joins): v("order", "the record of a part is read before its thread has ended", joins[0][1])
            elif not waits and not a.calls(r"^std::vector::(clear|~vector)$"):
                v("order", "the record of a part is read before its thread has ended", joins[0][1])
            elif not waits:
                cleared = {b for b, i in a.calls(r"^std::vector::clear$")}
                if any(b in a.reach(a.exits, avoid=cleared) for b, i, g in joins): v("order", "the record of a part is read before its thread has ended", joins[0][1])
            hj = {a.loopof(b) for b, i, g in joins}
            if None not in hj:
                for h in hj:
                    r.count("loops that join the records of the parts")
                    if not a.every(h, {b for b, i, g in joins}) or a.whole(h) is False: v("join", "the record of a part can be left out", joins[0][1])
                    e = a.early(h)
                    if e is not None: v("join", "the record of a part can be left out", e)
                if a.returns(a.reach(a.exits, avoid=hj)): v("join", "the records of the parts can be left out", joins[0][1])
            for b, i, g in joins:
                if (g.n, cls) in seen: continue
                seen.add((g.n, cls))
                strings = any(last2(q) in ("operator+=", "append") for _, _, x in g.calls() for q in p.callee_qs(x)) or string_field(p, cls)
                cl = Joins(fpe.get(cls, set()))
                r.count("functions that join two records")
                for s, val, kind, tr in Interp(p, cl).run(g, start(g, (False, False))):
                    if kind != "ret": continue
                    r.count("paths of the functions that join two records")
                    if not s.prop[0] and fpe.get(cls): r.add(f"joined:{g.q}:fpe", "the floating point exceptions of a part are lost when the records are joined", f"{g.where()} {g.q}")
                    if strings and not s.prop[1]: r.add(f"joined:{g.q}:errors", "the errors of a part are lost when the records are joined", f"{g.where()} {g.q}")
            # what the joined record says
            uses = {}
            for b, k, i in fn.calls():
                for s in p.callees(i):
                    if s in get: uses.setdefault(get[s], []).append((b, i))
            start_at = a.exits
            raised = {b for b, i in a.calls(r"^FPECheck::raiseFPE$") if b not in a.body}
            edges = set()
            for b, i in a.calls(r"^FPECheck::CheckFPE$"):
                for _, _, u in fn.users().get(i[1], ()):
                    if u[0] == "br" and u[3] == i[1]:
                        bb = next(n for n, bl in enumerate(fn.blocks) if bl[-1] is u)
                        edges.add((bb, u[4][1]))
            r.count("reports of the exceptions of the parts")
            if a.returns(a.reach(start_at, avoid=raised, edges=edges)): v("raise", "the floating point exceptions of the parts can be lost", fn.blocks[a.head][-1])
            sf = string_field(p, cls)
            if sf:
                got = {b for b, i in uses.get(sf, ())} | {b for b, bl in enumerate(fn.blocks) for i in bl if i[0] == "gep" and i[5] and i[5][-1] == sf}
                r.count("reports of the errors of the parts")
                if got and a.returns(a.reach(start_at, avoid=got)) or not got: v("errors", "the errors of the parts can be lost", fn.blocks[a.head][-1])
        else:
            r.count("not decided: records of the parts")

def string_field(p, cls):
    """the field of a class that is a text the parts add to"""
    for f in p.fns.values():
        if not f.q.startswith(cls + "::"): continue
        for b, k, i in f.calls():
            q = next(iter(p.callee_qs(i)), "")
            if re.match(r"std::__cxx11::basic_string::(~?basic_string)$", q) and i[4]:
                x = f.inst(i[4][0]) if isinstance(i[4][0], int) else None
                if x is not None and x[0] == "gep" and x[3] == {"a": 0} and x[5]: return x[5][-1]
    return None

# ---------------------------------------------------------------------------------------------------
def check_order(r):
    """the arguments of a function of mathematics are given in their order, with lists and with single values"""
    p = load()
    c = chains(p, r)
    L = Lengths(p, None)
    classes = {"::".join(p.fns[n].q.split("::")[:-1]) for n in c.ctx}
    for f in sorted(p.fns.values(), key=lambda f: f.n):
        if "::".join(f.q.split("::")[:-1]) not in classes: continue
        for b, k, i in f.calls():
            qs = p.callee_qs(i)
            if not ("i" in i[3] or any(re.search(r"(^|::)pow$", q) for q in qs)): continue
            args = [o for n, o in enumerate(i[4]) if n != i[8]]
            if len(args) < 2: continue
            loops = [(len(bs), h, bs) for h, bs in L.loopbody(f).items() if b in bs]
            n, h, body = min(loops) if loops else (0, -1, set())
            lp = Loop(p, L, None, f, h, body, ("a", -1), ("a", -2))
            got = [origin(p, f, lp, o) for o in args]
            if any(g is None for g in got):
                r.count("not decided: arguments of a call of a function of mathematics"); continue
            r.count("calls of a function of mathematics with its arguments in order")
            if got != list(range(len(args))):
                r.add(f"order:{f.q}", f"a function of mathematics gets its arguments in the order {got}", f"{f.where(i)} {f.q}")

def origin(p, f, lp, o, k=0):
    """which argument of the function a value is"""
    i = f.inst(o) if isinstance(o, int) else None
    if i is None or k > 8: return None
    if i[0] == "load":
        a = lp.addr(i[3])
        if a is None: return None
        name, ix = a
        if isinstance(name, tuple): return ix[1] if not ix[0] and p_array(f, name[1]) else origin(p, f, lp, i[3], k + 1)
        m = re.match(r"^\*+a\d+\[(\d+)\]$", name)
        if m: return int(m.group(1))
        if re.match(r"^a\d+$", name) and not ix[0]: return ix[1]
        return None
    if i[0] == "cast": return origin(p, f, lp, i[4], k + 1)
    if i[0] == "call":
        q = next(iter(p.callee_qs(i)), "")
        if CONTAINERS.match(q):
            a = lp.addr(o)
            if a is None or isinstance(a[0], tuple): return None
            m = re.match(r"^\*+a\d+\[(\d+)\]$", a[0])
            if m: return int(m.group(1))
            return a[1][1] if re.match(r"^a\d+$", a[0]) and not a[1][0] else None
        if last2(q) in ("convert_to", "operator int", "operator double") or q.startswith("llvm.fpto"): return origin(p, f, lp, i[4][0], k + 1)
        return None
    if i[0] in ("phi", "gep"):
        a = lp.addr(o)
        if a is None: return None
        if isinstance(a[0], tuple): return a[1][1] if not a[1][0] and p_array(f, a[0][1]) else None
        m = re.match(r"^\*+a\d+\[(\d+)\]$", a[0])
        return int(m.group(1)) if m else None
    if i[0] == "alloca":
        src = [u[4][1] for ub, _, u in f.users().get(o, ()) if u[0] == "call" and len(u[4]) > 1 and u[4][0] == o and (any(last2(q) in q.split("::")[:-1] or last2(q) == "operator=" for q in p.callee_qs(u)) or any(s.startswith("llvm.memcpy") for s in p.callees(u)))]
        if len(src) == 1: return origin(p, f, lp, src[0], k + 1)
    return None
def p_array(f, o):
    i = f.inst(o)
    return i is not None and i[0] == "alloca" and re.match(r"^\[\d+ x", i[3])

def check_threads(r):
    check_partition(r); check_ranges(r); check_shared(r); check_records(r); check_order(r)
    r.need("calls that start a thread", 1)
    r.need("functions threads can reach", 10)
    r.explain = ("Parts: the loop that starts the threads is interpreted over predicates between its variables and the length of the list, with linear constraints for the branches and the arithmetic; each part must begin where the one before it ends, end within the list, and the last must end with it. "
                 "Entries: in every function that gets a part, the index of each access is an affine function of the pass of the loop; it must be that of the pass, for the passes of the part only, on every path. "
                 "Sharing: the places written by all functions reached from a thread (through function tables too) are followed to globals and to what the object of the thread refers to. "
                 "Records: every thread is waited for before its record is read, all records are joined, and errors and floating point exceptions of the joined record are reported.")
    r.assumptions += ["lists have fewer than 2^48 entries", "library containers and atomics behave as documented", "functions of mathematics without source here (libm) are reentrant"]
