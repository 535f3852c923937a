"""Path-sensitive property simulation (ESP) over the SSA form.

A state is (env, mem, prop): what is known about live SSA values, about
tracked memory (fields and locals holding constants, strings known to be
empty, non-empty or a literal), and the automaton state of the rule.  States
that agree are merged, calls to repository functions that matter to the rule
are analysed in place (summaries are memoised per entry state), everything
else is opaque.  No solver: branches are correlated only through equal
symbols and constants."""
import re
from collections import deque
from prog import operands, strip_templates

TRUE, FALSE = ("c", 1), ("c", 0)
STR = "$str"

class Budget(Exception):
    pass

def split_params(dem):
    """parameter types of a demangled signature, and whether it is a const method"""
    d = 0
    # find the '(' that opens the parameter list: the last top level one
    depth = 0; start = -1; end = -1
    i = len(dem) - 1
    const = False
    s = dem = dem.replace("[abi:cxx11]", "")
    m = re.search(r"\)( const)?( &|&&)?( \[clone[^\]]*\])?$", s)
    if not m: return None, False
    const = bool(m.group(1))
    end = m.start()
    depth = 0
    for i in range(end, -1, -1):
        c = s[i]
        if c == ")": depth += 1
        elif c == "(":
            depth -= 1
            if depth == 0: start = i; break
    if start < 0: return None, const
    inner = s[start + 1:end]
    out, d, cur = [], 0, ""
    for c in inner:
        if c in "<([{": d += 1
        elif c in ">)]}": d -= 1
        if c == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out, const

class State:
    __slots__ = ("env", "mem", "prop")
    def __init__(self, env=None, mem=None, prop=()):
        self.env, self.mem, self.prop = env or {}, mem or {}, prop
    def copy(self):
        return State(dict(self.env), dict(self.mem), self.prop)
    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), self.prop)

class Client:
    """One rule: override what it observes."""
    interesting = set()      # qualified names that make a callee worth analysing
    max_depth = 8
    max_states = 60000
    str_blocks = 60          # size and depth up to which string helpers are analysed
    str_depth = 3
    numbers = False          # constants that are not integers have values ("d", text)
    split = False            # go on both ways at a choice between two values
    unwind = False           # follow exceptional edges of calls that may_throw
    def call(self, ip, st, fn, inst, qs, args): return None
    def branch(self, ip, st, fn, inst, truth): return True
    def may_throw(self, fn, inst, qs): return False
    def load(self, ip, st, fn, inst, ptr): return None
    def store(self, ip, st, fn, inst, val, ptr): return None      # True: done, nothing else is recorded
    def inline_args(self, ip, st, fn, inst, callee, args): return None   # True/False/None=default
    def op(self, ip, st, fn, inst, a, b): return None                    # the value of an operation the engine has none for
    def fcmp(self, ip, st, fn, inst, a, b): return None                  # the value of a comparison of two numbers
    def assume(self, ip, st, val, truth): return True                    # a condition with such a value was decided
    def index(self, ip, st, fn, inst, v): return None      # the path step for an array index that is known
    def phi(self, ip, st, fn, inst, pred, v): return v                   # what a variable is at a join
    def unary(self, ip, st, fn, inst, a): return None                    # the value of an operation on one number
    str_limit = 48                                                        # literals are put together up to this length
    keep_syms = False                                                     # symbols keep their names when a function returns them

class Interp:
    def __init__(self, prog, client):
        self.p, self.c = prog, client
        self.memo, self.active = {}, []
        self.reach = self._reach(client.interesting)
        self.analysed = set()
        self.nstates = 0
        self._sig, self._live, self._allive = {}, {}, {}
        self.call_sites = 0
    # -- which functions can reach something interesting
    def _reach(self, names):
        p = self.p
        if not names: return set()
        callers = p.callers()
        work = [s for s in p.dem if p.q(s) in names] + [s for s in p.fns if p.q(s) in names]
        seen = set(work)
        refs = getattr(p, "_refs", None)
        if refs is None:
            refs = {}
            for f in p.fns.values():
                for s in p.addr_taken(f): refs.setdefault(s, []).append(f)
            p._refs = refs
        while work:
            s = work.pop()
            fs = {f.n for f, b, k, i in callers.get(s, ())} | {f.n for f in refs.get(s, ())}
            for n in fs:
                for v in variants(n):
                    if v not in seen:
                        seen.add(v); work.append(v)
        return seen
    def sig(self, sym):
        r = self._sig.get(sym)
        if r is None:
            d = self.p.dem.get(sym, sym)
            r = self._sig[sym] = split_params(d)
        return r
    # -- liveness of SSA values at block entry
    def live(self, fn):
        L = self._live.get(fn.n)
        if L is not None: return L
        nb = len(fn.blocks)
        use, defs, phiuse = [set() for _ in range(nb)], [set() for _ in range(nb)], [dict() for _ in range(nb)]
        def ids(o):
            if isinstance(o, int): yield o
            elif isinstance(o, dict) and "ge" in o: yield from ids(o["ge"])
        for b, insts in enumerate(fn.blocks):
            for i in insts:
                if i[0] == "phi":
                    for v, pb in i[3]:
                        for x in ids(v): phiuse[pb].setdefault(b, set()).add(x)
                else:
                    for o in operands(i):
                        for x in ids(o):
                            if x not in defs[b]: use[b].add(x)
                if i[1] is not None and i[1] >= 0: defs[b].add(i[1])
        livein = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in range(nb - 1, -1, -1):
                out = set()
                for s in fn.succs(b, True):
                    out |= livein[s]
                    out |= phiuse[b].get(s, set())
                n = use[b] | (out - defs[b])
                if n != livein[b]: livein[b] = n; ch = True
        self._live[fn.n] = livein
        return livein
    def alloca_live(self, fn):
        """alloca id -> blocks from which a use of it (or of a pointer into it) is reachable"""
        A = self._allive.get(fn.n)
        if A is not None: return A
        A = {}
        us = fn.users()
        preds = {}
        for b in range(len(fn.blocks)):
            for s in fn.succs(b, True): preds.setdefault(s, []).append(b)
        for i in fn.blocks[0]:
            if i[0] != "alloca": continue
            seen, work, blocks = {i[1]}, [i[1]], set()
            esc = False
            while work:
                v = work.pop()
                for b, k, u in us.get(v, ()):
                    blocks.add(b)
                    if u[0] in ("gep", "cast", "phi", "select") and u[1] not in seen:
                        seen.add(u[1]); work.append(u[1])
                    if u[0] == "store" and u[3] == v: esc = True
            if esc: continue
            reach, w = set(blocks), list(blocks)
            while w:
                b = w.pop()
                for q in preds.get(b, ()):
                    if q not in reach: reach.add(q); w.append(q)
            A[i[1]] = reach
        self._allive[fn.n] = A
        return A
    # -- values
    def val(self, st, fn, o, frame):
        if isinstance(o, int):
            return st.env.get((frame, o))
        if isinstance(o, dict):
            if "a" in o: return st.env.get((frame, "a%d" % o["a"]))
            if "c" in o: return ("c", o["c"])
            if "s" in o: return ("s", o["s"])
            if "f" in o: return ("f", o["f"])
            if "g" in o: return ("p", ("g", o["g"]), ())
            if "n" in o or "z" in o: return ("c", 0)
            if "d" in o and self.c.numbers: return ("d", o["d"])
            if "ge" in o:
                v = self.val(st, fn, o["ge"], frame)
                return None
        return None
    def subst(self, st, sym, val):
        """sym becomes val everywhere"""
        st.mem.pop((("fact", sym), ()), None)
        neg = ("not", sym)
        nval = None
        if val is not None and val[0] == "c": nval = FALSE if val[1] else TRUE
        elif val == ("nn",): nval = FALSE
        for d in (st.env, st.mem):
            for k in [k for k, v in d.items() if v == sym or v == neg]:
                v = val if d[k] == sym else nval
                if v is None: del d[k]
                else: d[k] = v
    def drop_facts(self, st):
        """forget what is known about symbols that nothing refers to any more"""
        fs = [k for k in st.mem if k[0][0] == "fact"]
        if not fs: return
        have = set()
        for d in (st.env, st.mem):
            for v in d.values():
                while v and v[0] in ("not", "iseq"): v = v[1]
                if v and v[0] == "sym": have.add(v)
        for k in fs:
            if k[0][1] not in have: del st.mem[k]
    def setstr(self, st, loc, v):
        """the string at loc changes: forget relations on its old content"""
        k = (loc[1], loc[2] + (STR,))
        for d in (st.env, st.mem):
            for kk in [kk for kk, x in d.items() if x and ((x[0] in ("emptyof", "eqof") and x[1] == k) or (x[0] == "not" and x[1][0] in ("emptyof", "eqof") and x[1][1] == k))]:
                del d[kk]
        if v is None: st.mem.pop(k, None)
        else: st.mem[k] = v
    def getstr(self, st, v):
        if v is None: return None
        if v[0] == "s": return v
        if v[0] == "p": return st.mem.get((v[1], v[2] + (STR,)))
        return None
    def refine(self, st, sym, truth):
        """assume a boolean symbol; False when that is contradictory"""
        if sym is None: return True
        if sym[0] == "c": return bool(sym[1]) == truth
        if sym[0] == "not": return self.refine(st, sym[1], not truth)
        if sym[0] == "emptyof":
            k = sym[1]
            cur = st.mem.get(k)
            if truth: st.mem[k] = ("s", "")
            elif cur is None: st.mem[k] = ("nonempty",)
        elif sym[0] == "eqof":
            if truth: st.mem[sym[1]] = ("s", sym[2])
        elif sym[0] == "iseq":       # (iseq, sym, const)
            if truth: self.subst(st, sym[1], ("c", sym[2]))
            elif sym[2] == 0 and sym[1][:2] != ("sym", "tag"): self.subst(st, sym[1], ("nn",))
            elif sym[1][0] == "sym":
                k = (("fact", sym[1]), ())
                old = st.mem.get(k)
                st.mem[k] = ("ne", tuple(sorted(set(old[1] if old else ()) | {sym[2]})))
        elif not self.c.assume(self, st, sym, truth): return False
        self.subst(st, sym, TRUE if truth else FALSE)
        return True
    def havoc_obj(self, st, ptr, keep_prefix=None):
        if ptr is None or ptr[0] != "p": return
        o, path = ptr[1], ptr[2]
        for k in [k for k in st.mem if k[0] == o and k[1][:len(path)] == path]:
            if k[1] and k[1][-1] == STR:
                self.setstr(st, ("p", k[0], k[1][:-1]), None)
            st.mem.pop(k, None)
    # -- run a function from one state; returns list of (state, retval, kind)
    def run(self, fn, st, depth=0, trace=None):
        c = self.c
        frame = depth
        self.analysed.add(fn.n)
        live, alive = self.live(fn), self.alloca_live(fn)
        argvals = {k: v for k, v in st.env.items() if k[0] == frame}
        outer = {k: v for k, v in st.env.items() if k[0] != frame}
        start = (0, State(dict(st.env), dict(st.mem), st.prop))
        seen = {}
        work = deque()
        results = []
        def prune(b, s):
            lv = live[b]
            for k in [k for k in s.env if k[0] == frame and isinstance(k[1], int) and k[1] not in lv]:
                del s.env[k]
            for k in [k for k in s.mem if k[0][0] == "al" and k[0][1] == frame and k[0][2] == fn.n and k[0][3] in alive and b not in alive[k[0][3]]]:
                del s.mem[k]
        def push(b, pb, s, why):
            # phi
            newv = []
            for i in fn.blocks[b]:
                if i[0] != "phi": break
                for v, q in i[3]:
                    if q == pb: newv.append((i[1], c.phi(self, s, fn, i, pb, self.val(s, fn, v, frame)))); break
            for k, v in newv:
                if v is None: s.env.pop((frame, k), None)
                else: s.env[(frame, k)] = v
            lvphi = {k for k, v in newv}
            lv = live[b]
            for k in [k for k in s.env if k[0] == frame and isinstance(k[1], int) and k[1] not in lv and k[1] not in lvphi]:
                del s.env[k]
            for k in [k for k in s.mem if k[0][0] == "al" and k[0][1] == frame and k[0][2] == fn.n and k[0][3] in alive and b not in alive[k[0][3]]]:
                del s.mem[k]
            self.drop_facts(s)
            kk = (b, s.key())
            if kk in seen: return
            seen[kk] = why
            self.nstates += 1
            if self.nstates > c.max_states: raise Budget(f"state budget exceeded in {fn.d}")
            work.append((b, s, kk))
        push(0, None, start[1], None)
        while work:
            b, s0, kk = work.popleft()
            self.step(fn, b, 0, s0, frame, depth, kk, push, results, seen)
        # collapse equal results
        out, have = [], set()
        for s, rv, kind, kk in results:
            for k in [k for k in s.env if k[0] == frame]: del s.env[k]
            for k in [k for k in s.mem if k[0][0] == "al" and k[0][1] == frame]: del s.mem[k]
            if rv and rv[0] == "p" and rv[1][0] == "al" and rv[1][1] == frame: rv = None
            if rv and rv[0] in ("sym",) and not c.keep_syms:
                fact = s.mem.pop((("fact", rv), ()), None)
                rv = ("sym", ("ret",))
                self.drop_facts(s)
                if fact: s.mem[(("fact", rv), ())] = fact
            else: self.drop_facts(s)
            key = (s.key(), rv, kind)
            if key in have: continue
            have.add(key)
            out.append((s, rv, kind, (fn, kk, seen)))
        return out
    def step(self, fn, b, k0, s, frame, depth, kk, push, results, seen):
        c, p = self.c, self.p
        insts = fn.blocks[b]
        n = len(insts)
        k = k0
        while k < n:
            i = insts[k]
            op, vid = i[0], i[1]
            if op == "phi": k += 1; continue
            V = lambda o: self.val(s, fn, o, frame)
            if op == "alloca":
                s.env[(frame, vid)] = ("p", ("al", frame, fn.n, vid), ())
            elif op == "gep":
                base = V(i[3])
                if base and base[0] == "p":
                    path, dyn = base[2], iter(i[6])
                    for x in i[5]:
                        if x == "[]":
                            o = next(dyn, None)
                            e = c.index(self, s, fn, i, V(o)) if o is not None else None
                            if e is not None: path = path + (e,); continue
                        if x == "[]" and path and path[-1] == "[]": continue   # elements are one location
                        path = path + (x,)
                    if len(path) > 8: s.env.pop((frame, vid), None)
                    else: s.env[(frame, vid)] = ("p", base[1], path)
                elif base and base[0] == "f":
                    s.env.pop((frame, vid), None)
                else:
                    s.env.pop((frame, vid), None)
            elif op == "load":
                ptr = V(i[3])
                r = c.load(self, s, fn, i, ptr)
                if r is None and ptr and ptr[0] == "p":
                    if "[]" in ptr[2]:
                        r = None
                    else:
                        key = (ptr[1], ptr[2])
                        r = s.mem.get(key)
                        if r is None and i[4] in ("i8", "i1", "i32", "i64", "ptr"):
                            self.subst(s, ("sym", fn.n, vid, frame), None)
                            r = ("sym", fn.n, vid, frame)
                            s.mem[key] = r
                if r is None and i[4] in ("i8", "i1", "i32"):
                    self.subst(s, ("sym", fn.n, vid, frame), None)
                    r = ("sym", fn.n, vid, frame)
                if r is None: s.env.pop((frame, vid), None)
                else: s.env[(frame, vid)] = r
            elif op == "store":
                ptr, v = V(i[4]), V(i[3])
                r = c.store(self, s, fn, i, v, ptr)
                if r is True: pass
                elif ptr and ptr[0] == "p":
                    key = (ptr[1], ptr[2])
                    if "[]" in ptr[2] or v is None: s.mem.pop(key, None)
                    else: s.mem[key] = v
            elif op == "cast":
                v = V(i[4])
                if v is None: s.env.pop((frame, vid), None)
                else: s.env[(frame, vid)] = v
            elif op == "bin":
                a, d = V(i[4]), V(i[5])
                r = None
                if i[3] == "xor" and d == TRUE and a:
                    r = ("c", 1 - a[1]) if a[0] == "c" else (a[1] if a[0] == "not" else ("not", a))
                elif a and d and a[0] == "c" and d[0] == "c" and isinstance(a[1], int) and isinstance(d[1], int):
                    f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}.get(i[3])
                    if f: r = ("c", f(a[1], d[1]))
                    if i[3] in ("add", "sub") and r and not (-1 <= r[1] <= 1):
                        r = ("pos",) if r[1] > 0 else None      # counters are widened
                elif i[3] == "add" and a and d and {a[0], d[0]} <= {"pos", "c"} and all(x[0] == "pos" or (isinstance(x[1], int) and x[1] >= 0) for x in (a, d)):
                    r = ("pos",)
                elif i[3] == "and" and (a == FALSE or d == FALSE): r = FALSE
                if r is None: r = c.op(self, s, fn, i, a, d)
                if r is None: s.env.pop((frame, vid), None)
                else: s.env[(frame, vid)] = r
            elif op == "icmp":
                a, d = V(i[4]), V(i[5])
                r = None
                if a and d and a[0] == "c" and d[0] == "c" and isinstance(a[1], int) and isinstance(d[1], int):
                    f = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "slt": lambda x, y: x < y, "sgt": lambda x, y: x > y, "sle": lambda x, y: x <= y, "sge": lambda x, y: x >= y, "ult": lambda x, y: x < y, "ugt": lambda x, y: x > y, "ule": lambda x, y: x <= y, "uge": lambda x, y: x >= y}.get(i[3])
                    if f: r = ("c", int(f(a[1], d[1])))
                elif a == ("pos",) and d and d[0] == "c" and isinstance(d[1], int) and d[1] <= 0:
                    r = {"eq": FALSE, "ne": TRUE, "sgt": TRUE, "sge": TRUE, "ugt": TRUE, "uge": TRUE, "slt": FALSE, "sle": FALSE, "ult": FALSE, "ule": FALSE}.get(i[3])
                elif i[3] in ("eq", "ne") and a and a[0] in ("p", "nn", "f", "s") and d == ("c", 0):
                    r = ("c", 0 if i[3] == "eq" else 1)
                elif i[3] in ("eq", "ne") and a and d and d[0] == "c" and a[0] in ("sym", "not", "emptyof", "eqof"):
                    if d == FALSE and a[0] in ("not", "emptyof", "eqof"):
                        r = a if i[3] == "ne" else (a[1] if a[0] == "not" else ("not", a))
                    else:
                        fact = s.mem.get((("fact", a), ()))
                        if fact and d[1] in fact[1]: r = FALSE
                        else: r = ("iseq", a, d[1])
                        if i[3] == "ne": r = TRUE if r == FALSE else ("not", r)
                elif i[3] in ("eq", "ne") and a and a == d and a[0] != "sym0":
                    r = ("c", 1 if i[3] == "eq" else 0)
                if r is None: r = c.op(self, s, fn, i, a, d)
                if r is None:
                    sym = ("sym", fn.n, vid, frame)
                    self.subst(s, sym, None)
                    r = sym
                s.env[(frame, vid)] = r
            elif op == "fcmp":
                sym = c.fcmp(self, s, fn, i, V(i[4]), V(i[5]))
                if sym is None:
                    sym = ("sym", fn.n, vid, frame)
                    self.subst(s, sym, None)
                s.env[(frame, vid)] = sym
            elif op == "select":
                cv = V(i[3])
                r = None
                if cv and cv[0] == "c": r = V(i[4] if cv[1] else i[5])
                else:
                    x, y = V(i[4]), V(i[5])
                    if x == y: r = x
                if r is None and c.split and cv and cv[0] in ("sym", "not"):
                    for truth, x in ((True, i[4]), (False, i[5])):
                        ns = s.copy()
                        if not self.refine(ns, cv, truth): continue
                        r = self.val(ns, fn, x, frame)
                        if r is None: ns.env.pop((frame, vid), None)
                        else: ns.env[(frame, vid)] = r
                        self.step(fn, b, k + 1, ns, frame, depth, kk, push, results, seen)
                    return
                if r is None: s.env.pop((frame, vid), None)
                else: s.env[(frame, vid)] = r
            elif op == "call":
                outs = self.do_call(fn, i, s, frame, depth, kk)
                nrm, unw = i[5], i[6]
                for (ns, rv, kind) in outs:
                    if kind == "throw":
                        if unw >= 0: push(unw, b, ns, (kk, i[2]))
                        else: results.append((ns, None, "throw", kk))
                        continue
                    if kind == "noreturn": continue
                    if rv is None:
                        if i[7] in ("i1", "i8", "i32", "ptr"):
                            sym = ("sym", fn.n, vid, frame)
                            self.subst(ns, sym, None)
                            ns.env[(frame, vid)] = sym
                        else:
                            ns.env.pop((frame, vid), None)
                    else:
                        if rv[0] == "sym" and rv[1] == ("ret",):
                            fact = ns.mem.pop((("fact", rv), ()), None)
                            rv = ("sym", fn.n, vid, frame); self.subst(ns, rv, None)
                            if fact: ns.mem[(("fact", rv), ())] = fact
                        ns.env[(frame, vid)] = rv
                    if i[9]: continue      # noreturn
                    if nrm >= 0: push(nrm, b, ns, (kk, i[2]))
                    elif len(outs) == 1: s = ns
                    else:
                        self.step(fn, b, k + 1, ns, frame, depth, kk, push, results, seen)
                if nrm >= 0 or len(outs) != 1 or outs[0][2] in ("throw", "noreturn") or i[9]: return
            elif op == "br":
                if i[3] is None:
                    push(i[4][0], b, s, (kk, i[2])); return
                cv = V(i[3])
                for truth, sb in ((True, i[4][0]), (False, i[4][1])):
                    ns = s.copy()
                    if not self.refine(ns, cv, truth): continue
                    if not c.branch(self, ns, fn, i, truth): continue
                    push(sb, b, ns, (kk, i[2]))
                return
            elif op == "switch":
                cv = V(i[3])
                if cv and cv[0] == "c":
                    t = i[4]
                    for cc, sb in i[5]:
                        if cc.get("c") == cv[1]: t = sb
                    push(t, b, s, (kk, i[2])); return
                fact = s.mem.get((("fact", cv), ())) if cv else None
                for cc, sb in i[5]:
                    if fact and cc.get("c") in fact[1]: continue
                    ns = s.copy()
                    if cv and cv[0] == "sym": self.subst(ns, cv, ("c", cc.get("c")))
                    push(sb, b, ns, (kk, i[2]))
                push(i[4], b, s.copy(), (kk, i[2]))
                return
            elif op == "ret":
                rv = V(i[3]) if i[3] is not None else None
                results.append((s.copy(), rv, "ret", kk)); return
            elif op == "resume":
                results.append((s.copy(), None, "throw", kk)); return
            elif op == "unreachable":
                return
            elif op == "extract" and len(i[4]) == 1 and (V(i[3]) or (0,))[0] == "agg":
                r = V(i[3])[1][i[4][0]]
                if r is None: s.env.pop((frame, vid), None)
                else: s.env[(frame, vid)] = r
            elif op == "un":
                r = c.unary(self, s, fn, i, V(i[4]))
                if r is None: s.env.pop((frame, vid), None)
                else: s.env[(frame, vid)] = r
            else:
                if vid is not None and vid >= 0: s.env.pop((frame, vid), None)
            k += 1
    # -- calls
    def do_call(self, fn, i, s, frame, depth, kk):
        c, p = self.c, self.p
        syms = p.callees(i)
        qs = {p.q(x) for x in syms}
        args = [self.val(s, fn, a, frame) for a in i[4]]
        self.call_sites += 1
        r = c.call(self, s, fn, i, qs, args)
        if r is not None: return r
        outs = None
        # library strings
        if len(qs) == 1:
            q = next(iter(qs))
            outs = self.string_call(s, q, i, args, p.dem.get(syms[0], syms[0]))
        if outs is None:
            outs = []
            inl = []
            for x in syms:
                g = p.resolve(x)
                want = None
                if g is not None:
                    want = c.inline_args(self, s, fn, i, g, args)
                    if want is None:
                        want = (g.n in self.reach or x in self.reach) or (depth < c.str_depth and len(g.blocks) <= c.str_blocks and self.str_interest(s, x, args))
                if g is not None and want and depth < c.max_depth and g.n not in self.active:
                    inl.append(g)
                else: inl.append(None)
            if syms and any(inl):
                for x, g in zip(syms, inl):
                    if g is None:
                        ns = s.copy(); self.opaque(ns, x, args); outs.append((ns, None, "ret"))
                    else:
                        outs += self.inline(g, s, args, frame, depth)
            else:
                ns = s.copy()
                for x in syms or [None]: self.opaque(ns, x, args)
                outs = [(ns, None, "ret")]
        if c.unwind and c.may_throw(fn, i, qs):
            outs = list(outs)
            if not any(k == "throw" for _, _, k in outs):
                for (ns, rv, kind) in list(outs):
                    if kind == "ret": outs.append((ns.copy(), None, "throw"))
        return outs
    def inline(self, g, s, args, frame, depth):
        nf = depth + 1
        env = {k: v for k, v in s.env.items() if k[0] <= frame}
        sub = {}
        for n, a in enumerate(args):
            if a is not None: sub[(nf, "a%d" % n)] = a
        key = (g.n, nf, frozenset(sub.items()), frozenset(s.mem.items()), s.prop)
        m = self.memo.get(key)
        if m is None:
            self.active.append(g.n)
            try:
                res = self.run(g, State(sub, dict(s.mem), s.prop), depth + 1)
            finally:
                self.active.pop()
            m = [(frozenset(x.mem.items()), x.prop, rv, kind) for x, rv, kind, tr in res]
            self.memo[key] = m
        outs = []
        for mem, prop, rv, kind in m:
            outs.append((State(dict(env), dict(mem), prop), rv, kind))
        return outs or [(s.copy(), None, "noreturn")]
    def str_interest(self, s, sym, args):
        """a string whose state is known is passed by mutable reference"""
        params, const = self.sig(sym)
        for n, a in enumerate(args):
            if a and a[0] == "p" and (a[1], a[2] + (STR,)) in s.mem and not self.param_const(sym, n, len(args)):
                return True
        return False
    def param_const(self, sym, n, nargs):
        params, const = self.sig(sym)
        if params is None: return False
        off = nargs - len([x for x in params if x != "void"])
        # hidden arguments: this and/or sret
        if n < off:
            return const and n == off - 1
        t = params[n - off]
        return " const&" in t or t.endswith("const*") or not (t.endswith("&") or t.endswith("*"))
    def opaque(self, s, sym, args):
        for n, a in enumerate(args):
            if a and a[0] == "p":
                if sym is None or not self.param_const(sym, n, len(args)):
                    self.havoc_obj(s, a)
    def string_call(self, s, q, i, args, dem):
        B = "std::__cxx11::basic_string::"
        if q.startswith(B):
            m = q[len(B):]
            a0 = args[0] if args else None
            ok = a0 and a0[0] == "p"
            if m == "basic_string":
                if not ok: return None
                params, _ = split_params(dem)
                np = len([x for x in (params or []) if x != "void"])
                v = None
                if np == 0: v = ("s", "")
                elif np >= 1:
                    v = self.getstr(s, args[1] if len(args) > 1 else None)
                    if np == 1 and "allocator" in params[0] and "basic_string" not in params[0]: v = ("s", "")
                    if np >= 2 and params[0].startswith("unsigned long"): v = None
                self.setstr(s, a0, v)
                if params and params[0].endswith("&&") and "basic_string" in params[0] and args[1] and args[1][0] == "p":
                    self.setstr(s, args[1], None)
                return [(s.copy(), None, "ret")]
            if m == "~basic_string":
                if ok: self.setstr(s, a0, None)
                return [(s.copy(), None, "ret")]
            if m in ("operator=", "assign"):
                if not ok: return None
                self.setstr(s, a0, self.getstr(s, args[1] if len(args) == 2 else None))
                return [(s.copy(), a0, "ret")]
            if m in ("operator+=", "append", "push_back"):
                if not ok: return None
                cur, add = self.getstr(s, a0), self.getstr(s, args[1]) if m != "push_back" else ("nonempty",)
                ne = lambda x: x is not None and (x == ("nonempty",) or (x[0] == "s" and x[1] != ""))
                if cur and add and cur[0] == "s" == add[0] and cur[1] and add[1] and len(cur[1]) + len(add[1]) <= self.c.str_limit: v = ("s", cur[1] + add[1])
                elif ne(cur) or ne(add): v = ("nonempty",)
                elif cur == ("s", ""): v = add
                elif add == ("s", ""): v = cur
                else: v = None
                self.setstr(s, a0, v)
                return [(s.copy(), a0, "ret")]
            if m == "clear":
                if not ok: return None
                self.setstr(s, a0, ("s", ""))
                return [(s.copy(), None, "ret")]
            if m == "empty":
                if not ok: return None
                v = self.getstr(s, a0)
                if v is None: r = ("emptyof", (a0[1], a0[2] + (STR,)))
                else: r = ("c", int(v == ("s", "")))
                return [(s.copy(), r, "ret")]
            if m == "c_str" or m == "data":
                v = self.getstr(s, a0) if ok else None
                return [(s.copy(), v if v and v[0] == "s" else None, "ret")]
            if m in ("size", "length", "find", "rfind", "substr", "compare", "operator[]", "begin", "end", "find_first_of", "find_last_of"):
                return [(s.copy(), None, "ret")]
            return None
        SS = "std::__cxx11::basic_ostringstream::"
        if q.startswith(SS) or q.startswith("std::__cxx11::basic_stringstream::"):
            m = q.rsplit("::", 1)[-1]
            if m in ("basic_ostringstream", "basic_stringstream"):
                if args[0] and args[0][0] == "p": self.setstr(s, args[0], ("s", "") if len(args) == 1 else None)
                return [(s.copy(), None, "ret")]
            if m.startswith("~"):
                if args[0] and args[0][0] == "p": self.setstr(s, args[0], None)
                return [(s.copy(), None, "ret")]
            if m == "str" and len(args) == 2:
                if args[0] and args[0][0] == "p": self.setstr(s, args[0], self.getstr(s, args[1]))
                return [(s.copy(), None, "ret")]
            return None
        if q.startswith(("std::__shared_ptr::", "std::shared_ptr::")) and args:
            m = q.rsplit("::", 1)[-1]
            a0 = args[0]
            if not a0 or a0[0] != "p": return None
            k = (a0[1], a0[2] + ("$set",))
            if m in ("operator bool", "bool", "get") or "operator bool" in dem:
                r = s.mem.get(k)
                if r is None and m != "get":
                    r = ("sym", "ptr", k, 0)
                    self.subst(s, r, None)
                    s.mem[k] = r
                return [(s.copy(), r if m != "get" else None, "ret")]
            if m.startswith(("operator->", "operator*")) or m == "use_count":
                return [(s.copy(), None, "ret")]
            if m in ("shared_ptr", "__shared_ptr"):
                params, _ = split_params(dem)
                v = None
                if not params or params == ["decltype(nullptr)"] or params == ["std::nullptr_t"]: v = FALSE
                elif len(args) > 1 and args[1] and args[1][0] == "p" and "shared_ptr" in params[0]:
                    ok = (args[1][1], args[1][2] + ("$set",))
                    v = s.mem.get(ok)
                    if v is None:
                        v = ("sym", "ptr", ok, 0); self.subst(s, v, None); s.mem[ok] = v
                if v is None: s.mem.pop(k, None)
                else: s.mem[k] = v
                return [(s.copy(), None, "ret")]
            if m.startswith("~"):
                s.mem.pop(k, None)
                return [(s.copy(), None, "ret")]
            if m == "operator=":
                v = None
                if len(args) > 1 and args[1] and args[1][0] == "p":
                    ok = (args[1][1], args[1][2] + ("$set",))
                    v = s.mem.get(ok)
                if v is None: s.mem.pop(k, None)
                else: s.mem[k] = v
                return [(s.copy(), a0, "ret")]
            if m == "reset":
                if len(args) == 1: s.mem[k] = FALSE
                else: s.mem.pop(k, None)
                return [(s.copy(), None, "ret")]
            return None
        if q == "std::operator+" and "basic_string" in dem and len(args) == 3:
            cs = [self.getstr(s, x) for x in args[1:]]
            params, _ = split_params(dem)
            ne = lambda x, t: t == "char" or (x is not None and (x == ("nonempty",) or (x[0] == "s" and x[1] != "")))
            v = None
            if all(x is not None and x[0] == "s" for x in cs) and len(cs[0][1]) + len(cs[1][1]) <= self.c.str_limit: v = ("s", cs[0][1] + cs[1][1])
            elif any(ne(x, t) for x, t in zip(cs, params or ["", ""])): v = ("nonempty",)
            elif all(x == ("s", "") for x in cs): v = ("s", "")
            if args[0] and args[0][0] == "p": self.setstr(s, args[0], v)
            return [(s.copy(), None, "ret")]
        if q in ("std::operator<<", "std::basic_ostream::operator<<", "std::ostream::operator<<") and args:
            if args[0] and args[0][0] == "p":
                cur = self.getstr(s, args[0])
                add = self.getstr(s, args[1]) if len(args) > 1 and q == "std::operator<<" else None
                if add is not None and (add == ("nonempty",) or add[1] != ""): self.setstr(s, args[0], ("nonempty",))
                elif cur == ("s", "") and add is None: self.setstr(s, args[0], None)
            return [(s.copy(), args[0], "ret")]
        if q in ("std::operator==", "std::operator!=") and "shared_ptr" in dem and "nullptr" in dem and args[0] and args[0][0] == "p":
            k = (args[0][1], args[0][2] + ("$set",))
            r = s.mem.get(k)
            if r is None:
                r = ("sym", "ptr", k, 0); self.subst(s, r, None); s.mem[k] = r
            if q.endswith("=="):
                r = ("c", 1 - r[1]) if r[0] == "c" else (r[1] if r[0] == "not" else ("not", r))
            return [(s.copy(), r, "ret")]
        if q in ("std::operator==", "std::operator!=") and "basic_string" in dem:
            x, y = args[0], args[1]
            a, d = self.getstr(s, x), self.getstr(s, y)
            neg = q.endswith("!=")
            r = None
            if a and d and a[0] == "s" and d[0] == "s": r = ("c", int((a[1] == d[1]) != neg))
            elif d and d[0] == "s" and x and x[0] == "p":
                if a == ("nonempty",) and d[1] == "": r = ("c", int(neg))
                else:
                    r = ("emptyof", (x[1], x[2] + (STR,))) if d[1] == "" else ("eqof", (x[1], x[2] + (STR,)), d[1])
                    if neg: r = ("not", r)
            return [(s.copy(), r, "ret")]
        return None

def variants(n):
    r = {n}
    for a, b in (("C1E", "C2E"), ("C2E", "C1E"), ("D1E", "D2E"), ("D2E", "D1E"), ("D0E", "D1E"), ("D1E", "D0E")):
        if a in n: r.add(n.replace(a, b, 1))
    return r

def trace_lines(tr, limit=60):
    """source lines along the path to a result"""
    fn, kk, seen = tr
    out = []
    while kk is not None and len(out) < 4000:
        w = seen.get(kk)
        if w is None: break
        kk, line = w
        if line and (not out or out[-1] != line): out.append(line)
    out.reverse()
    return out[-limit:]
