"""What a solve found is put where it belongs, and the errors it is judged by are those of what was put there."""
from assembly import *
from commands import command_table
from saved import Commands, Maker, fill, serializers, describers, double, THIS, START

NODES = ("p", ("nodes",), ())
RESULT = ("p", ("result",), ())
PERMUTATION = ("p", ("permutation",), ())
REGION = ("p", ("region",), ())
VARIABLE = ("p", ("model", "Node", REGION, "«variable»"), ())

def lead(d):
    """d divided by the size of one of its coefficients: the sign is that of d"""
    t = [(m, c) for m, c in d[1]]
    m, c = min((x for x in t if x[0]), key=lambda x: repr(x[0]), default=(None, None))
    return d if not c or abs(c) == 1 else times(d, const(1.0 / abs(c)))
def near(d): return all(abs(c) < 1e-9 for m, c in d[1])
def rough(d):
    """coefficients to ten digits"""
    return deep(d, lambda x: x if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], float) and isinstance(x[0], tuple)) else (x[0], float("%.10g" % x[1])))
def func(name, *args): return ("poly", frozenset({((("fn", name) + args,), 1)}))
def absolute(x):
    n = value(x)
    if n is not None: return const(abs(n))
    y = lead(x)
    m = next(m for m, c in y[1] if abs(c) == 1) if any(abs(c) == 1 for m, c in y[1]) else None
    scale = abs(terms(x)[m]) if m is not None else 1
    y = rough(y) if m is not None else x
    return times(func("abs", min((y, plus(const(0), y, -1)), key=repr)), const(scale))

class Updates(Assembly):
    """follows the values of two nodes (or equations, or regions)"""
    split = True
    def __init__(self, p, units=None, kind=None):
        super().__init__(p, units)
        self.kind = kind
    def order(self, L):
        if L[1][0] in ("vals", "al", "nodes") and not L[2][-1:] == ("$map",): return NODES
        return L
    def size(self, st, L): return 2
    # -- comparisons
    def op(self, ip, st, fn, inst, a, b):
        if inst[0] == "icmp" and inst[3] in ("eq", "ne"):
            x, y = poly(a), poly(b)
            if x is not None and y is not None:
                z = single(x)[0]
                if z and z[0] == "number" and value(y) == -1: return TRUE if inst[3] == "ne" else FALSE
        return super().op(ip, st, fn, inst, a, b)
    def positive(self, st, d):
        """a question: d > 0"""
        d = rough(lead(d))
        n = value(d)
        if n is not None: return TRUE if n > 0 else FALSE
        t = self.fact(st, ("gt", d))
        if t is None and entails(st.prop[0], plus(const(0), d, -1)): t = False
        return ("sym", "q", ("gt", d), 0) if t is None else TRUE if t else FALSE
    def learn(self, st, key, truth):
        if key[0] == "gt" and truth and entails(st.prop[0], plus(const(0), key[1], -1)): return False
        return super().learn(st, key, truth)
    def fcmp(self, ip, st, fn, inst, a, b):
        x, y = poly(a), poly(b)
        o = inst[3][1:]
        if x is None or y is None or o not in ("gt", "lt", "ge", "le"): return super().fcmp(ip, st, fn, inst, a, b)
        r = self.positive(st, plus(x, y, -1) if o in ("gt", "le") else plus(y, x, -1))
        if o in ("gt", "lt"): return r
        return FALSE if r == TRUE else TRUE if r == FALSE else ("not", r)
    def load(self, ip, st, fn, inst, ptr):
        if ptr and ptr[0] == "p" and ptr[1][0] == "at" and not ptr[2] and ptr[1][1][1][0] == "al":
            v = st.mem.get((ptr[1], ()))
            return v if v is not None else st.mem.get((ptr[1][1][1], ptr[1][1][2] + ("$fill",)))
        if ptr and ptr[0] == "p" and ptr[1][0] == "at" and not ptr[2] and ptr[1][1][1][0] == "vals" and len(ptr[1][1][1]) == 2 and st.mem.get((ptr[1], ())) is None:
            # the values of a model, which are others once they are set
            for k in (0, 1):
                if ptr[1][2] != self.ix(NODES, k): continue
                for m, vs in reversed(st.prop[1]):
                    if m[1] == ptr[1][1][1][1] and vs[k] is not None: return vs[k]
        return super().load(ip, st, fn, inst, ptr)
    def call(self, ip, st, fn, inst, qs, args):
        syms = self.p.callees(inst)
        if len(syms) == 1:
            q, d = self.p.q(syms[0]), self.p.dem.get(syms[0], syms[0])
            n = last(q)
            done = lambda v=None: [(st.copy(), v, "ret")]
            sret = args[inst[8]] if inst[8] >= 0 and len(args) > inst[8] else None
            rest = [a for j, a in enumerate(args) if j != inst[8]]
            xs = [poly(self.scalar(st, a)) for a in rest] if n in ("abs", "fabs", "max", "min", "log", "log1p", "copysign", "llvm.fabs.f64", "fmax", "fmin") or q.startswith("llvm.") else ()
            if xs and None not in xs:
                if n in ("abs", "fabs") or q.startswith("llvm.fabs"): return done(absolute(xs[0]))
                if n in ("log", "log1p") or q.startswith("llvm.log."): return done(func("log", rough(plus(xs[0], const(1 if n == "log1p" else 0)))))
                if q in ("std::max", "std::min", "fmax", "fmin", "std::fmax", "std::fmin") or q.startswith(("llvm.maxnum", "llvm.minnum")) and len(xs) == 2:
                    out = []
                    key = self.positive(st, plus(xs[1], xs[0], -1))
                    for t in (True, False):
                        s = st.copy()
                        if key == (FALSE if t else TRUE): continue
                        if key not in (TRUE, FALSE) and not self.learn(s, key[2], t): continue
                        out.append((s, args[1] if t == ("max" in q) else args[0], "ret"))
                    return out
                if "copysign" in q and len(xs) == 2:
                    out = []
                    key = self.positive(st, xs[1])
                    for t in (True, False):
                        s = st.copy()
                        if key == (FALSE if t else TRUE): continue
                        if key not in (TRUE, FALSE) and not self.learn(s, key[2], t): continue
                        out.append((s, times(absolute(xs[0]), const(1 if t else -1)), "ret"))
                    return out
            if q.startswith("boost::multiprecision::"):
                got = self.extended(st, n, d, args, sret, rest, done)
                if got: return got
            if "shared_ptr" in q and (n == "bool" or "operator bool" in d) and args[0] and self.get(st, args[0], "$model") is None and "Equation<" in d:
                return done(FALSE if "boost" in d else TRUE)
            if q == "Region::GetNodeList": return done(NODES)
            if q == "Node::GetIndex" and rest[0] and rest[0][0] == "p":
                b = rest[0][1]
                if b[0] == "ld" and not b[2]: b = b[1]
                if b[0] == "at" and b[1] == NODES: return done(b[2])
            if q in ("NodeModel::GetRealName", "NodeModel::GetImagName") and rest[0] and rest[0][1][0] == "model":
                t = ("s", rest[0][1][3] + ("_real" if "Real" in n else "_imag"))
                if sret: self.put(st, sret, "$str", t); return done()
                return done(t)
            if q.startswith("std::complex::") and n in ("real", "imag") and rest and rest[0] and rest[0][0] == "p":
                a = rest[0]
                v = st.mem.get((a[1], a[2] + ("$complex",)))
                if v is None and a[1][0] == "at": v = atom("complex", a)
                if v is None: v = st.mem.get((a[1], a[2]))
                return done(atom(n, v)) if v is not None else None
            if q.startswith("std::complex::") and n in ("complex", "operator=") and len(args) == 2 and args[1] and args[1][0] == "p" and args[1][1][0] == "at":
                self.put(st, args[0], "$complex", atom("complex", args[1]))
                return done(args[0] if n == "operator=" else None)
            if q.startswith("llvm.memcpy") and args[1] and args[1][0] == "p" and args[1][1][0] == "at" and "result" in repr(args[1]):
                self.put(st, args[0], "$complex", atom("complex", args[1]))
                return done()
            if q in ("std::const_pointer_cast", "std::dynamic_pointer_cast", "std::static_pointer_cast") and sret:
                m = self.get(st, rest[0], "$model")
                if m: self.put(st, sret, "$model", m); return done()
            if q == "CreateNodeSolution" and sret:
                nm = self.name(st, rest[0])
                if nm is not None:
                    m = ("model", "Node", REGION, nm)
                    self.put(st, sret, "$model", m)
                    s = st.copy()
                    s.prop = (frozenset(x for x in s.prop[0] if x[0] != ("exists", m)) | {(("exists", m), True)},) + s.prop[1:]
                    return [(s, None, "ret")]
            if q == "CreateVectorGradient": return done()
            if q == "NodeModel::SetValues" and len(args) == 2 and args[0] and args[0][0] == "p":
                L = self.lst(st, args[1])
                if L is not None:
                    vs = tuple(poly(self.load(ip, st, fn, ("load", 0, 0, None, "double"), self.at(st, L, self.ix(NODES, k)))) for k in (0, 1))
                    s = st.copy()
                    s.prop = s.prop[:1] + (s.prop[1] + ((args[0], vs),),) + s.prop[2:]
                    return [(s, None, "ret")]
            if n in ("isGROUND", "getUpdateType") and q.startswith("CircuitNode::"):
                return done(FALSE if n == "isGROUND" else ("c", self.kind))
            if q == "CircuitNode::GetNumber": return done(atom("number", rest[0]))
            if q.startswith("std::vector::") and n == "vector" and len(args) >= 2:
                L = self.lst(st, args[1]) if len(args) == 2 else None
                if L and L[1][0] == "vals" and len(L[1]) == 2 and args[0]:
                    self.put(st, args[0], "$list", ("p", L[1] + (("copy", args[0]),), L[2]))
                    return done()
                x = poly(args[1])
                if x is not None and single(x)[0] and single(x)[0][0] == "len":
                    v = const(0)
                    if len(args) >= 4: v = poly(self.scalar(st, args[2]))
                    self.put(st, args[0], "$fill", v)
                    return done()
            if q.startswith("std::map::") and n == "count" and "Sol_" in repr(args[0]): return done(("c", 1))
        return super().call(ip, st, fn, inst, qs, args)

    def extended(self, st, n, d, args, sret, rest, done):
        """numbers of extended precision"""
        num = lambda a: poly(self.scalar(st, a))
        if n in ("number", "float128_backend") or n == "operator=":
            v = num(args[1]) if len(args) > 1 else const(0)
            if args[0] and args[0][0] == "p":
                if v is None: st.mem.pop((args[0][1], args[0][2]), None)
                else: st.mem[(args[0][1], args[0][2])] = v
            return done(args[0] if n == "operator=" else None)
        if n in ("double", "operator double", "convert_to"):
            return done(num(args[0]))
        o = n[8:] if n.startswith("operator") else ""
        if o in ("+=", "-=", "*="):
            x, y = num(args[0]), num(args[1])
            if None in (x, y) or args[0][0] != "p": return None
            st.mem[(args[0][1], args[0][2])] = times(x, y) if o == "*=" else plus(x, y, 1 if o == "+=" else -1)
            return done(args[0])
        if o in (">", "<", ">=", "<=") and len(rest) == 2:
            x, y = num(rest[0]), num(rest[1])
            if None in (x, y): return None
            q = self.positive(st, plus(x, y, -1) if o in (">", "<=") else plus(y, x, -1))
            if o in (">=", "<="): q = FALSE if q == TRUE else TRUE if q == FALSE else ("not", q)
            return done(q)
        if o in ("+", "-", "*") and len(rest) == 2 and sret:
            x, y = num(rest[0]), num(rest[1])
            if None in (x, y): return None
            st.mem[(sret[1], sret[2])] = times(x, y) if o == "*" else plus(x, y, 1 if o == "+" else -1)
            return done()
        return None

def known(facts):
    """polynomials that are not negative"""
    out = []
    for k, t in facts:
        if k[0] == "gt": out.append(k[1] if t else plus(const(0), k[1], -1))
    return out
def entails(facts, d, depth=3, ks=None):
    """d >= 0 follows from the facts: it is a sum of things that are not negative"""
    if ks is None: ks = [k for k in known(facts)]
    def nonneg(d):
        for m, c in d[1]:
            if c < 0 or any(not (a[0] == "fn" and a[1] in ("abs",) or a[0] == "fn" and a[1] == "inverse" and all(y >= 0 and all(z[0] == "fn" and z[1] == "abs" or z[0] == "ld" for z in x) for x, y in a[2][1])) for a in m): return False
        return True
    d = build({m: c for m, c in d[1] if abs(c) > 1e-12})
    if nonneg(d): return True
    if not depth: return False
    for k in ks:
        # a positive multiple of what is known that takes a term away
        got = dict(k[1])
        for m, c in d[1]:
            if m and m in got and got[m] * c > 0:
                if entails(facts, plus(d, k, -(c / got[m])), depth - 1, ks): return True
    return False
def holds(facts, d):
    """whether d > 0, None when it is not known"""
    d = rough(lead(d))
    n = value(d)
    if n is not None: return n > 0
    for k, t in facts:
        if k == ("gt", d): return t
    if entails(facts, plus(const(0), d, -1)): return False
    for k, t in facts:
        if k[0] == "gt" and t and entails(facts, plus(d, k[1], -1)): return True
    return None

VT = 0.0259
def expected(facts, how, old, upd):
    """complaint about none, or the values a node may get: (new value or a test, the update made)"""
    if how == "default": return [plus(old, upd)]
    if how == "log_damp":
        size = absolute(upd)
        big = holds(facts, plus(size, const(VT), -1))
        if big is None:
            b = holds(facts, plus(const(VT), size, -1))
            big = None if b is None else not b
        sign = holds(facts, upd)
        if sign is None:
            s = holds(facts, plus(const(0), upd, -1))
            sign = None if s is None else not s
        damped = times(func("log", rough(plus(const(1), times(size, const(1 / VT))))), const(VT))
        out = []
        if big in (None, False): out.append(plus(old, upd))
        if big in (None, True):
            if sign in (None, True): out.append(plus(old, damped))
            if sign in (None, False): out.append(plus(old, damped, -1))
        return out
    return None

def node_values(r, key, what, where, facts, how, olds, upds, news):
    """what the nodes got is what they should; the updates made"""
    for k in (0, 1):
        new, old, upd = news[k], olds[k], upds[k]
        r.count("values_compared")
        if new is None: raise Broken(f"{what}: the value of a node could not be followed")
        if how == "positive":
            free = plus(old, upd)
            if holds(facts, old) is False:
                r.add(f"{key}:{how}:start", f"{what} with -variable_update {how}: a solution that is not positive is updated", where); continue
            fits = holds(facts, free)
            if fits and not near(rough(plus(new, free, -1))): r.add(f"{key}:{how}:value", f"{what} with -variable_update {how}: the new value is {shown(new)}, not the old value and the update, though that is positive", where)
            elif not fits and not holds(facts, new): r.add(f"{key}:{how}:value", f"{what} with -variable_update {how}: the new value {shown(new)} may not be positive", where)
            continue
        want = expected(facts, how, old, upd)
        if len(want) != 1 or not near(plus(rough(new), rough(want[0]), -1)):
            r.add(f"{key}:{how}:value", f"{what} with -variable_update {how}: the new value is {shown(new)}, not {' or '.join(shown(rough(w)) for w in want)}", where)

def largest(r, key, what, where, facts, v, sizes):
    """v is not less than any of the sizes, and is one of them"""
    r.count("errors_compared")
    if v is None: raise Broken(f"{what}: it could not be followed")
    for s in sizes:
        if not entails(facts, plus(v, s, -1)) and not entails(facts, plus(rough(v), rough(s), -1)):
            r.add(key, f"{what} is {shown(v)}, which may be less than that of one of them, {shown(s)}", where); return False
    return True

def getter(p, c, q, st, this=THIS):
    fs = [f for f in p.find(q) if len(f.args) == 1 and "float128" not in f.d]
    if not fs: raise Broken(f"{q} is not there")
    rs = [x for x in Interp(p, c).run(fs[0], State({(0, "a0"): this}, dict(st.mem), st.prop)) if x[2] == "ret"]
    vs = {poly(x[1]) for x in rs}
    if len(vs) != 1: raise Broken(f"{q} gives nothing that can be followed")
    return next(iter(vs))

def root(p, q):
    fs = [f for f in p.find(q) if "float128" not in f.d]
    if len(fs) != 1: raise Broken(f"{q} is not there")
    return fs[0]

def equations(p):
    """(value of -variable_update, the memory of the equation made)"""
    classes = {f.q.rsplit("::", 1)[0] for f in list(serializers(p).values()) + list(describers(p).values())}
    C = Commands(p, classes)
    out = []
    for sym, args, facts in C.made("equation"):
        kinds = [l for (o, l), t in facts if o == "«variable_update»" and t]
        if len(kinds) != 1: continue
        for o in fill(p, C.makers[sym], args):
            if (kinds[0], o.mem) not in out: out.append((kinds[0], o.mem))
    if not {"default", "log_damp", "positive"} <= {k for k, m in out}: raise Broken("the equations made for each -variable_update were not found")
    return out


ERRORS = (("absolute", "Equation::GetAbsError", "Equation::GetAbsErrorNodeIndex"), ("relative", "Equation::GetRelError", "Equation::GetRelErrorNodeIndex"))
def el(k): return atom("el", VARIABLE[1], atom("ix", NODES, k))
def result_at(facts, row): return atom("ld", ("at", RESULT, row), ())
def row(k): return atom("row", REGION, atom("eqidx", REGION, "«name»"), ("p", ("ld", ("at", NODES, atom("ix", NODES, k)), ()), ()))

def run_equation(r, p, f, how, mem):
    m = dict(mem)
    for k, v in mem.items():
        if v and v[0] == "p" and v[1][0] == "given": m[k] = REGION
    key, what = "update", "an update of an equation"
    c = Updates(p)
    rs = [x for x in Interp(p, c).run(f, State({(0, "a0"): THIS, (0, "a1"): VARIABLE, (0, "a2"): RESULT}, m, START)) if x[2] == "ret"]
    rs = [x for x in rs if dict(x[0].prop[0]).get(("zero", plus(const(-1), atom("eqidx", REGION, "«name»"), -1))) is not True]
    if not rs: raise Broken("no update of an equation was followed")
    where = f.where()
    for s, v, k, tr in rs:
        r.count("paths_followed")
        facts = held(s)
        sets = [e for e in s.prop[1] if e[0] == VARIABLE]
        if len(sets) != 1 or len(s.prop[1]) != 1:
            r.add(f"{key}:{how}:set", f"{what} with -variable_update {how} sets " + (" and ".join(shown(e[0]) for e in s.prop[1]) or "nothing"), where); continue
        olds, upds = [el(j) for j in (0, 1)], [result_at(facts, row(j)) for j in (0, 1)]
        news = sets[0][1]
        node_values(r, key, what, where, facts, how, olds, upds, news)
        made = [plus(n, o, -1) for n, o in zip(news, olds)]
        least = getter(p, c, "Equation::GetMinError", s)
        sizes = {"absolute": [absolute(u) for u in made], "relative": [times(absolute(u), ("poly", frozenset({((("fn", "inverse", plus(absolute(n), least)),), 1)}))) for u, n in zip(made, news)]}
        for kind, q, node in ERRORS:
            e = getter(p, c, q, s)
            if not largest(r, f"{key}:{kind}", f"the {kind} error after {what} with -variable_update {how}", where, facts, e, sizes[kind]): continue
            at = getter(p, c, node, s)
            a = single(at)[0]
            k = a[2] if a and a[0] == "ix" else value(at)
            r.count("nodes_compared")
            if k not in (0, 1) or not (entails(facts, plus(sizes[kind][k], sizes[kind][1 - k], -1)) or all(entails(facts, plus(const(0), x, -1)) for x in sizes[kind])):
                r.add(f"{key}:{kind}:node", f"the node told for the {kind} error after {what} is {shown(at)}, which need not be the one with that error", where)

def run_complex(r, p, f, key, what, mem, noise):
    """what is set of small-signal or noise solutions"""
    m = dict(mem)
    for k, v in mem.items():
        if v and v[0] == "p" and v[1][0] == "given": m[k] = REGION
    c = Updates(p)
    env = {(0, "a0"): THIS, (0, "a1"): VARIABLE, (0, "a2"): RESULT}
    if noise:
        env = {(0, "a0"): THIS, (0, "a1"): ("p", ("output",), ()), (0, "a2"): PERMUTATION, (0, "a3"): RESULT}
        m[(("output",), ("$str",))] = ("s", "«output»")
    rs = [x for x in Interp(p, c).run(f, State(env, m, START)) if x[2] == "ret"]
    rs = [x for x in rs if dict(x[0].prop[0]).get(("zero", plus(const(-1), atom("eqidx", REGION, "«name»"), -1))) is not True]
    if not rs: raise Broken(f"{what}: nothing was followed")
    where = f.where()
    for s, v, k, tr in rs:
        r.count("paths_followed")
        names = {last_part(e[0]) for e in s.prop[1]}
        r.count("values_compared", 4)
        for part, suffix in (("real", "_real"), ("imag", "_imag")):
            got = [e for e in s.prop[1] if e[0][1][0] == "model" and e[0][1][3].endswith(suffix)]
            if len(got) != 1:
                r.add(f"{key}:{part}", f"{what} sets {' and '.join(sorted(names)) or 'nothing'}: the {part} part is not kept in one model named {suffix}", where); continue
            name = got[0][0][1][3]
            if (not noise and name != "«variable»" + suffix) or (noise and "«output»" not in name and "«" in name and "variable" not in name):
                r.add(f"{key}:{part}:name", f"{what} keeps the {part} part in {name}", where)
            for j in (0, 1):
                x = got[0][1][j]
                if x is None: raise Broken(f"{what}: the value of a node could not be followed")
                a = single(x)[0]
                rw = row(j)
                if noise:
                    ok = a and a[0] == part and a[1][1] and "permutation" in repr(a) and repr(("at", PERMUTATION, rw)) in repr(a) and repr(RESULT) in repr(a)
                    other = repr(("at", PERMUTATION, row(1 - j))) in repr(a)
                    ok = ok and not other
                else: ok = x == atom(part, atom("complex", ("p", ("at", RESULT, rw), ())))
                if not ok: r.add(f"{key}:{part}:value", f"{what}: the {part} part at a node is {shown(x)}", where)
def last_part(ptr): return ptr[1][3] if ptr[1][0] == "model" else shown(ptr)

def check_updates(r):
    p = load()
    eqs = equations(p)
    done = set()
    f = root(p, "Equation::Update")
    for how, mem in eqs:
        small = tuple(sorted((x for x in mem.items() if x[1] and x[1][0] == "c"), key=repr))
        if (how, small) in done: continue
        done.add((how, small))
        run_equation(r, p, f, how, mem)
    run_complex(r, p, root(p, "Equation::ACUpdate"), "ac", "a small-signal solution of an equation", eqs[0][1], False)
    run_complex(r, p, root(p, "Equation::NoiseUpdate"), "noise", "a noise solution of an equation", eqs[0][1], True)
    check_regions(r, p)
    check_circuit(r, p)
    check_asked(r, p)
    r.need("paths_followed", 40)
    r.need("values_compared", 40)
    r.need("calls_compared", 8)
    r.explain = ("The functions which put a solved update, small-signal or noise solution into the models of a region and the nodes of the circuit are interpreted over polynomials whose unknowns are the old values and the entries of the solution, for two nodes (two equations, two regions), on every path of their comparisons. "
        "On each path the value a node gets is compared with the old value and the entry of its own row, damped as -variable_update says (what was asked for is followed from the command to the object), and the errors told with the change made: on no path may an error be less than that of a node, an equation or a region, by what the comparisons of the path imply.")
    r.assumptions = ["the index of a node is its place in the list of nodes of its region", "arithmetic is exact and no value is NaN", "two nodes stand for any number, as each is treated in its own step of a loop",
        "the calculations in extended precision are instances of the same templates", "the smallest value relative errors refer to is positive"]

def whole(p, c, f, env, st):
    return [x for x in Interp(p, c).run(f, State(env, dict(st.mem) if st else {}, st.prop if st else START)) if x[2] == "ret"]

def check_circuit(r, p):
    key, key2, node = ("p", ("key",), ()), ("p", ("key2",), ()), ("p", ("name",), ())
    names = {(("key",), ("$str",)): ("s", "«key»"), (("key2",), ("$str",)): ("s", "«key2»"), (("name",), ("$str",)): ("s", "«name»")}
    c = Updates(p, None, 0)
    rows = {x for s, v, k, tr in whole(p, c, root(p, "NodeKeeper::GetEquationNumber"), {(0, "a0"): THIS, (0, "a1"): node}, State({}, names, START)) for x in [poly(v)] if x is not None and any(a[0] == "number" for m, _ in x[1] for a in m)}
    rows = {build({m: c for m, c in x[1] if not any(a[0] == "number" for a in m)}) for x in rows}
    if len(rows) != 1: raise Broken("the rows of circuit nodes were not found")
    base = next(iter(rows))
    f = root(p, "NodeKeeper::UpdateSolution")
    what = "an update of the circuit"
    for kind, how in ((0, "default"), (1, "log_damp")):
        c = Updates(p, None, kind)
        for s, v, k, tr in whole(p, c, f, {(0, "a0"): THIS, (0, "a1"): key, (0, "a2"): RESULT}, State({}, names, START)):
            r.count("paths_followed")
            facts = held(s)
            got = {}
            for (b, path), x in s.mem.items():
                if b[0] == "at" and not path and b[1][1][0] != "al" and poly(x) is not None and b[1] != RESULT: got[b] = poly(x)
            at = [single(b[2])[0] for b in got]
            if len(got) != 2 or any(a is None or a[0] != "number" for a in at) or at[0] == at[1]:
                r.add("circuit:each", f"{what} does not set the value of each node: " + (", ".join(shown(b) for b in got) or "none is set"), f.where()); continue
            olds = [atom("ld", b, ()) for b in got]
            upds = [atom("ld", ("at", RESULT, plus(base, atom(*a))), ()) for a in at]
            node_values(r, "circuit", what, f.where(), facts, how, olds, upds, list(got.values()))
            made = [plus(n, o, -1) for n, o in zip(got.values(), olds)]
            for kind2, q in (("absolute", "NodeKeeper::GetAbsError"), ("relative", "NodeKeeper::GetRelError")):
                es = {poly(self_scalar(c, x[0], x[1])) for x in whole(p, c, root(p, q), {(0, "a0"): THIS, (0, "a1"): key}, s)}
                es.discard(None)
                if len(es) != 1: raise Broken(f"{q} gives nothing that can be followed")
                e = next(iter(es))
                sizes = [absolute(u) for u in made]
                if kind2 == "relative":
                    least = {build({m: x for m, x in a[2][1] if not m}) for k2, t in facts if k2[0] == "gt" for m2, _ in k2[1][1] for a in m2 if a[0] == "fn" and a[1] == "inverse"}
                    if len(least) != 1: raise Broken("the relative error of a circuit node could not be followed")
                    sizes = [times(x, ("poly", frozenset({((("fn", "inverse", plus(absolute(n), next(iter(least)))),), 1)}))) for x, n in zip(sizes, got.values())]
                largest(r, f"circuit:{kind2}", f"the {kind2} error after {what}", f.where(), facts, e, sizes)
    f = root(p, "NodeKeeper::ACUpdateSolution")
    what = "a small-signal solution of the circuit"
    c = Updates(p, None, 0)
    for s, v, k, tr in whole(p, c, f, {(0, "a0"): THIS, (0, "a1"): key, (0, "a2"): key2, (0, "a3"): RESULT}, State({}, names, START)):
        r.count("paths_followed")
        seen = {}
        for (b, path), x in s.mem.items():
            if b[0] == "at" and not path and b[1][1][0] != "al" and b[1] != RESULT:
                a = single(b[2])[0]
                of = "imag" if "'key2'" in repr(b[1]) else "real" if "'key'" in repr(b[1]) else None
                want = atom(of or "?", atom("complex", ("p", ("at", RESULT, plus(base, atom(*a))), ()))) if a and a[0] == "number" else None
                r.count("values_compared")
                if of is None or want is None or poly(x) != want: r.add("circuit:ac:value", f"{what}: {shown(b)} becomes {shown(x) if x else 'something else'}", f.where())
                else: seen.setdefault(of, set()).add(a)
        if any(len(seen.get(of, ())) != 2 for of in ("real", "imag")): r.add("circuit:ac:each", f"{what} does not set both parts for each node", f.where())

def self_scalar(c, s, v): return c.scalar(s, v) if v and v[0] == "p" else v

def check_asked(r, p):
    """a circuit node is updated as its command asked"""
    table = command_table(p)
    if "add_circuit_node" not in table: return
    add = {g.n for g in p.find("NodeKeeper::AddNode")}
    g = p.fns[table["add_circuit_node"][0]]
    c = Maker(p, add, {h.n for h in p.fns.values() if h.file == g.file}, "add_circuit_node")
    Interp(p, c).run(g, State({(0, "a%d" % j): ("p", ("par", j), ()) for j in range(len(g.args))}, {}, frozenset()))
    kinds = {}
    for sym, args, facts in c.made:
        if not any(a and a[0] == "s" and "«name»" in a[1] for a in args): continue
        for (o, l), t in facts:
            if o == "«variable_update»" and t: kinds.setdefault(l, set()).add(args[-1])
    r.count("update_types_followed", len(kinds))
    if len(kinds) < 2: return
    for how, got in sorted(kinds.items()):
        if how != "default" and got == kinds.get("default"): r.add(f"asked:{how}", f"add_circuit_node with -variable_update {how} makes the same node as with -variable_update default", g.where())

def check_regions(r, p):
    """each equation of a region gets its own variable, and its errors count; likewise each region of a device"""
    for q, unit, what in (("Region::Update", "Equation::Update", "an update of a region"), ("Region::ACUpdate", "Equation::ACUpdate", "a small-signal solution of a region"), ("Region::NoiseUpdate", "Equation::NoiseUpdate", "a noise solution of a region"),
            ("Device::Update", "Region::Update", "an update of a device"), ("Device::ACUpdate", "Region::ACUpdate", "a small-signal solution of a device"), ("Device::NoiseUpdate", "Region::NoiseUpdate", "a noise solution of a device")):
        f = root(p, q)
        us = {g.n for g in p.fns.values() if g.q == unit and "float128" not in g.d}
        c = Updates(p, us)
        this = REGION if q.startswith("Region") else THIS
        noise = "Noise" in q
        env = {(0, "a0"): this, (0, "a1"): RESULT} if not noise else {(0, "a0"): this, (0, "a1"): ("p", ("output",), ()), (0, "a2"): PERMUTATION, (0, "a3"): RESULT}
        rs = [x for x in Interp(p, c).run(f, State(env, {}, START)) if x[2] == "ret"]
        for s, v, k, tr in rs:
            facts = held(s)
            if any(t and k[0] == "zero" and "numequations" in repr(k) for k, t in facts): continue
            r.count("paths_followed")
            calls = s.prop[1]
            objects = {a[0] for n, a in calls}
            if len(calls) != 2 or len(objects) != 2:
                r.add(f"{q}:each", f"{what} updates {len(objects)} of its two {'equations' if this == REGION else 'regions'}, in {len(calls)} steps", f.where()); continue
            for n, a in calls:
                r.count("calls_compared")
                if RESULT not in a: r.add(f"{q}:result", f"{what} passes on {', '.join(shown(x) for x in a[1:])}, not the solution", f.where())
                if this == REGION and not noise:
                    g = root(p, "Equation::GetVariable")
                    vs = {x[1] for x in Interp(p, c).run(g, State({(0, "a0"): a[0]}, dict(s.mem), s.prop)) if x[2] == "ret"}
                    if len(vs) != 1: raise Broken("the variable of an equation could not be followed")
                    var = next(iter(vs))
                    if a[1] is None or a[1][0] != "p" or a[1][1][0] != "model": raise Broken(f"{what}: the model could not be followed")
                    if c.literals.get(a[1][1][3]) != var: r.add(f"{q}:variable", f"{what} puts the update of an equation into {shown(a[1])}, which is not its variable", f.where())
            if q.endswith("::Update"):
                own = "Equation" if this == REGION else "Region"
                for kind in ("Abs", "Rel"):
                    e = getter(p, c, f"{this == REGION and 'Region' or 'Device'}::Get{kind}Error", s, this)
                    sizes = [getter(p, c, f"{own}::Get{kind}Error", s, o) for o in objects]
                    facts2 = facts | {(("gt", plus(const(0), rough(lead(x)), -1)), False) for x in sizes}
                    largest(r, f"{q}:{kind}", f"the {'absolute' if kind == 'Abs' else 'relative'} error after {what}", f.where(), facts2, e, sizes)
