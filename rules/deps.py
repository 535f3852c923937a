"""What a model is calculated from is what it registered."""
import itertools, re
from common import *
from models import last, only, entry, is_sub

LOOKUPS = {f"Region::Get{k}Model" for k in ("Node", "Edge", "TriangleEdge", "TetrahedronEdge")} | {"Interface::GetInterfaceNodeModel"}
DBENTRY = {"GlobalData::GetDBEntryOnRegion", "GlobalData::GetDoubleDBEntryOnRegion"}
def shape(q):
    """the contacts or interfaces of a device are looked at"""
    if not q.startswith("Device::Get"): return None
    return "@@@ContactChange" if "Contact" in q else "@@@InterfaceChange" if "Interface" in q else None
BASES = ("NodeModel", "EdgeModel", "TriangleEdgeModel", "TetrahedronEdgeModel", "InterfaceNodeModel")
FATAL = ("c", 4)      # OutputStream::OutputType::FATAL does not return
QUIET = {"CalculateValues", "GetScalarValues", "SetValues", "RegisterCallback", "MarkOld"}
THIS = ("p", ("arg", 0), ())

def model_classes(p):
    """class -> its functions that calculate values"""
    out = {}
    for f in p.fns.values():
        if "::" not in f.q: continue
        c, n = f.q.rsplit("::", 1)
        if n.startswith("calc") and n.endswith("Values") and "{" not in c: out.setdefault(c, []).append(f)
    return out

def instance(f):
    """which instantiation a member function belongs to"""
    return "float128" if "float128" in f.d or "multiprecision" in f.d else "double"

class Names(Client):
    """prop = (registered names, own companions)"""
    max_depth = 7
    str_depth = 2
    unwind = False
    def __init__(self, p, cls, dim, res):
        self.p, self.cls, self.dim, self.res = p, cls, dim, res
        self.used, self.phase, self.unknown = [], "make", set()
        self.interesting = LOOKUPS | DBENTRY | {q for f in p.fns.values() for q in [f.q] if shape(q)} | {"NodeModel::RegisterCallback", "EdgeModel::RegisterCallback", "TriangleEdgeModel::RegisterCallback", "TetrahedronEdgeModel::RegisterCallback", "InterfaceNodeModel::RegisterCallback"}
    def inline_args(self, ip, st, fn, inst, g, args):
        n = last(g.q)
        if g.q.startswith("std::"): return None
        if n in QUIET: return False
        if any(is_sub(g.q, k) for k in BASES): return n in BASES or len(g.blocks) <= 3
        if is_sub(g.q, self.cls): return True
        if "::" in g.q.replace("{anon}::", "").replace("::{lambda}", ""): return len(g.blocks) == 1
        return g.n in ip.reach and os.path.dirname(g.file) == os.path.dirname(fn.file)
    def name(self, st, ip, a):
        if a is None: return None
        v = ip.getstr(st, a)
        if v and v[0] == "s" and not (a[0] == "p" and any(x.startswith("[") for x in a[2] if isinstance(x, str))): return v[1]
        if a[0] == "p" and a[1] == ("arg", 0): return "this." + ".".join(str(x) for x in a[2])
        return None
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        n = last(q)
        if q == "Region::GetDimension": return [(st.copy(), ("c", self.dim), "ret")]
        if q in ("OutputStream::WriteOut", "GeometryStream::WriteOut") or is_sub(q, "dsErrors"):
            ps, _ = esp.split_params(self.p.dem.get(self.p.callees(inst)[0], ""))
            off = len(args) - len(ps or [])
            if any(t.endswith("OutputType") and args[off + k] == FATAL for k, t in enumerate(ps or []) if 0 <= off + k < len(args)): return [(st.copy(), None, "noreturn")]
            return [(st.copy(), None, "ret")]
        if n == "operator[]" and args and args[0] and args[0][:2] == ("p", ("arg", 0)):
            k = args[1] if len(args) > 1 else None
            x = "[%d]" % k[1] if k and k[0] == "c" and isinstance(k[1], int) else "[]"
            return [(st.copy(), ("p", args[0][1], args[0][2] + (x,)), "ret")]
        if n == "RegisterCallback":
            x = self.name(st, ip, args[1])
            ns = st.copy()
            if x is None: self.unknown.add(("registered", fn.q, inst[2]))
            ns.prop = (st.prop[0] | {x}, st.prop[1])
            return [(ns, None, "ret")]
        if n.startswith(("Create", "create")) and args and not q.startswith("std::"):
            for a in args:
                if not a or a[0] != "p" or a == THIS: continue
                x = self.name(st, ip, a)
                if x is not None:
                    ns = st.copy(); ns.prop = (st.prop[0], st.prop[1] | {collapse(x)})
                    if args[0][0] == "p" and args[0][1][0] == "al": ip.havoc_obj(ns, args[0])
                    return [(ns, None, "ret")]
        if (any(is_sub(q, k) for k in BASES) and n not in BASES) or q.startswith("std::enable_shared_from_this::"):
            g = next((p_ for p_ in map(self.p.resolve, self.p.callees(inst)) if p_), None)
            if g is None or len(g.blocks) > 3 or n in QUIET:
                ns = st.copy()
                for a in args[:1]:
                    if a and a[0] == "p" and a[1][0] == "al": ip.havoc_obj(ns, a)
                return [(ns, None, "ret")]
        x = None
        if q in LOOKUPS or q in DBENTRY:
            x = self.name(st, ip, args[-1])
            if x is None and self.phase == "calc": self.unknown.add(("used", fn.q, inst[2]))
        elif shape(q): x = shape(q)
        else: return None
        if self.phase == "calc" and x is not None: self.used.append((x, st.prop, fn, inst))
        ns = st.copy()
        if args and args[0] and args[0][0] == "p" and args[0][1][0] == "al": ip.havoc_obj(ns, args[0])
        return [(ns, None, "ret")]

def collapse(x): return re.sub(r"\[\d+\]", "[]", x)
def known(x, prop):
    reg, own = prop
    if x in reg or collapse(x) in own or None in reg: return True
    if "[]" in x: return any(collapse(r) == collapse(x) for r in reg if r)
    return collapse(x) in reg

def strings_of(p, ctor):
    ps, _ = esp.split_params(ctor.d)
    return [n + 1 for n, t in enumerate(ps or []) if "basic_string" in t]

def starts(p, f, strs):
    """the constructor's string arguments: all different, and each two equal"""
    vals = {n: f"s{n}" for n in strs}
    yield vals
    for a, b in itertools.combinations(strs, 2):
        yield {**vals, b: vals[a]}

def check_model_inputs(p, res):
    skip = [c for c in model_classes(p) if c.endswith("ExprModel")]
    for cls, calcs in sorted(model_classes(p).items()):
        if cls in skip or cls.endswith(("EdgeModel::", "NodeModel::")): continue
        ctors = p.find(cls + "::" + last(cls))
        if not ctors or not p.find(cls + "::derived_init"): continue
        shapes = {tuple(c.aty): strings_of(p, c) for c in ctors if instance(c) == "double"}
        for ctor in ctors:
            ins = instance(ctor)
            strs = shapes.get(tuple(ctor.aty))
            if strs is None: continue
            init = next((f for f in p.find(cls + "::derived_init") if instance(f) == ins), None)
            mine = [f for f in calcs if instance(f) == ins]
            if init is None or not mine: continue
            for dim in ((2,) if any('Triangle' in last(f.q) for f in mine) else (3,) if any('Tetrahedron' in last(f.q) for f in mine) else (1, 2, 3)):
                for vals in starts(p, ctor, strs):
                    c = Names(p, cls, dim, res)
                    ip = Interp(p, c)
                    st = entry(ctor, [(n, v) for n, v in vals.items()])
                    for n, t in enumerate(ctor.aty):
                        if t != "ptr": st.env[(0, f"a{n}")] = ("sym", "arg", n, 0)
                    st.prop = (frozenset(), frozenset())
                    for s1, rv, kind, tr in ip.run(ctor, st):
                        if kind != "ret": continue
                        s1 = State(entry(init).env, s1.mem, s1.prop)
                        for s2, rv, kind, tr in ip.run(init, s1):
                            if kind != "ret": continue
                            for f in mine:
                                c.phase = "calc"; c.used = []
                                ip2 = Interp(p, c)
                                for _ in ip2.run(f, State(entry(f).env, dict(s2.mem), s2.prop)): res.count("calculation_paths")
                                c.phase = "make"
                                for x, prop, fn, inst in c.used:
                                    res.count("lookups")
                                    if not known(x, prop):
                                        shown = x if x.startswith(("this", "@")) else f"'{x}'"
                                        res.add(f"unregistered:{cls}:{x}:{dim}", f"{cls} ({dim}d): calculated from {shown} (line {inst[2]} of {fn.q}), which derived_init does not register", f.where())
                    if c.unknown: res.count("unresolved_lookups", len(c.unknown))
            res.count("constructors")
        res.count("classes")

# -- models of expressions: every model and every variable of the expression --------------------
TOP = {0, 2}                      # stubs/EngineAPI.hh: MODEL_OBJ, VARIABLE_OBJ
TAG = {0: "the models", 2: "the variables"}

class Refs(Client):
    """prop = (kind of the expression, rounds of loops, registered, registered under the other name)"""
    max_depth = 6
    def __init__(self, p, cls, other):
        self.p, self.cls, self.other = p, cls, other
        self.interesting = set()
    def inline_args(self, ip, st, fn, inst, g, args):
        if g.q.startswith("std::"): return None
        if last(g.q) == "RegisterCallback": return False
        return is_sub(g.q, self.cls) or g.file == fn.file
    def tags(self, st, key): return (st.mem.get((key[0], key[1] + ("$tags",))) or ("tags", frozenset()))[1]
    def settags(self, ns, key, t): ns.mem[(key[0], key[1] + ("$tags",))] = ("tags", frozenset(t))
    def it(self, st, a):
        if not a or a[0] != "p": return None
        for k, v in st.mem.items():
            if k[0] == a[1] and k[1][:len(a[2])] == a[2] and v and v[0] == "it": return v
        return None
    def effect(self, ns, key, eff):
        """something is done with the current element of container key"""
        kind, rounds, reg, alt = ns.prop
        r = dict(rounds)
        if key in r:
            al, cur = r[key]; r[key] = (al, cur | {eff})
            ns.prop = (kind, tuple(sorted(r.items(), key=repr)), reg, alt)
    def grant(self, ns, eff, tags):
        kind, rounds, reg, alt = ns.prop
        if eff == "reg": reg = reg | tags
        elif eff == "alt": alt = alt | tags
        else: self.settags(ns, eff[1], self.tags(ns, eff[1]) | tags)
        ns.prop = (kind, rounds, reg, alt)
    def text(self, st, ip, a):
        v = ip.getstr(st, a)
        return v[1] if v and v[0] == "s" else None
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        n, ns = last(q), st.copy()
        kind, rounds, reg, alt = st.prop
        key = lambda a: (a[1], a[2]) if a and a[0] == "p" else None
        if q == "EngineAPI::getEnumeratedType":
            if kind is not None: return [(ns, ("c", kind), "ret")]
            out = []
            for k in (0, 2, 99):
                x = st.copy(); x.prop = (k,) + st.prop[1:]; out.append((x, ("c", k), "ret"))
            return out
        if q in ("EngineAPI::getStringValue", "EngineAPI::getName"):
            ns.mem[(("strval",), (STR,))] = ("s", "$N")
            return [(ns, ("p", ("strval",), ()), "ret")]
        if q == "EngineAPI::getReferencedType" and key(args[0]):
            k = args[-1]
            self.settags(ns, key(args[0]), {TAG[k[1]]} if k and k[0] == "c" and k[1] in TAG else set())
            return [(ns, None, "ret")]
        if q.startswith("std::"):
            a0 = key(args[0]) if args else None
            if re.search(r"::(set|vector|list|deque|unordered_set)::", q) and a0:
                if n in ("begin", "cbegin", "end", "cend"):
                    return [(ns, ("it", a0, n[-3:] == "end"), "ret")]
                if n in ("insert", "emplace", "push_back", "emplace_back"):
                    if len(args) >= 3 and self.it_arg(st, args[-1]) and self.it_arg(st, args[-2]):
                        a, b = self.it_arg(st, args[-2]), self.it_arg(st, args[-1])
                        if a[1] == b[1] and not a[2] and b[2]: self.settags(ns, a0, self.tags(st, a0) | self.tags(st, a[1]))
                        return [(ns, None, "ret")]
                    for a in args[1:]:
                        t = self.text(st, ip, a)
                        if t == "$N": self.settags(ns, a0, self.tags(st, a0) | {"the name"})
                        elif t and t.startswith("$elem:"): self.effect(ns, self.elems[t], ("into", a0))
                    return [(ns, None, "ret")]
                if n == "merge" and key(args[1]):
                    self.settags(ns, a0, self.tags(st, a0) | self.tags(st, key(args[1]))); return [(ns, None, "ret")]
                if n in ("operator=", q.split("::")[-2]) and not n.startswith("~"):
                    if len(args) >= 3 and self.it_arg(st, args[1]):
                        a, b = self.it_arg(st, args[1]), self.it_arg(st, args[2])
                        self.settags(ns, a0, self.tags(st, a[1]) if b and a[1] == b[1] and not a[2] and b[2] else set())
                    else: self.settags(ns, a0, self.tags(st, key(args[1])) if len(args) > 1 and key(args[1]) else set())
                    return [(ns, args[0], "ret")]
                if n in ("clear", "erase"): self.settags(ns, a0, set()); return [(ns, None, "ret")]
                if n.startswith("~"): ns.mem.pop((a0[0], a0[1] + ("$tags",)), None); return [(ns, None, "ret")]
            if n in ("operator==", "operator!=") and len(args) >= 2:
                a, b = self.it_arg(st, args[0]), self.it_arg(st, args[1])
                if a and b and a[1] == b[1] and a[2] != b[2]:
                    c = a[1]
                    go, stop = st.copy(), st.copy()
                    r = dict(rounds)
                    al, cur = r.get(c, (None, frozenset()))
                    r[c] = (al, frozenset()); go.prop = (kind, tuple(sorted(r.items(), key=repr)), reg, alt)
                    r.pop(c); stop.prop = (kind, tuple(sorted(r.items(), key=repr)), reg, alt)
                    tg = self.tags(st, c)
                    if al is None:
                        self.grant(stop, "reg", tg); self.grant(stop, "alt", tg)      # empty
                    else:
                        for e in al: self.grant(stop, e, tg)
                    t, f = (TRUE, FALSE) if n == "operator!=" else (FALSE, TRUE)
                    return [(go, t, "ret"), (stop, f, "ret")]
            if n == "operator++" and self.it_arg(st, args[0]):
                c = self.it_arg(st, args[0])[1]
                r = dict(rounds)
                if c in r:
                    al, cur = r[c]; r[c] = (cur if al is None else al & cur, frozenset())
                    ns.prop = (kind, tuple(sorted(r.items(), key=repr)), reg, alt)
                return [(ns, None, "ret")]
            if n in ("operator*", "operator->") and self.it_arg(st, args[0]):
                c = self.it_arg(st, args[0])[1]
                t = "$elem:%r" % (c,)
                self.elems[t] = c
                ns.mem[(("elem", c), (STR,))] = ("s", t)
                return [(ns, ("p", ("elem", c), ()), "ret")]
            if re.search(r"iterator", q) and len(args) >= 2 and self.it_arg(st, args[1]) and a0:
                ns.mem[(a0[0], a0[1] + ("$it",))] = self.it_arg(st, args[1]); return [(ns, None, "ret")]
            return None
        if n == "RegisterCallback":
            t = self.text(st, ip, args[1])
            if t == "$N": self.grant(ns, "reg", frozenset({"the name"}))
            elif t and t.startswith("$elem:"): self.effect(ns, self.elems[t], "reg")
            elif t and t.startswith("$alt:"):
                t = t[5:]
                if t == "$N": self.grant(ns, "alt", frozenset({"the name"}))
                elif t in self.elems: self.effect(ns, self.elems[t], "alt")
            return [(ns, None, "ret")]
        if q in self.other and len(args) >= 2 and key(args[0]):
            t = self.text(st, ip, args[-1])
            ip.setstr(ns, args[0], ("s", "$alt:" + t) if t else None)
            return [(ns, None, "ret")]
        return None
    elems = {}
    def it_arg(self, st, a):
        if a and a[0] == "it": return a
        return self.it(st, a)

class Looks(Client):
    """the names an evaluation looks up: those in the expression, or the result of one function of them"""
    max_depth = 5
    def __init__(self, p): self.p, self.interesting, self.other, self.bad, self.n = p, set(), set(), [], 0
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        ns = st.copy()
        if q in ("EngineAPI::getStringValue", "EngineAPI::getName"):
            ns.mem[(("strval",), (STR,))] = ("s", "$N"); return [(ns, ("p", ("strval",), ()), "ret")]
        if q in LOOKUPS or q in DBENTRY or q in ("NodeKeeper::GetNodeValue", "NodeKeeper::IsCircuitNode"):
            v = ip.getstr(st, args[-1])
            self.n += 1
            if not v or v[0] != "s" or not (v[1] == "$N" or v[1].startswith("$alt:")): self.bad.append((fn, inst, q))
            elif v[1].startswith("$alt:"): self.other.add(v[1][5:])
            if args[0] and args[0][0] == "p" and args[0][1][0] == "al": ip.havoc_obj(ns, args[0])
            return [(ns, None, "ret")]
        g = next((x for x in map(self.p.resolve, self.p.callees(inst)) if x), None)
        if g is not None and not q.startswith("std::") and len(args) == len(g.aty) == 2 and g.rty == "void" and "basic_string" in (esp.split_params(g.d)[0] or [""])[0]:
            v = ip.getstr(st, args[1])
            if v == ("s", "$N") and args[0] and args[0][0] == "p":
                ip.setstr(ns, args[0], ("s", "$alt:" + q)); return [(ns, None, "ret")]
        return None
    def inline_args(self, ip, st, fn, inst, g, args): return None if g.q.startswith("std::") else False

def check_expressions(p, res):
    from models import interface_models_cached
    other = {}
    for ev, kinds in (("MEE::ModelExprEval", ("NodeExprModel", "EdgeExprModel", "TriangleEdgeExprModel", "TetrahedronEdgeExprModel")), ("IMEE::InterfaceModelExprEval", ("InterfaceNodeExprModel",))):
        if ev.startswith("IMEE") and not interface_models_cached(p): continue
        c = Looks(p)
        for f in p.fns.values():
            if not f.q.startswith(ev + "::") or last(f.q) == last(ev): continue
            if not any(p.callee_qs(i) & (LOOKUPS | DBENTRY | {"NodeKeeper::GetNodeValue"}) for b, k, i in f.calls()): continue
            for _ in Interp(p, c).run(f, entry(f)): pass
            res.count("evaluators")
        res.count("evaluated_lookups", c.n)
        for fn, inst, q in c.bad:
            res.add(f"evaluated:{fn.q}:{q}", f"{fn.q}: calls {q} with a name that is not one of the expression, so that no model registers it", fn.where(inst))
        for cls in kinds:
            for f in p.find(cls + "::derived_init"):
                r = Refs(p, cls, c.other); r.elems = {}
                st = entry(f); st.prop = (None, (), frozenset(), frozenset())
                n = 0
                for s, rv, kind, tr in Interp(p, r).run(f, st):
                    if kind != "ret": continue
                    n += 1
                    k, rounds, reg, alt = s.prop
                    for have, what in ((reg, ""), (alt, " under the name that is used when there is no model of that name")):
                        if what and not c.other: continue
                        miss = ({"the name"} if k in TOP else set(TAG.values())) - have
                        if k in TOP and not ({TAG[k]} - have): miss = set()
                        if miss: res.add(f"expression:{cls}:{sorted(miss)}:{bool(what)}", f"{f.q}: {' and '.join(sorted(miss)).replace('the name', 'the name the expression consists of')} {'is' if miss == {'the name'} else 'in the expression are'} not registered{what}", f.where(), [f"line {x}" for x in trace_lines(tr)])
                res.count("expression_models")
                if not n: raise Broken(f"{f.q}: no path")
    res.need("expression_models", 8); res.need("evaluators", 2)

def check_inputs(res):
    p = load()
    res.explain = ("for every model class: constructor, derived_init and each calculation are simulated one after the other (per dimension, for each constructor, with the constructor's names distinct and pairwise equal); "
                   "each model, parameter, contact or interface list the calculation looks up must have been registered under the same name, or be a companion the model created; "
                   "models of expressions register every model and variable of the expression, and the evaluation looks up nothing else")
    check_model_inputs(p, res)
    check_expressions(p, res)
    res.need("classes", 30); res.need("lookups", 500)
    res.assumptions += ["geometry (positions, lengths, the element field matrices of a region) does not change after the device was created",
                        "companion models a model creates and fills itself need no registration"]
