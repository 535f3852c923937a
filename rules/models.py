"""The dependency graph of the models: who is told when something changes, and
what every model registers."""
import re
from common import *

KINDS = {"NodeModel": "Region", "EdgeModel": "Region", "TriangleEdgeModel": "Region", "TetrahedronEdgeModel": "Region", "InterfaceNodeModel": "Interface"}
REGION_KINDS = [k for k, o in KINDS.items() if o == "Region"]
THIS = ("p", ("arg", 0), ())
MUTATORS = {"set_values", "set_indexes", "SetUniformValue", "SetValue"}

def arg_string(n): return (("arg", n), (STR,))

def last(q): return q.rsplit("::", 1)[-1]

def only(qs):
    return next(iter(qs)) if len(qs) == 1 else None

def entry(fn, strings=()):
    """parameters are distinct objects; the named string parameters hold a literal nothing else has"""
    env = {(0, f"a{n}"): ("p", ("arg", n), ()) for n in range(len(fn.aty)) if fn.aty[n] == "ptr"}
    return State(env, {arg_string(n): ("s", v) for n, v in strings}, ())

def field_path(p, getter):
    """the member a getter hands out"""
    for f in p.find(getter):
        ip = Interp(p, Client())
        c = ip.c
        got = set()
        def load(ip_, st, fn, i, ptr):
            if ptr and ptr[0] == "p" and ptr[1] == ("arg", 0): got.add(ptr[2])
            return None
        c.load = load
        for st, rv, kind, tr in ip.run(f, entry(f)):
            if rv and rv[0] == "p" and rv[1] == ("arg", 0): return rv[2]
        if len(got) == 1: return next(iter(got))
    raise Broken(f"{getter}: no member found")

def is_sub(q, cls): return q.startswith(cls + "::")

# -- what a function must do after it changed something ---------------------------------------
class After(Client):
    """prop = (pending, done): names of changes not yet announced; what was announced"""
    max_depth = 6
    def __init__(self, rule): self.rule = rule; self.interesting = rule.interesting
    def inline_args(self, ip, st, fn, inst, g, args): return self.rule.inline(g)
    def may_throw(self, fn, inst, qs): return False
    def call(self, ip, st, fn, inst, qs, args):
        return self.rule.call(ip, st, fn, inst, qs, args)

def run(p, rule, fn, st):
    ip = Interp(p, After(rule))
    return ip, ip.run(fn, st)

class ModelRule:
    """a method of a model class that changes its values"""
    def __init__(self, p, cls):
        self.p, self.cls, self.owner = p, cls, KINDS[cls]
        self.name = field_path(p, cls + "::GetName")
        self.fresh = field_path(p, cls + "::IsUpToDate")
        self.interesting = {"ModelDataHolder::" + m for m in MUTATORS} | {self.owner + "::SignalCallbacks"}
    def inline(self, g):
        return is_sub(g.q, self.cls) and last(g.q) != "CalculateValues" and not last(g.q).startswith("calc")
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        ns = st.copy()
        if q.startswith("ModelDataHolder::") and last(q) in MUTATORS and args and args[0] and args[0][0] == "p" and args[0][1] == ("arg", 0):
            ns.prop = (True, st.prop[1], True); return [(ns, None, "ret")]
        if q == self.owner + "::SignalCallbacks" and len(args) > 1:
            a = args[1]
            if a == ("p", ("arg", 0), self.name): ns.prop = (False, True, st.prop[2])
            return [(ns, None, "ret")]
        if last(q) == "CalculateValues":
            ns.mem[(("arg", 0), self.fresh)] = TRUE
            return [(ns, None, "ret")]
        return None

def interface_models_cached(p):
    """whether a read of an interface model may skip its calculation: while every read calculates, nobody needs to be told"""
    class C(Client):
        interesting = set()
        def call(self, ip, st, fn, inst, qs, args):
            if qs and all(last(q) == "calcNodeScalarValues" for q in qs):
                ns = st.copy(); ns.prop = ("calculated",); return [(ns, None, "ret")]
            return None
        def inline_args(self, ip, st, fn, inst, g, args): return is_sub(g.q, "InterfaceNodeModel")
    fns = p.find("InterfaceNodeModel::CalculateValues")
    if not fns: raise Broken("no InterfaceNodeModel::CalculateValues")
    return any(kind == "ret" and not s.prop for f in fns for s, rv, kind, tr in Interp(p, C()).run(f, entry(f)))

def kinds(p, res):
    if interface_models_cached(p):
        res.count("interface_models_cached"); return dict(KINDS)
    return {k: o for k, o in KINDS.items() if o == "Region"}

def check_model_classes(p, res):
    for cls in kinds(p, res):
        rule = ModelRule(p, cls)
        ip0 = Interp(p, After(rule))
        for f in p.fns.values():
            if not is_sub(f.q, cls) or last(f.q).startswith(("calc", "Calculate", "~")) or last(f.q) == cls: continue
            if f.q[len(cls) + 2:].count("::"): continue
            if f.n not in ip0.reach and last(f.q) != "MarkOld": continue
            mark = last(f.q) == "MarkOld"
            st = entry(f); st.prop = (False, False, False)
            ip, outs = run(p, rule, f, st)
            res.count("model_methods")
            for s, rv, kind, tr in outs:
                if kind != "ret": continue
                res.count("model_method_paths")
                pend, sig, mut = s.prop
                if pend: res.add(f"values:{f.q}", f"{f.q}: the values change and the models calculated from them are not marked out of date", f.where(), [f"line {x}" for x in trace_lines(tr)])
                if mut and s.mem.get((("arg", 0), rule.fresh)) != TRUE:
                    res.add(f"fresh:{f.q}", f"{f.q}: values set explicitly do not count as current", f.where(), [f"line {x}" for x in trace_lines(tr)])
                if mark:
                    if not sig: res.add(f"mark-signal:{f.q}", f"{f.q}: marks the model without marking the models that depend on it", f.where())
                    if s.mem.get((("arg", 0), rule.fresh)) != FALSE: res.add(f"mark:{f.q}", f"{f.q}: does not mark the model out of date", f.where())
    res.need("model_methods", 20)

# -- the registry --------------------------------------------------------------------------------
def map_kind(dem):
    """the model class held by a map or a pointer named in a signature"""
    for k in sorted(KINDS, key=len, reverse=True):
        if re.search(r"shared_ptr<(const )?%s\b" % k, dem) or re.search(r"\b%s( const)?\*" % k, dem): return k
    return None

LOOKUPS = ("count", "contains")
INSERTS = ("insert", "emplace", "push_back", "emplace_back", "operator[]", "insert_or_assign", "try_emplace")

class SignalRule:
    """Region::SignalCallbacks and Interface::SignalCallbacks(name)
    prop = (collect, present, pending, told): entry found and not kept; kinds found for the name at hand; kind known to
    be current and not yet marked; regions' interfaces told"""
    interesting = {k + "::MarkOld" for k in KINDS} | {k + "::IsUpToDate" for k in KINDS} | {"Device::SignalCallbacksOnInterface"}
    def __init__(self, p, owner):
        self.p, self.owner = p, owner
        self.bad, self.marked = {}, set()
    def inline(self, g):
        if last(g.q) in ("MarkOld", "IsUpToDate", "SignalCallbacks", "SignalCallbacksOnInterface") : return False
        return None
    def close(self, ns, fn, inst, why):
        collect, present, pending, told = ns.prop
        w = fn.where(inst) if inst else fn.where()
        if collect: self.bad["collect"] = ("an entry that depends on the name is passed over", w)
        if pending: self.bad["pending:" + pending] = (f"a current {pending} that depends on the name is not marked out of date", w)
        if present: self.bad["present:" + "/".join(sorted(present))] = (f"a {'/'.join(sorted(present))} that depends on the name is passed over", w)
        for k in [k for k in ns.mem if k[0][0] == "cnt"]: del ns.mem[k]
        ns.prop = (False, frozenset(), None, told)
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        dem = next(iter(ip.p.dem.get(s, s) for s in ip.p.callees(inst)))
        ns = st.copy()
        collect, present, pending, told = st.prop
        m = last(q)
        if q == "dsAssert_":
            if args[0] == FALSE: return [(ns, None, "noreturn")]
            if args[0] and args[0][0] in ("sym", "not", "iseq"): ip.refine(ns, args[0], True)
            return [(ns, None, "ret")]
        if m in LOOKUPS and q.startswith("std::"):
            k = map_kind(dem)
            if k and args[0] and args[0][0] == "p" and args[0][1] == ("arg", 0):
                key = (("cnt", k), ())
                known = ns.mem.get(key)
                outs = []
                for v in (TRUE, FALSE):
                    if known is not None and known != v: continue
                    n2 = st.copy(); n2.mem[key] = v
                    if v == TRUE: n2.prop = (collect, present | {k} if known is None else present, pending, told)
                    outs.append((n2, v, "ret"))
                return outs
            if len(args) > 1 and self.names(st, args[1]) and not k:
                n1, n2 = st.copy(), st.copy()
                n1.prop = (True, present, pending, told)
                return [(n1, TRUE, "ret"), (n2, FALSE, "ret")]
        for k in KINDS:
            if q == k + "::IsUpToDate":
                if pending: self.close(ns, fn, inst, "")
                n1 = ns.copy(); n1.prop = (ns.prop[0], frozenset(), k, told)
                n2 = ns.copy(); n2.prop = (ns.prop[0], frozenset(), None, told)
                return [(n1, TRUE, "ret"), (n2, FALSE, "ret")]
            if q == k + "::MarkOld":
                self.marked.add(k)
                ns.prop = (False, frozenset(), None if pending == k else pending, told)
                return [(ns, None, "ret")]
        if collect and q.startswith("std::") and m in INSERTS:
            ns.prop = (False, present, pending, told)
            return [(ns, None, "ret")]
        if m == "operator++":
            self.close(ns, fn, inst, "")
            return [(ns, None, "ret")]
        if q == "Device::SignalCallbacksOnInterface":
            if len(args) > 2 and self.names(st, args[1]): ns.prop = (collect, present, pending, True)
            return [(ns, None, "ret")]
        return None
    def names(self, st, a):
        return a is not None and (a == ("p", ("arg", 1), ()) or (a[0] == "p" and st.mem.get((a[1], a[2] + (STR,))) == ("s", "$NAME")))

# find() and the comparison with end() are one lookup
def iter_value(tag): return ("sym", "ITER", tag, 0)
def iter_of(st, a):
    if not a or a[0] != "p": return None
    for k, v in st.mem.items():
        if k[0] == a[1] and k[1][:len(a[2])] == a[2] and v and v[0] == "sym" and v[1] == "ITER": return v[2]
    return None
def iter_compare(st, q, args):
    """the tag of the lookup decided by this comparison, and whether true means found"""
    if last(q) in ("operator==", "operator!=") and q.startswith("std::") and len(args) >= 2:
        for a in args[:2]:
            t = iter_of(st, a)
            if t is not None: return t, last(q) == "operator!="
    return None, None
def iter_copy(ns, q, args):
    """iterators converted or copied"""
    if re.search(r"iterator::_?\w*iterator$|::iterator$", q) and len(args) >= 2:
        t = iter_of(ns, args[1])
        if t is not None and args[0] and args[0][0] == "p":
            ns.mem[(args[0][1], args[0][2] + ("_M_node",))] = iter_value(t)
            return True
    return False

def overload(p, q, nparams):
    out = []
    for f in p.find(q):
        params, const = esp.split_params(f.d)
        if params is not None and len(params) == nparams: out.append(f)
    return out

def check_signals(p, res):
    cached = interface_models_cached(p)
    for owner in ("Region", "Interface") if cached else ("Region",):
        for f in overload(p, owner + "::SignalCallbacks", 1):
            rule = SignalRule(p, owner)
            st = entry(f, [(1, "$NAME")]); st.prop = (False, frozenset(), None, False)
            ip, outs = run(p, rule, f, st)
            res.count("signal_functions")
            for s, rv, kind, tr in outs:
                if kind != "ret": continue
                res.count("signal_paths")
                told = s.prop[3]
                rule.close(s, f, None, "")
                if owner == "Region" and cached and not told:
                    res.add("interfaces", f"{f.q}: the interfaces of the region are not told on every path", f.where(), [f"line {x}" for x in trace_lines(tr)])
            for k, (msg, w) in rule.bad.items(): res.add(f"signal:{owner}:{k}", f"{f.q}: {msg}", w)
            want = REGION_KINDS if owner == "Region" else ["InterfaceNodeModel"]
            for k in want:
                res.count("signal_kinds")
                if k not in rule.marked: res.add(f"signal-kind:{owner}:{k}", f"{f.q}: never marks a {k} out of date", f.where())
    res.need("signal_functions", 1)
    check_loops(p, res, cached)
    if cached: check_sides(p, res)

class LoopRule:
    """a loop over `holder` values that has to reach `target` in each round unless `excused`
    prop = (state of this round, lookups of the name that succeeded)"""
    def __init__(self, p, target, value, name_arg, excuse=None, argcheck=None):
        self.p, self.target, self.value, self.name_arg, self.excuse, self.argcheck = p, target, value, name_arg, excuse, argcheck
        self.interesting = {target}
        self.bad, self.reached, self.rounds = None, 0, 0
    def inline(self, g):
        if g.q == self.target: return False
        return None
    def names(self, st, a): return a is not None and (a == ("p", ("arg", self.name_arg), ()) or (a[0] == "p" and st.mem.get((a[1], a[2] + (STR,))) == ("s", "$NAME")))
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        m = last(q)
        ns = st.copy()
        if q == self.target:
            ok = any(self.names(st, a) for a in args[1:])
            if ok: self.reached += 1; ns.prop = ("done", st.prop[1])
            return [(ns, None, "ret")]
        dem = next(iter(ip.p.dem.get(s, s) for s in ip.p.callees(inst)))
        if m == "operator++" and re.search(r"\b%s\*|shared_ptr<%s>" % (self.value, self.value), dem):
            self.rounds += 1
            if st.prop[0] != "done" and not (self.excuse and st.prop[1]):
                self.bad = (fn.where(inst), "a round of the loop does not reach it")
            ns.prop = ("none", False)
            return [(ns, ("sym", "it", 0, 0), "ret")]
        if self.excuse and q.startswith("std::") and m in LOOKUPS and len(args) > 1 and self.names(st, args[1]) and args[0] and args[0][0] == "p" and args[0][2][:1] == (self.excuse,):
            n1, n2 = st.copy(), st.copy()
            n1.prop = (st.prop[0], True)
            return [(n1, TRUE, "ret"), (n2, FALSE, "ret")]
        if self.excuse and q.startswith("std::") and m == "find" and len(args) > 1 and self.names(st, args[1]) and args[0] and args[0][0] == "p" and args[0][2][:1] == (self.excuse,):
            return [(ns, iter_value("name"), "ret")]
        t, pos = iter_compare(st, q, args)
        if t == "name":
            n1, n2 = st.copy(), st.copy()
            n1.prop = (st.prop[0], True)
            return [(n1, TRUE if pos else FALSE, "ret"), (n2, FALSE if pos else TRUE, "ret")]
        if t == "owner" : return None
        if iter_copy(ns, q, args): return [(ns, None, "ret")]
        if self.excuse and q.startswith("std::") and m == "find" and args[0] and args[0][0] == "p" and args[0][1] == ("arg", 0):
            return [(ns, iter_value(args[0][2][0] if args[0][2] else "owner"), "ret")]
        if self.excuse and m == "operator->" and "_iterator" in q:
            t = iter_of(st, args[0])
            if t == self.excuse: return [(ns, ("p", ("arg", 0), (self.excuse,)), "ret")]
        if self.excuse and q.startswith("std::") and m in ("operator[]", "at") and args[0] and args[0][0] == "p" and args[0][1] == ("arg", 0):
            return [(ns, ("p", args[0][1], args[0][2][:1]), "ret")]
        return None

def mutated_field(p, fn):
    """the member of the data base a function stores into"""
    got = set()
    class C(Client):
        def call(self, ip, st, f, inst, qs, args):
            q = only(qs)
            if q and q.startswith("std::") and last(q) in ("operator[]", "insert_or_assign", "insert", "emplace", "try_emplace", "at") and args[0] and args[0][0] == "p" and args[0][1] == ("arg", 0):
                got.add(args[0][2][:1]); return [(st.copy(), ("p", args[0][1], args[0][2][:1]), "ret")]
            return None
        def inline_args(self, ip, st, f, inst, g, args): return g.q.startswith("GlobalData::") and not last(g.q).startswith("Signal")
    Interp(p, C()).run(fn, entry(fn))
    return got

def check_loops(p, res, cached):
    def one(fn, rule, what):
        st = entry(fn, [(rule.name_arg, "$NAME")]); st.prop = ("none", False)
        ip, outs = run(p, rule, fn, st)
        res.count("announcing_loops")
        for s, rv, kind, tr in outs:
            if kind == "ret" and rule.rounds and s.prop[0] == "done":
                res.add(f"loop-left:{fn.q}", f"{fn.q}: {what}: the loop is left before all are told", fn.where())
        if rule.bad: res.add(f"loop:{fn.q}", f"{fn.q}: {what}: {rule.bad[1]}", rule.bad[0])
        if not rule.reached: res.add(f"loop-none:{fn.q}", f"{fn.q}: {what}: never told", fn.where())
    for f in p.find("Device::SignalCallbacksOnInterface") if cached else ():
        one(f, LoopRule(p, "Interface::SignalCallbacks", "Interface", 1), "every interface of the device is told of the change")
    dev = set().union(*[mutated_field(p, f) for f in overload(p, "GlobalData::AddDBEntryOnDevice", 3)])
    reg = set().union(*[mutated_field(p, f) for f in overload(p, "GlobalData::AddDBEntryOnRegion", 4)])
    if len(dev) != 1 or len(reg) != 1: raise Broken("the parameter tables were not found")
    dev, reg = next(iter(dev))[0], next(iter(reg))[0]
    for f in p.find("GlobalData::SignalCallbacksOnGlobal"):
        one(f, LoopRule(p, "GlobalData::SignalCallbacksOnDevice", "Device", 1, dev), "every device without its own value of a global parameter is told of the change")
    for f in p.find("GlobalData::SignalCallbacksOnDevice"):
        one(f, LoopRule(p, "Region::SignalCallbacks", "Region", 2, reg), "every region without its own value of a device parameter is told of the change")
    res.need("announcing_loops", 2)

class SideRule:
    """Interface::SignalCallbacks(name, region): prop = the names it passes on"""
    interesting = {"Interface::SignalCallbacks"}
    def inline(self, g):
        if g.q == "Interface::SignalCallbacks": return False
        return True if is_sub(g.q, "Interface") and len(g.blocks) < 20 else None
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q == "Interface::SignalCallbacks":
            ns = st.copy()
            v = ip.getstr(ns, args[1]) if len(args) > 1 else None
            ns.prop = st.prop | {v[1] if v and v[0] == "s" else "?"}
            return [(ns, None, "ret")]
        return None

def check_sides(p, res):
    r0, r1 = field_path(p, "Interface::GetRegion0"), field_path(p, "Interface::GetRegion1")
    for f in overload(p, "Interface::SignalCallbacks", 2):
        for who, v in (("r0", 1001), ("r1", 1002)):
            st = entry(f, [(1, "$NAME")]); st.prop = frozenset()
            st.mem[(("arg", 0), r0)] = ("c", 1001); st.mem[(("arg", 0), r1)] = ("c", 1002)
            st.env[(0, "a2")] = ("c", v)
            ip, outs = run(p, SideRule(), f, st)
            for s, rv, kind, tr in outs:
                if kind != "ret": continue
                res.count("interface_sides")
                miss = {"$NAME", "$NAME@" + who} - s.prop
                if miss: res.add(f"side:{who}", f"{f.q}: a change in region {who[1]} is not announced as {', '.join(sorted(x.replace('$NAME', 'name') for x in miss))}", f.where())
    res.need("interface_sides", 2)

# -- definitions, parameters, contacts, circuit -----------------------------------------------------
class EventRule:
    """after `changes` every path announces; prop = frozenset of open changes + ("did", x)"""
    def __init__(self, interesting, on, inline=None, unwind=False):
        self.interesting, self.on, self._inline = interesting, on, inline
    def inline(self, g): return self._inline(g) if self._inline else None
    def call(self, ip, st, fn, inst, qs, args):
        q = only(qs)
        if q is None: return None
        dem = next(iter(ip.p.dem.get(s, s) for s in ip.p.callees(inst)))
        return self.on(ip, st, fn, inst, q, dem, args)

def check_definitions(p, res):
    """adding, replacing and deleting a model announces its name"""
    for cls, owner in kinds(p, res).items():
        for what in ("Add", "Delete"):
            fns = p.find(f"{owner}::{what}{cls}")
            if not fns: raise Broken(f"no {owner}::{what}{cls}")
            for f in fns:
                def on(ip, st, fn, inst, q, dem, args, cls=cls, owner=owner):
                    ns = st.copy()
                    m = last(q)
                    mine = args and args[0] and args[0][0] == "p" and args[0][1] == ("arg", 0)
                    if q == f"{owner}::SignalCallbacks":
                        ns.prop = frozenset(x for x in st.prop if x != "change") | {"signal"}
                        return [(ns, None, "ret")]
                    if q == f"{owner}::UnregisterCallback":
                        ns.prop = st.prop | {"unregister"}; return [(ns, None, "ret")]
                    if q.startswith("std::map::") and mine and map_kind(dem.split("(")[0]) == cls and m in ("operator[]", "erase", "insert", "insert_or_assign", "emplace", "try_emplace"):
                        ns.prop = st.prop | {"change", "changed"}
                        return [(ns, ("p", ("slot",), ()), "ret")]
                    return None
                rule = EventRule({f"{owner}::SignalCallbacks", f"{owner}::UnregisterCallback"}, on, lambda g: False if last(g.q) in ("SignalCallbacks", "UnregisterCallback") else (True if g.q.startswith(owner + "::") else None))
                st = entry(f); st.prop = frozenset()
                ip, outs = run(p, rule, f, st)
                res.count("definitions")
                seen = False
                for s, rv, kind, tr in outs:
                    if kind != "ret": continue
                    seen = seen or "changed" in s.prop
                    if "change" in s.prop: res.add(f"define:{owner}::{what}{cls}", f"{f.q}: the model of that name changes and the models that use the name are not marked out of date", f.where(), [f"line {x}" for x in trace_lines(tr)])
                    if what == "Delete" and "changed" in s.prop and "unregister" not in s.prop:
                        res.add(f"unregister:{owner}::{cls}", f"{f.q}: the model is deleted and what it depended on stays registered", f.where())
                if not seen: raise Broken(f"{f.q}: no change of the models found")
    res.need("definitions", 8)

def check_parameters(p, res):
    want = [("AddDBEntryOnRegion", 4, "SignalCallbacksOnRegion", 3), ("AddDBEntryOnRegion", 3, "SignalCallbacksOnRegion", 2), ("AddDBEntryOnDevice", 3, "SignalCallbacksOnDevice", 2), ("AddDBEntryOnGlobal", 2, "SignalCallbacksOnGlobal", 1)]
    for fname, n, sig, namearg in want:
        for f in overload(p, "GlobalData::" + fname, n):
            def on(ip, st, fn, inst, q, dem, args):
                ns = st.copy()
                if q == "GlobalData::" + sig:
                    v = ip.getstr(ns, args[-1])
                    if v == ("s", "$NAME"): ns.prop = frozenset(["told"]) if st.prop else st.prop
                    return [(ns, None, "ret")]
                if q == "ObjectHolder::operator=": ns.prop = frozenset(["change"]); return [(ns, None, "ret")]
                if q.startswith("std::map::") and last(q) in ("insert_or_assign", "insert", "emplace") and "ObjectHolder" in dem: ns.prop = frozenset(["change"]); return [(ns, None, "ret")]
                return None
            rule = EventRule({"GlobalData::" + sig, "ObjectHolder::operator="}, on, lambda g: False if last(g.q) == sig or g.q.startswith("ObjectHolder::") else (True if g.q.startswith("GlobalData::AddDB") else None))
            st = entry(f, [(namearg, "$NAME")]); st.prop = frozenset()
            ip, outs = run(p, rule, f, st)
            res.count("parameter_setters")
            for s, rv, kind, tr in outs:
                if kind == "ret" and "told" not in s.prop: res.add(f"parameter:{fname}/{n}", f"{f.q}: the parameter changes and the models that use it are not marked out of date", f.where())
    for f in p.find("GlobalData::SignalCallbacksOnRegion"):
        def on(ip, st, fn, inst, q, dem, args):
            ns = st.copy()
            if q == "Device::GetRegion": return [(ns, ("nn",), "ret")]
            if q == "Region::SignalCallbacks":
                if ip.getstr(ns, args[1]) == ("s", "$NAME"): ns.prop = frozenset(["told"])
                return [(ns, None, "ret")]
            return None
        rule = EventRule({"Region::SignalCallbacks"}, on, lambda g: False if g.q == "Region::SignalCallbacks" else None)
        st = entry(f, [(3, "$NAME")]); st.prop = frozenset()
        ip, outs = run(p, rule, f, st)
        res.count("parameter_setters")
        if not any("told" in s.prop for s, rv, kind, tr in outs): res.add("parameter:region", f"{f.q}: the region is never told", f.where())
    res.need("parameter_setters", 4)

def check_geometry(p, res):
    """contacts and interfaces that appear or get their elements"""
    want = [("Device::AddContact", "@@@ContactChange", 1), ("Contact::AddEdges", "@@@ContactChange", 1), ("Contact::AddTriangles", "@@@ContactChange", 1),
            ("Device::AddInterface", "@@@InterfaceChange", 2), ("Interface::AddEdges", "@@@InterfaceChange", 2), ("Interface::AddTriangles", "@@@InterfaceChange", 2)]
    for q0, text, n in want:
        for f in p.find(q0):
            def on(ip, st, fn, inst, q, dem, args):
                ns = st.copy()
                if q == "Region::SignalCallbacks":
                    v = ip.getstr(ns, args[1])
                    if v == ("s", text):
                        ns.prop = st.prop | {self_of(args[0], fn, inst)}
                    return [(ns, None, "ret")]
                if last(q) in ("GetRegion0", "GetRegion1", "GetRegion"): return [(ns, ("p", ("region", last(q)), ()), "ret")]
                return None
            def self_of(a, fn, inst):
                return a[1:] if a and a[0] in ("p", "sym") else (fn.n, inst[1])
            rule = EventRule({"Region::SignalCallbacks"}, on, lambda g: False if g.q == "Region::SignalCallbacks" else None)
            st = entry(f); st.prop = frozenset()
            ip, outs = run(p, rule, f, st)
            res.count("geometry_changes")
            for s, rv, kind, tr in outs:
                if kind == "ret" and len(s.prop) < n:
                    res.add(f"geometry:{q0}", f"{f.q}: {'one region is' if s.prop else 'no region is'} told of the change although it concerns {n}", f.where(), [f"line {x}" for x in trace_lines(tr)])
    res.need("geometry_changes", 6)

def check_circuit(p, res):
    """a function outside the circuit code that changes the circuit solution announces every node"""
    CH = {"NodeKeeper::UpdateSolution": 1, "NodeKeeper::CopySolution": 2, "NodeKeeper::SetNodeValue": 1}
    TR = "NodeKeeper::TriggerCallbacksOnNodes"
    def on(ip, st, fn, inst, q, dem, args):
        ns = st.copy()
        if q in CH:
            v = ip.getstr(ns, args[CH[q]]) if len(args) > CH[q] else None
            if v is None or v[0] != "s" or v[1] == "dcop": ns.prop = frozenset(["change"])
            return [(ns, None, "ret")]
        if q == TR: ns.prop = frozenset(["told"]); return [(ns, None, "ret")]
        return None
    callers = p.callers()
    direct = {g.n for s in p.dem if p.q(s) in CH for g, b, k, i in callers.get(s, ()) if not g.q.startswith("NodeKeeper::")}
    # a function that leaves the change to its callers is judged in them
    todo, done, roots = sorted(direct), set(), []
    while todo:
        n = todo.pop()
        if n in done: continue
        done.add(n)
        f = p.fns[n]
        res.count("circuit_changes")
        names = {p.q(x) for x in done} | set(CH) | {TR}
        rule = EventRule({TR} | set(CH), on, lambda g: True if g.n in done else False if g.q.startswith("NodeKeeper::") else (None if "NodeKeeper" in g.d else False))
        st = entry(f); st.prop = frozenset()
        ip, outs = run(p, rule, f, st)
        open_ = [tr for s, rv, kind, tr in outs if kind == "ret" and "change" in s.prop]
        if not open_: continue
        up = {g.n for v in esp.variants(n) for g, b, k, i in callers.get(v, ())}
        small = len(f.blocks) <= 12 and "NodeKeeper" in f.d
        if small and up: todo += sorted(up - done)
        else: res.add(f"circuit:{f.q}", f"{f.q}: the circuit solution changes and the models that use its nodes are not marked out of date", f.where(), [f"line {x}" for x in trace_lines(open_[0])])
    res.need("circuit_changes", 3)
    # and announcing covers names and aliases
    for f in p.find(TR):
        tabs = set()
        for b, k, i in f.calls():
            q = only(p.callee_qs(i))
            dem = next(iter(p.dem.get(s, s) for s in p.callees(i)), "")
            if q and q.startswith("std::map::") and last(q) in ("begin", "cbegin"): tabs.add(dem.split("(")[0])
        res.count("circuit_tables", len(tabs))
        reach = [1 for b, k, i in f.calls() if only(p.callee_qs(i)) in ("NodeKeeper::TriggerCallbackOnNode", "GlobalData::SignalCallbacksOnGlobal")]
        if len(tabs) >= 1 and (len(tabs) < 2 or len(reach) < 2):
            res.add("circuit-names", f"{f.q}: announces {'only one of the node names and aliases' if reach else 'nothing'}", f.where())
    for f in p.find("NodeKeeper::TriggerCallbackOnNode"):
        if not any(only(p.callee_qs(i)) == "GlobalData::SignalCallbacksOnGlobal" for b, k, i in f.calls()): res.add("circuit-name", f"{f.q}: announces nothing", f.where())

def check_dependents(res):
    p = load()
    res.explain = ("ESP over each function that changes a value or a definition: the values of the five model classes, the model tables of regions and interfaces, the parameter tables, contacts and interfaces, the circuit solution. "
                   "On every path the change is followed by the announcement of the name; an announcement marks every current model of each of the five kinds registered for the name and passes it to the interfaces, for every device and region that does not shadow the parameter.")
    check_model_classes(p, res)
    check_signals(p, res)
    check_definitions(p, res)
    check_parameters(p, res)
    check_geometry(p, res)
    check_circuit(p, res)
