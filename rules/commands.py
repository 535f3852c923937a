"""Rules on the command handlers (src/commands), specialised per command name."""
import re
from common import *

CH = "CommandHandler::"
OKS = {CH + x for x in ("SetEmptyResult", "SetObjectResult", "SetStringListResult", "SetIntListResult", "SetDoubleListResult",
                        "SetStringResult", "SetDoubleResult", "SetIntResult", "SetListResult", "SetMapResult")}
GETS = {CH + "GetStringOption": "STRING", CH + "GetDoubleOption": "FLOAT", CH + "GetIntegerOption": "INTEGER",
        CH + "GetBooleanOption": "BOOLEAN", CH + "GetObjectHolder": "ANY", CH + "IsSpecified": "SPEC"}
TYPES = ["BOOLEAN", "STRING", "INTEGER", "FLOAT", "LIST"]

def command_table(p):
    """command name -> handler symbol, from the dispatch wrappers registered with Python"""
    out = {}
    for f in p.fns.values():
        for b, k, i in f.calls():
            if p.callee_qs(i) == {"dsPy::CmdDispatch"} or "dsPy::CmdDispatch" in p.callee_qs(i):
                a = i[4]
                nm = a[3].get("s") if isinstance(a[3], dict) else None
                h = a[4].get("f") if isinstance(a[4], dict) else None
                if nm and h: out[nm] = (h, f)
    return out

def option_tables(p):
    """global symbol -> [(name, default, type, required, check function)]"""
    out = {}
    for g, o in p.globals.items():
        if "dsGetArgs::Option" not in o["ty"]: continue
        rows = []
        for r in o["init"]:
            if isinstance(r, dict): continue
            nm = r[0].get("s") if isinstance(r[0], dict) else None
            if nm is None: continue
            ty = r[2].get("c", 0) if isinstance(r[2], dict) else 0
            rq = r[3].get("c", 0) if isinstance(r[3], dict) else 0
            fn = r[4].get("f") if len(r) > 4 and isinstance(r[4], dict) else None
            rows.append((nm, r[1].get("s") if isinstance(r[1], dict) else None, TYPES[ty], bool(rq), fn))
        out[g] = rows
    return out

# operations that report their own failure: an error of theirs is not an error after a change.
# That they change nothing when they fail is a different matter (for the solver, property C13).
ATTEMPT = ("dsHelper::Create", "GlobalData::DeleteDevice", "dsMesh::MeshKeeper::DeleteMesh", "dsMath::Newton::Solve", "dsMath::Newton::ACSolve", "dsMath::Newton::NoiseSolve")
# the ground node always exists: creating it is not a change
PREPARE = ("AddGroundNode",)
# evaluating a model fills its cache
EVALUATE = ("::GetScalarValues", "::GetUniformValue", "::IsUniform", "::CalculateValues")

CHANGED = (("changed",), ())

class Handler(Client):
    interesting = OKS | {CH + "SetErrorResult", CH + "processOptions", CH + "GetCommandName"} | set(GETS)
    def __init__(self, name, eff, opts):
        self.name, self.opts = name, opts
        self.reads = {}          # option -> set(kind) with the table in force
        self.tables = set()
        self.unresolved = []
        self.overwritten, self.effects, self.early, self.late, self.outcome_sites = [], [], [], [], set()
        self.eff = eff
        self.process_sites = set()
        self.errlocs, self.dropped, self.emptymsg, self.helpers = set(), [], [], set()
        self.undone = []
    def inline_args(self, ip, st, fn, inst, g, args):
        # only what is handed the handler itself (directly or in a closure) can set its outcome
        if g.q.startswith(CH): return False
        if g.q.startswith("dsValidate::"): return True
        for a in args:
            if a and a[0] == "p":
                if a[1] == ("data",): return g.n in ip.reach
                for (o, path), v in st.mem.items():
                    if o == a[1] and v and v[0] == "p" and v[1] == ("data",): return g.n in ip.reach
        return len(g.blocks) <= self.str_blocks and ip.str_interest(st, inst[3].get("f"), args) if "f" in inst[3] else False
    def changes(self, g, fn, inst, args):
        """may this call change anything but the handler's own locals?"""
        for x in self.eff.get(g.n, ()):
            if x == "shared": return True
            if x < len(args) and args[x] and args[x][0] == "p" and args[x][1][0] in ("al", "data"): continue
            if x < len(inst[4]) and root_of(fn, inst[4][x])[0] in ("global", "call", "unknown", "arg"): return True
        return False
    def call(self, ip, st, fn, inst, qs, args):
        # prop = (outcome, rejected, table)
        out, rej, tab = st.prop
        if CH + "GetCommandName" in qs:
            return [(st.copy(), ("p", ("data",), ("command_name",)), "ret")]
        if args and args[0] in self.errlocs and "std::__cxx11::basic_string::~basic_string" in qs:
            v = ip.getstr(st, args[0])
            if out == "ok" and v != ("s", ""): self.dropped.append((fn, inst, v))
            return None
        if args and args[0] in self.errlocs and qs & {"std::__cxx11::basic_string::operator=", "std::__cxx11::basic_string::assign", "std::__cxx11::basic_string::clear"}:
            # a message that is replaced by nothing is lost
            v = ip.getstr(st, args[0])
            w = ip.getstr(st, args[1]) if len(args) == 2 else (("s", "") if len(args) == 1 else None)
            if out != "err" and v is not None and v != ("s", "") and w == ("s", ""): self.dropped.append((fn, inst, v))
            return None
        if CH + "SetErrorResult" in qs:
            if ip.getstr(st, args[1]) == ("s", ""): self.emptymsg.append((fn, inst))
            self.outcome_sites.add((fn.n, inst[2]))
            m = st.mem.get(CHANGED)
            if m: self.undone.append((fn, inst, m))
            ns = st.copy(); ns.prop = ("err", rej, tab)
            return [(ns, None, "ret")]
        if qs & OKS:
            self.outcome_sites.add((fn.n, inst[2]))
            if out == "err" or rej:
                self.overwritten.append((fn, inst, rej))
            ns = st.copy(); ns.prop = ("ok", rej, tab)
            return [(ns, None, "ret")]
        if CH + "processOptions" in qs:
            self.process_sites.add((fn.n, inst[2]))
            g = args[1][1][1] if args[1] and args[1][0] == "p" and args[1][1][0] == "g" else None
            if g: self.tables.add(g)
            a = st.copy(); a.prop = (out, True, g)
            if args[2] and args[2][0] == "p":
                ip.setstr(a, args[2], ("nonempty",)); self.errlocs.add(args[2])
            b = st.copy(); b.prop = (out, rej, g)
            return [(a, TRUE, "ret"), (b, FALSE, "ret")]
        if "Device::GetDimension" in qs:
            # a device has dimension 1, 2 or 3, the same throughout one command
            if st.mem.get((("dim",), ())): return [(st.copy(), st.mem[(("dim",), ())], "ret")]
            r = []
            for d in (1, 2, 3):
                ns = st.copy(); ns.mem[(("dim",), ())] = ("c", d); r.append((ns, ("c", d), "ret"))
            return r
        if "GlobalData::GetDevice" in qs and tab and st.mem.get((("dev",), ())) is None and any(r[4] and "mustBeValidDevice" in r[4] for r in self.opts.get(tab, ())):
            # the option table already rejected names that are not devices
            return [(st.copy(), ("nn",), "ret")]
        if qs & set(GETS):
            q = next(iter(qs & set(GETS)))
            sret = 1 if len(inst[4]) == 3 else 0
            s = ip.getstr(st, args[1 + sret])
            if not rej:
                if s and s[0] == "s": self.reads.setdefault(s[1], set()).add((GETS[q], tab, fn.n, inst[2]))
                else: self.unresolved.append((fn, inst))
            ns = st.copy()
            if sret: ip.havoc_obj(ns, args[0])
            return [(ns, None, "ret")]
        if inst[7] == "i1" and not any(q.startswith("std::") for q in qs):
            # a helper that is handed the message returns whether it succeeded
            for n, a in enumerate(args):
                if a in self.errlocs and all(not ip.param_const(x, n, len(args)) and x not in ip.reach for x in ip.p.callees(inst)):
                    self.helpers.update(qs)
                    x, y = st.copy(), st.copy()
                    for z in (x, y):
                        for m, b in enumerate(args):
                            if m != n: 
                                for sym in ip.p.callees(inst):
                                    if not ip.param_const(sym, m, len(args)): ip.havoc_obj(z, b)
                    ip.setstr(y, a, ("nonempty",))
                    return [(x, TRUE, "ret"), (y, FALSE, "ret")]
        if rej or tab is None or out in ("err", "none"):
            for s in ip.p.callees(inst):
                g = ip.p.resolve(s)
                if g is None or g.n in ip.reach or not self.changes(g, fn, inst, args): continue
                if not rej and g.q.endswith(PREPARE): continue
                if rej: self.effects.append((fn, inst, g))
                elif tab is None: self.early.append((fn, inst, g))
                elif out == "err": self.late.append((fn, inst, g))
                elif CHANGED not in st.mem and not g.q.startswith(ATTEMPT) and not g.q.endswith(EVALUATE):
                    ns = st.copy(); ip.opaque(ns, s, args)
                    ns.mem[CHANGED] = ("m", g.q, fn.n, inst[2])
                    return [(ns, None, "ret")]
        return None

_cache = None
def analyse():
    """one pass over all commands, shared by the command properties"""
    global _cache
    if _cache is not None: return _cache
    p = load()
    table = command_table(p)
    if len(table) < 90: raise Broken(f"only {len(table)} commands found")
    eff = effects(p)
    opts = option_tables(p)
    res = {}
    for name, (h, disp) in sorted(table.items()):
        fn = p.resolve(h)
        if fn is None: raise Broken(f"handler of {name} not found")
        c = Handler(name, eff, opts)
        ip = Interp(p, c)
        data = ("p", ("data",), ())
        st = State({(0, "a0"): data}, {(("data",), ("command_name", STR)): ("s", name)}, ("none", False, None))
        outs = ip.run(fn, st)
        res[name] = (fn, c, outs, ip)
    _cache = (p, table, res)
    return _cache

MUTSTD = ("insert", "push_back", "erase", "clear", "emplace", "emplace_back", "resize", "assign", "operator=", "reset", "swap", "pop_back", "reserve", "push_front", "operator+=")
BENIGN = ("ObjectHolder::", "OutputStream::", "dsErrors::", "CommandHandler::", "FPECheck::", "dsPy::", "EnsurePythonGIL::")

def root_of(fn, o, depth=0):
    """where a pointer comes from: 'local', ('arg', k), ('global', g) or 'heap'/'unknown'"""
    while depth < 40:
        depth += 1
        if isinstance(o, dict):
            if "a" in o: return ("arg", o["a"])
            if "g" in o: return ("global", o["g"])
            if "ge" in o: o = o["ge"]; continue
            return ("const",)
        i = fn.inst(o)
        if i is None: return ("unknown",)
        if i[0] == "alloca": return ("local",)
        if i[0] == "gep": o = i[3]; continue
        if i[0] == "cast": o = i[4]; continue
        if i[0] == "load": 
            r = root_of(fn, i[3], depth)
            if r == ("local",): return ("unknown",)   # pointer kept in a local
            return r if r[0] != "local" else ("unknown",)
        if i[0] == "call":
            q = fn.prog.callee_qs(i)
            if i[4] and any(x.startswith(("std::", "__gnu_cxx::")) and x.rsplit("::", 1)[-1] in ("operator[]", "at", "operator*", "operator->", "get", "front", "back", "data") for x in q):
                o = i[4][0]; continue
            if any(x.startswith(("operator new", "_Znwm", "malloc")) for x in q): return ("heap",)
            return ("call",)
        return ("unknown",)
    return ("unknown",)

def effects(p):
    """per function: which of its arguments' objects it may change, and whether it changes shared state.
    {name: set of argument indices and 'shared'}"""
    roots = {}
    eff = {}
    def root(f, o):
        k = (f.n, o if isinstance(o, int) else str(o))
        if k not in roots: roots[k] = root_of(f, o)
        return roots[k]
    def add(f, r):
        if r[0] == "arg":
            if r[1] < len(f.aty) and f.aty[r[1]] == "sret": return False
            if ("C2E" in f.n or "C1E" in f.n) and r[1] == 0: return False
            x = r[1]
        elif r[0] in ("global", "call", "unknown"): x = "shared"
        else: return False
        e = eff.setdefault(f.n, set())
        if x in e: return False
        e.add(x); return True
    skip = lambda f: f.q.startswith(BENIGN) or f.q.endswith(("::GetInstance", "::instance"))
    work = []
    for f in p.fns.values():
        if skip(f): continue
        for b, insts in enumerate(f.blocks):
            for i in insts:
                if i[0] == "store":
                    if add(f, root(f, i[4])): work.append(f.n)
                elif i[0] == "call":
                    for q in p.callee_qs(i):
                        if q.startswith("std::") and q.rsplit("::", 1)[-1] in MUTSTD and i[4]:
                            r = root(f, i[4][0])
                            if r[0] in ("arg", "global") and add(f, r): work.append(f.n)
    callers = p.callers()
    while work:
        s = work.pop()
        for v in esp.variants(s):
            for f, b, k, i in callers.get(v, ()):
                if skip(f): continue
                ch = False
                for x in list(eff.get(s, ())):
                    if x == "shared": ch |= add(f, ("global",))
                    elif x < len(i[4]):
                        r = root(f, i[4][x])
                        ch |= add(f, r)
                if ch: work.append(f.n)
    return eff

# ---------------------------------------------------------------- the checks
def src_trace(fn, tr, limit=40):
    try: src = open(fn.file).read().split("\n")
    except OSError: return []
    return [f"{rel(fn.file)}:{l}: {src[l-1].strip()[:120]}" for l in trace_lines(tr, limit) if 0 < l <= len(src)]

# the message of a probe for existence is not an error
PROBE = {
    "create_contact_from_interface": "the contact must not exist yet: the message of that probe is discarded",
    "set_initial_condition": "a list that does not convert is cleared and the emptiness test that follows replaces the message",
}

def check_outcome(res):
    p, table, out = analyse()
    res.explain = ("every path of every command handler, specialised to the command name, from entry to return (path-sensitive typestate: "
                   "no outcome / error / result); a return without an outcome, an error replaced by a result, an error with an empty "
                   "message and a result set while a failure message is pending are violations")
    res.assumptions = ["devices have dimension 1 to 3", "a helper that is handed the message and returns bool returns false exactly when it reports",
                       "a handler that throws is answered by the dispatcher (property C05)"]
    for name, (fn, c, outs, ip) in out.items():
        res.count("commands"); res.count("states", ip.nstates); res.count("outcome_sites", len(c.outcome_sites)); res.count("exits", len(outs))
        for s, rv, k, tr in outs:
            if k == "ret" and s.prop[0] == "none":
                res.add(f"no-outcome:{name}", f"command {name} can return without a result and without an error", fn.where(), src_trace(fn, tr))
        for f, i, rej in c.overwritten:
            if not rej:
                res.add(f"overwritten:{name}", f"command {name}: an error already reported is replaced by a result", f.where(i))
        for f, i, v in c.dropped:
            if name not in PROBE:
                res.add(f"dropped:{name}", f"command {name}: a result is returned although a failure message is pending", f.where(i))
        for f, i in c.emptymsg:
            res.add(f"empty:{name}", f"command {name}: the error is reported with an empty message", f.where(i))
        if not any(s.prop[0] == "ok" for s, rv, k, tr in outs):
            res.add(f"never-succeeds:{name}", f"command {name}: no path returns a result", fn.where())
    res.need("commands", 100); res.need("outcome_sites", 300)

# reads and idempotent preparation that may happen whatever the options are
def check_rejection(res):
    p, table, out = analyse()
    res.explain = ("on every path on which option processing reported an error, the handler performs no call that can change program state "
                   "(interprocedural mutation summaries) and sets no result afterwards, and it sets the error; every handler processes its options exactly once")
    res.assumptions = ["creating the ground circuit node before the options are processed is idempotent preparation"]
    for name, (fn, c, outs, ip) in out.items():
        res.count("commands"); res.count("option_processing_sites", len(c.process_sites))
        if len(c.process_sites) == 0:
            res.add(f"no-processing:{name}", f"command {name} never validates its options", fn.where())
        for s, rv, k, tr in outs:
            if k == "ret" and s.prop[1] and s.prop[0] != "err":
                res.add(f"rejected-no-error:{name}", f"command {name}: its options were rejected but no error is reported", fn.where(), src_trace(fn, tr))
            if k == "ret" and s.prop[1]: res.count("rejecting_exits")
            if k == "ret" and s.prop[2] is None and s.prop[0] == "ok":
                res.add(f"unprocessed:{name}", f"command {name} can succeed without validating its options", fn.where(), src_trace(fn, tr))
        for f, i, rej in c.overwritten:
            if rej: res.add(f"rejected-result:{name}", f"command {name}: a result replaces the rejection of its options", f.where(i))
        for f, i, g in c.effects:
            res.add(f"rejected-effect:{name}:{g.q}", f"command {name}: {g.q} is performed although the options were rejected", f.where(i))
        for f, i, g in c.early:
            res.add(f"early-effect:{name}:{g.q}", f"command {name}: {g.q} is performed before the options are validated", f.where(i))
        for f, i, m in c.undone:
            res.add(f"half-done:{name}:{m[1]}", f"command {name} reports an error (line {i[2]}) after {m[1]} was performed (line {m[3]})", f.where(i))
        for f, i, g in c.late:
            res.add(f"late-effect:{name}:{g.q}", f"command {name}: {g.q} is performed after the command reported an error", f.where(i))
    res.need("commands", 100); res.need("rejecting_exits", 100)

def convertible(ty, default):
    if ty == "FLOAT":
        if default in ("MAXDOUBLE", "-MAXDOUBLE"): return True    # known to the accessor
        try: float(default); return True
        except (ValueError, TypeError): return False
    if ty == "BOOLEAN":    # a non-empty string is true
        return (default or "").lower() not in ("0", "false", "no", "off", "none")
    if ty == "INTEGER":
        try: int(default); return True
        except (ValueError, TypeError): return False
    return True

def check_options(res):
    p, table, out = analyse()
    opts = option_tables(p)
    res.explain = ("each option a handler reads (name, accessor) is declared in the option table in force on that path, with the type the accessor "
                   "expects; each declared option is read by a command that uses the table; table entries are unique and defaults of the declared type")
    res.assumptions = ["option names computed at run time (reported as unresolved_reads) are not decided"]
    used = {}
    for name, (fn, c, outs, ip) in out.items():
        res.count("commands"); res.count("unresolved_reads", len(c.unresolved))
        for t in c.tables:
            u = used.setdefault(t, [set(), [], False])
            u[1].append(name); u[2] |= bool(c.unresolved)
            rows = {r[0]: r for r in opts.get(t, ())}
            for o, k in c.reads.items():
                for kind, tt, f, line in sorted(k, key=str):
                    if tt is None: res.add(f"read-before:{name}:{o}", f"command {name} reads option {o} before its options are validated", fn.where())
                    if tt != t: continue
                    res.count("option_reads"); u[0].add(o)
                    if o not in rows:
                        res.add(f"undeclared:{name}:{o}", f"command {name} reads option {o}, which it does not declare", f"{fn.file}:{line}")
                    elif kind not in ("SPEC", "ANY") and rows[o][2] != kind:
                        res.add(f"type:{name}:{o}", f"command {name} declares option {o} as {rows[o][2]} and reads it as {kind}", f"{fn.file}:{line}")
    for t, (reads, names, unres) in used.items():
        rows = opts.get(t)
        if rows is None: raise Broken(f"option table {t} has no constant initialiser")
        res.count("tables")
        seen = set()
        for nm, default, ty, req, fnc in rows:
            res.count("declared_options")
            if nm in seen: res.add(f"duplicate:{names[0]}:{nm}", f"command {'/'.join(names)} declares option {nm} twice")
            seen.add(nm)
            if nm not in reads and not unres:
                res.add(f"unread:{names[0]}:{nm}", f"command {'/'.join(names)} accepts option {nm} and ignores it", p.globals[t].get("file", ""))
            if not req and not convertible(ty, default):
                res.add(f"default:{names[0]}:{nm}", f"command {'/'.join(names)}: the default {default!r} of option {nm} is not {ty}")
    documentation(res, p, out, opts)
    res.need("documented_options", 200)
    res.need("tables", 70); res.need("option_reads", 300); res.need("declared_options", 250)

def documented(p):
    """command -> (names in the signature, name -> (kind, default or None)) from the method table handed to Python"""
    docs = {}
    for g, o in p.globals.items():
        if "PyMethodDef" not in o["ty"]: continue
        for r in o["init"]:
            if isinstance(r, dict) or "s" not in r[0] or "s" not in r[3]: continue
            doc = r[3]["s"]
            m = re.search(r"devsim\.(\w+) \(([^)]*)\)", doc)
            if not m: continue
            ps, cur = {}, None
            for line in doc.split("\n"):
                x = re.match(r"    (\w+) : (.*)$", line)
                if x: cur = x.group(1); ps[cur] = [x.group(2), None]; continue
                d = re.search(r"\(default (.*?)\)\s*$", line)
                if cur and d: ps[cur][1] = d.group(1)
            docs[r[0]["s"]] = ({x.strip() for x in m.group(2).split(",") if x.strip()}, ps)
    return docs

def same_default(ty, doc, code, others):
    if doc.startswith("'"): return ty != "STRING" or doc.strip("'") == code or doc.strip("'") in others
    if ty == "BOOLEAN": return doc not in ("True", "False") or (doc == "True") == bool(code)
    if ty in ("FLOAT", "INTEGER"):
        x, y = doc.lstrip("+"), code
        if "MAXDOUBLE" in x: return x == y
        try: x = float(x)
        except ValueError: return True      # described in words
        try: return x == float(y)
        except ValueError: return False
    return True

def documentation(res, p, out, opts):
    docs = documented(p)
    for name, (fn, c, outs, ip) in out.items():
        if name not in docs:
            res.add(f"undocumented:{name}", f"command {name} is not in the method table handed to Python with a description", fn.where()); continue
        sig, ps = docs[name]
        for t in c.tables:
            rows = {r[0]: r for r in opts[t]}
            for o in sorted(sig | set(ps)):
                res.count("documented_options")
                if o not in rows:
                    res.add(f"doc-undeclared:{name}:{o}", f"command {name} documents option {o} and rejects it as invalid", fn.where()); continue
                kind, dflt = ps.get(o, ("", None))
                if "optional" in kind and rows[o][3]:
                    res.add(f"doc-required:{name}:{o}", f"command {name} documents option {o} as optional and requires it", fn.where())
                if dflt and not rows[o][3] and not same_default(rows[o][2], dflt, rows[o][1], rows):
                    res.add(f"doc-default:{name}:{o}", f"command {name}: option {o} is documented with default {dflt} and declared with {rows[o][1]!r}", fn.where())
