"""What each option of an equation contributes: where, with which weight and sign, in which mode."""
from assembly import *
from commands import command_table
from esp import Interp, State, Client

# the options of the commands, and what a model given for them contributes:
# option: (mode, where, kind of model by dimension, {end of the element: (sign, parameter that names the weight)})
FLUX = lambda w: {"0": (1, w), "1": (-1, w)}
EDGE, ELEMENT = {1: "Edge", 2: "Edge", 3: "Edge"}, {2: "TriangleEdge", 3: "TetrahedronEdge"}
NODE = {1: "Node", 2: "Node", 3: "Node"}
BULK = {
    "node_model": ("DC", "rows", NODE, {"": (1, "node_volume_model")}),
    "edge_model": ("DC", "rows", EDGE, FLUX("edge_couple_model")),
    "edge_volume_model": ("DC", "rows", EDGE, {"0": (1, "edge_node0_volume_model"), "1": (1, "edge_node1_volume_model")}),
    "element_model": ("DC", "rows", ELEMENT, FLUX("element_edge_couple_model")),
    "volume_node0_model": ("DC", "rows", ELEMENT, {"0": (1, "element_node0_volume_model")}),
    "volume_node1_model": ("DC", "rows", ELEMENT, {"1": (1, "element_node1_volume_model")}),
}
ON_CIRCUIT = {f"{k}_{what}_model": (t, "circuit", kind, w) for what, t in (("current", "DC"), ("charge", "TIME"))
    for k, kind, w in (("node", NODE, {"": (1, "node_volume_model")}), ("edge", EDGE, FLUX("edge_couple_model")), ("element", ELEMENT, FLUX("element_edge_couple_model")))}
AREA = "surface_area_model"
SPEC = {
    "equation": dict(BULK, time_node_model=("TIME", "rows", NODE, {"": (1, "node_volume_model")})),
    "contact_equation": dict(BULK, **ON_CIRCUIT),
    "interface_equation": {"interface_model": {
        "continuous": {"1": (1, None)}, "fluxterm": {"0": (1, AREA), "1": (-1, AREA)}, "hybrid": {"1": (-1, AREA)}}},
}
REPORTED = {"calcCurrent": "current", "calcCharge": "charge"}

class Command(Client):
    """a command, up to the equation it makes"""
    str_depth = 2
    max_depth = 6
    def __init__(self, p, makers):
        self.p, self.makers, self.made = p, makers, []
    def fact(self, st, k): return dict(st.prop).get(k)
    def text(self, st, a):
        if not a: return None
        if a[0] == "s": return a[1]
        if a[0] != "p": return None
        v = st.mem.get((a[1], a[2] + ("$str",)))
        return v[1] if v and v[0] == "s" else None
    def call(self, ip, st, fn, inst, qs, args):
        syms = self.p.callees(inst)
        if len(syms) != 1: return None
        q, d = self.p.q(syms[0]), self.p.dem.get(syms[0], syms[0])
        sret = args[inst[8]] if inst[8] >= 0 and len(args) > inst[8] else None
        rest = [a for j, a in enumerate(args) if j != inst[8]]
        if q == "CommandHandler::GetStringOption" and len(rest) == 2:
            t = self.text(st, rest[1])
            if t is None: return None
            s = st.copy()
            v = ("s", f"«{t}»")
            ptr = sret or ("p", ("option", t), ())
            s.mem[(ptr[1], ptr[2] + ("$str",))] = v
            return [(s, None if sret else ptr, "ret")]
        if q in ("std::operator==", "std::operator!=") and "basic_string" in d and len(args) == 2:
            x, y = self.text(st, args[0]), self.text(st, args[1])
            if x is None or y is None: return None
            if x.startswith("«") == y.startswith("«"): return None
            opt, lit = (x, y) if x.startswith("«") else (y, x)
            out = []
            for t in (True, False):
                known = dict(st.prop)
                if known.get((opt, lit), t) != t: continue
                if t and any(k[0] == opt and v and k[1] != lit for k, v in known.items()): continue
                s = st.copy()
                known[(opt, lit)] = t
                s.prop = frozenset(known.items())
                out.append((s, TRUE if t == q.endswith("==") else FALSE, "ret"))
            return out
        if q == "std::__cxx11::basic_string::empty":
            t = self.text(st, args[0])
            if t is None or not t.startswith("«"): return None
            out = []
            for e in (True, False):
                known = dict(st.prop)
                if known.get((t, ""), e) != e: continue
                s = st.copy()
                known[(t, "")] = e
                s.prop = frozenset(known.items())
                out.append((s, TRUE if e else FALSE, "ret"))
            return out
        g = self.p.resolve(syms[0])
        if g and g.n in self.makers:
            self.made.append((g.n, tuple(("s", self.text(st, a)) if self.text(st, a) is not None else a for a in args), st.prop))
            return [(st.copy(), None, "ret")]
        if syms[0] in self.p.fns and self.p.fns[syms[0]].file == fn.file and "GetStringOption" in self.reach(syms[0]): return None
        if q.startswith(("std::", "__gnu_cxx")): return None
        return [(st.copy(), None, "ret")]
    def reach(self, n, memo={}):
        if n not in memo:
            memo[n] = {last(self.p.q(s)) for _, _, i in self.p.fns[n].calls() for s in self.p.callees(i)}
        return memo[n]
    def inline_args(self, ip, st, fn, inst, callee, args): return callee.file == fn.file

def command_of(p, ctor):
    """the functions that call a constructor and read options"""
    out = []
    for f in p.fns.values():
        if not f.file.startswith("/repo/src/commands"): continue
        cs = {g.n for _, _, i in f.calls() for s in p.callees(i) if last(p.q(s)) == last(p.fns[ctor].q) for g in [p.resolve(s)] if g}
        if ctor in cs: out.append(f)
    return out

def readers(p, f):
    """the command a function belongs to: itself if it reads the options, or its callers"""
    seen, todo = set(), [f.n]
    out = []
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        g = p.fns[n]
        if g.d.endswith("(CommandHandler&)"): out.append(g); continue
        todo += [c for c in callers_of(p, n)]
    return out
def callers_of(p, n, memo={}):
    if not memo:
        for f in p.fns.values():
            if f.file.startswith("/repo/src/commands"):
                for _, _, i in f.calls():
                    for s in p.callees(i): memo.setdefault(s, set()).add(f.n)
    return memo.get(n, ())

class Fields(Assembly):
    """a constructor: which member gets which argument"""
    def call(self, ip, st, fn, inst, qs, args):
        syms = self.p.callees(inst)
        if len(syms) == 1 and self.p.q(syms[0]).startswith("std::__cxx11::basic_string::"): return None
        return super().call(ip, st, fn, inst, qs, args)

def options_of(r, p, root):
    """{member: {option: what}} of the class of an assembly function, the commands, and {option value: member value}"""
    cls = root.q.rsplit("::", 1)[0]
    ctors = [f for f in p.fns.values() if f.q == cls + "::" + cls and len(f.args) > 2]
    made = []
    commands = {}
    for c in ctors:
        for f in command_of(p, c.n):
            for g in readers(p, f): commands[g.n] = g
    names = {c.n for c in ctors}
    fields, values = {}, {}
    for g in commands.values():
        client = Command(p, names)
        env = {(0, "a%d" % j): ("p", ("par", j), ()) for j in range(len(g.args))}
        Interp(p, client).run(g, State(env, {}, frozenset()))
        for sym, args, known in client.made:
            c = p.fns[sym]
            mem, env = {}, {(0, "a0"): THIS}
            for j, a in enumerate(args):
                if j == 0: continue
                if a and a[0] == "s":
                    mem[(("arg", j), ("$str",))] = a
                    a = ("p", ("arg", j), ())
                if a is not None: env[(0, "a%d" % j)] = a
            for s, rv, k, tr in Interp(p, Fields(p)).run(c, State(env, mem, START)):
                if k != "ret": continue
                for (b, path), v in s.mem.items():
                    if b != ("this",) or not v: continue
                    if path[-1] == "$str" and v[0] == "s": fields.setdefault(path[:-1], set()).add(v[1].strip("«»"))
                    elif v[0] == "c":
                        for (opt, lit), t in known:
                            if t and lit: values.setdefault(path, {}).setdefault(opt.strip("«»"), {}).setdefault(lit, set()).add(v[1])
    return fields, values, commands, ctors

class Weights:
    """the parameter that names the model a getter gives"""
    def __init__(self, p): self.p, self.memo = p, {}
    def __call__(self, lit, client):
        b = client.literals.get(lit)
        if not b or b[1][0] != "named": return None
        if lit in self.memo: return self.memo[lit]
        out = set()
        for f in self.p.fns.values():
            if last(f.q) == "Get" + b[1][1] and f.file.startswith("/repo/src"):
                for _, _, i in f.calls():
                    if any(last(self.p.q(s)).startswith("GetDBEntry") for s in self.p.callees(i)): out |= self.strings(f)
        r = next(iter(out)) if len(out) == 1 else None
        self.memo[lit] = r
        return r
    def strings(self, f):
        c = Texts(self.p)
        Interp(self.p, c).run(f, State({(0, "a%d" % j): ("p", ("par", j), ()) for j in range(len(f.args))}, {}, frozenset()))
        return c.seen
class Texts(Command):
    def __init__(self, p):
        super().__init__(p, ())
        self.seen = set()
    def call(self, ip, st, fn, inst, qs, args):
        if any(last(q).startswith("GetDBEntry") for q in qs):
            self.seen |= {self.text(st, a) for a in args if self.text(st, a)}
        return super().call(ip, st, fn, inst, qs, args)

class Bad(Exception): pass

class Summary:
    """what a unit loads, for each end of an element"""
    def __init__(self, p, D, W, sym, args, client, options):
        self.p, self.D = p, D
        f = self.f = p.fns[sym]
        self.name = f.q
        self.bad, self.notes = [], []
        m, v, _ = vectors(f.d)
        self.ends, self.kinds, self.where, self.rows = {}, set(), set(), set()
        lists = [None]
        first = None
        c, ip, rs = self.run(args, W, client, None)
        self.npaths = len(rs)
        for twice in [None] + sorted(c.lists, key=repr):
            if twice is not None: c, ip, rs = self.run(args, W, client, twice)
            self.look(rs, c, options)
    def run(self, args, W, client, twice):
        c = Assembly(self.p, twice=twice)
        c.literals = dict(client.literals)
        ip = Interp(self.p, c)
        rs = ip.run(self.f, bind(self.p, self.f, lambda j, t: args[j], W["RHS"]))
        if c.unknown: raise Broken("it is not known " + c.unknown)
        return c, ip, [x for x in rs if x[2] == "ret"]
    def look(self, rs, c, options):
        D = self.D
        D.c = c
        all_, per = {}, []
        for s, rv, k, tr in rs:
            rep = representative(s.prop[0], D)
            same = {}
            for (kk, t) in s.prop[0]:
                if kk[0] == "same":
                    for x in kk[1:3]: same.setdefault(D.canonical(x), set()).add(t)
            got = {}
            entries = [(vs[0], vs[1], line) for vs, line in s.prop[1]]
            if rv is not None and poly(rv) is not None and rv[0] in ("poly", "d") and not entries: entries = [(None, poly(rv), self.f.line)]
            for row, val, line in entries:
                for m, coef in val[1]:
                    own = [a for a in m if a[0] == "el" and a[1][3] in options]
                    ws = [a for a in m if a[0] == "el" and a[1][3] not in options]
                    if len(own) + len(ws) != len(m): raise Broken(f"{self.name} loads something that is not known at line {line}")
                    if len(own) != 1 or len(ws) > 1:
                        self.bad.append((line, f"{shown(val)} is loaded"))
                        continue
                    a = own[0]
                    self.kinds.add(a[1][1])
                    idx = D.canonical(a[2])
                    nodes = D.nodes(a[1], a[2])[:2]
                    ends = [""] if len(nodes) == 1 else ["0", "1"]
                    mine = [k for k in range(len(nodes)) if True in same.get(D.canonical(nodes[k][2]), ())]
                    if row is None or single(row)[0] is None or single(row)[0][0] == "crow":
                        self.where.add("value" if row is None else "circuit")
                        if len(nodes) == 1: k = 0
                        elif len(mine) == 1: k = mine[0]
                        else:
                            self.bad.append((line, f"{shown(val)} is loaded where the node of the contact is not known to be at an end of the edge"))
                            continue
                    else:
                        at, off = single(row)
                        if at is None or at[0] != "row" or off: raise Broken(f"the row loaded by {self.name} is not known")
                        self.where.add("rows")
                        k = next((k for k in range(len(nodes)) if rep(nodes[k][2]) == rep(at[3]) and rep(nodes[k][1]) == rep(at[1])), None)
                        if k is None:
                            self.bad.append((line, f"{shown(val)} is loaded into the row of {shown(at[3])}"))
                            continue
                        e = single(at[2])[0]
                        self.rows.add((ends[k], e[2] if e and e[0] == "eqidx" else None, e[1] == at[1] if e and e[0] == "eqidx" else False))
                    for w in ws:
                        ok = (w[1][1] == a[1][1] and D.canonical(w[2]) == idx) or rep(w[2]) == rep(a[2])
                        if not ok and w[1][1] == "Node" and rep(w[1][2]) == rep(nodes[k][1]):
                            ok = rep(D.obj(D.acc("Region::GetNodeList", w[1][2]), w[2])) == rep(nodes[k][2])
                        if not ok: self.bad.append((line, f"the weight {shown(('poly', frozenset({((w,), 1)})))} is used for {shown(('poly', frozenset({((a,), 1)})))}"))
                    wn = ws[0][1][3] if ws else None
                    key = (idx, ends[k])
                    if (key, wn) in got: got[(key, wn)] += coef
                    else: got[(key, wn)] = coef
                    all_.setdefault(key, (nodes, k, a))
            per.append((s, got, same))
        for s, got, same in per:
            for (key, wn), coef in got.items():
                if coef: self.ends.setdefault(key[1], {}).setdefault((coef, wn), s)
        T = {k: sum(c for c, w in v) for k, v in self.ends.items() if len(v) == 1}
        for s, got, same in per:
            have = {key for key, wn in got}
            for key, (nodes, k, a) in all_.items():
                if key in have: continue
                if not self.justified(s, same, nodes, k, a, T):
                    self.notes.append((key[1], [f"{shown(x)} is {t}" for x, t in sorted(s.prop[0], key=repr) if x[0] not in ("exists", "same", "in", "empty", "circuit node")][:3]))
    def justified(self, s, same, nodes, k, a, T):
        D = self.D
        ns = [D.canonical(x[2]) for x in nodes]
        if False in same.get(ns[k], ()) : return True
        if any(j != k and True in same.get(ns[j], ()) for j in range(len(ns))): return True
        inside = {}
        for kk, t in s.prop[0]:
            if kk[0] == "in":
                x = D.canonical(kk[2])
                if x in ns: inside.setdefault(ns.index(x), set()).add(t)
                elif not t and self.where == {"rows"} and "Interface" in a[1][1]: return True
            if kk[0] == "zero" and t and any(a[1:] == b[1:] or b[0] == "el" and b[1][3] == a[1][3] for m, c in kk[1][1] for b in m): return True
            if kk[0] == "exists" and not t: return True
        if a[1][1] == "InterfaceNode" and any(False in v for v in inside.values()): return True
        if len(ns) == 2 and a[1][1] != "InterfaceNode" and all(True in inside.get(j, ()) for j in (0, 1)) and sum(T.values()) == 0: return True
        # a list that was empty, or of another element
        return False

def shown_end(e, kind): return {"": "each node", "0": "the first side" if kind == "InterfaceNode" else "the node @n0 of each edge", "1": "the second side" if kind == "InterfaceNode" else "the node @n1 of each edge"}[e]
def shown_terms(d):
    return ", ".join(f"{c:+g} times the model" + (f" times {w}" if w else "") + f" at {shown_end(e, kind)}" for (e, kind), (c, w) in sorted(d.items())) or "nothing"

def setting(facts, name):
    """what is known of a member that is compared with constants: (must be, cannot be)"""
    yes, no = set(), set()
    for k, t in facts:
        if k[0] == "is" and k[2] and str(k[2][-1]) == name: (yes if t else no).add(k[3])
    return yes, no

def dimensions(facts):
    """the dimensions a path is for"""
    out = {1, 2, 3}
    for k, t in facts:
        if k[0] != "zero": continue
        d = terms(k[1])
        m = [x for x in d if x]
        if len(m) != 1 or len(m[0]) != 1 or m[0][0][0] != "ld" or not m[0][0][2] or m[0][0][2][-1] != "dimension": continue
        out = {n for n in out if (d.get((), 0) + d[m[0]] * n == 0) == t}
    return out

def equal_names(facts):
    eq = {}
    for k, t in facts:
        if k[0] == "equal" and t:
            a, b = sorted(k[1:3])
            eq[b] = eq.get(a, a)
    return lambda x: eq.get(x, x)

def check_terms(r):
    p = load()
    both, us = units(p)
    W = modes()
    table = command_table(p)
    of = {h: name for name, (h, _) in table.items()}
    D = Derivative(p, Assembly(p))
    weights = Weights(p)
    sums, jobs, plans = {}, [], []
    for f in [f for f in p.fns.values() if f.n in both and f.n not in us and last(f.q) == "DerivedAssemble"]:
        fields, values, commands, ctors = options_of(r, p, f)
        names = {of[n] for n in commands if n in of} & set(SPEC)
        if len(names) != 1: continue
        command = names.pop()
        spec = SPEC[command]
        r.count("equations that are assembled")
        field_of = {}
        for path, opts in fields.items():
            for o in opts: field_of.setdefault(o, set()).add(path)
        for o in spec:
            if o not in field_of: r.add(f"{command}:{o}:unused", f"the option {o} of {command} is not kept by the equation", f.where())
        for path, opts in fields.items():
            if len(opts) > 1 and opts & set(spec): r.add(f"{command}:{path[-1]}:options", f"{path[-1]} keeps the option {' or '.join(sorted(opts))} of {command}", ctors[0].where())
        plans.append((f, command, spec, fields, values))
        for t, mode in ((0, "DC"), (1, "TIME")):
            client = Assembly(p)
            ways = terms_of(p, us, f, W["MATRIXANDRHS"], t, client)
            r.count("ways through what an equation is made of", len(ways))
            plans[-1] += ((mode, ways, client),)
            for c in {x for fa, cs in ways for x in strip(p, cs)}:
                if ("s", "") not in c[1]: jobs.append((f, c, client, fields))
    def run(k):
        f, c, client, fields = jobs[k]
        lits = {lit for lit, b in client.literals.items() if b[1] == ("this",) and b[2] in fields}
        try: u = Summary(p, D, W, c[0], c[1], client, lits)
        except (Broken, Budget) as e: return None, f"{type(e).__name__}: {e}"
        return (u.ends and {k: [x for x in v] for k, v in u.ends.items()}, u.kinds, u.where, u.rows, u.bad, u.notes, u.npaths), None
    done = {}
    for (f, c, client, fields), (u, bad) in zip(jobs, parallel(run, len(jobs))):
        done[(f.n, c)] = u
        r.count("assembly functions analysed, with their models and signs")
        if bad:
            r.count("assembly functions not decided")
            r.samples.append("not decided: " + bad)
    for f, command, spec, fields, values, *modes_ in plans:
        options = {}
        for path, opts in fields.items():
            for o in opts & set(spec): options.setdefault(path, set()).add(o)
        for mode, ways, client in modes_:
            compose(r, p, f, command, spec, fields, options, values, mode, ways, client, done, weights)
    reported(r, p, W, D, plans, weights)
    r.explain = ("Each command that makes an equation, contact equation or interface equation is interpreted up to the constructor, and the constructor, to know which member holds which option; "
        "what the equation is made of is then interpreted with each option empty or given, in each mode and dimension, and each function it calls is summarised: for each end of an arbitrary element, the rows it loads, the coefficient, and the weight, named by the parameter it is read from. "
        "On every path the sum of what is loaded for an option is compared with a table of what the option stands for; the current and charge of a contact are compared in the same way.")
    r.assumptions += ["the table of what each option contributes is taken from the manual", "that each entry is loaded once and at the right place in the matrix is decided by C15"]
    r.need("equations that are assembled", 2)
    r.need("options followed", 10)

def unit_terms(r, p, f, c, u, client, fields, weights, command):
    """{(option, where, end): (coefficient, weight)} of a call, or None"""
    g = p.fns[c[0]]
    at = f"{rel(g.file)}:{g.line} in {g.q}"
    what = shown_args(c[1])
    ends, kinds, where, rows, bad, notes, npaths = u
    r.count("paths through the assembly functions", npaths)
    for line, msg in bad: r.add(f"{g.q}:{what}:bad", f"for {what}, {msg}", f"{rel(g.file)}:{line} in {g.q}")
    for end, why in notes: r.add(f"{g.q}:{what}:left out", f"for {what}, some of what is at {shown_end(end, next(iter(kinds)))} is left out" + (f" where {', '.join(why)}" if why else ""), at)
    for end, eq, same in rows:
        opts = None
        b = client.literals.get(eq) if eq else None
        if b is None:
            path = next((x for x in fields if x and eq == f"«{x[-1]}»"), None)
            opts = fields.get(path)
        else: opts = fields.get(b[2])
        want = {"name"} if command != "interface_equation" else {"name" + end}
        if not same or (opts is not None and not opts & want):
            r.add(f"{g.q}:{what}:row", f"for {what}, the row at {shown_end(end, next(iter(kinds)))} is that of the equation {eq}" + ("" if same else " of another region"), at)
    out = {}
    for end, vs in ends.items():
        if len(vs) > 1: r.add(f"{g.q}:{what}:differs", f"for {what}, what is loaded at {shown_end(end, next(iter(kinds)))} is {' or '.join(f'{c:+g} times {w}' for c, w in sorted(vs, key=repr))}", at)
        out[end] = vs[0]
    if not bad and not out: r.add(f"{g.q}:{what}:nothing", f"for {what}, nothing is loaded", at)
    return out, kinds, where

def compose(r, p, f, command, spec, fields, options, values, mode, ways, client, done, weights):
    memo = {}
    field_path = {o: path for path, opts in options.items() for o in opts}
    lit_of = {}
    for lit, b in client.literals.items():
        if b[1] == ("this",) and b[2] in options: lit_of[lit] = sorted(options[b[2]])
    said = set()
    for facts, calls in ways:
        calls = strip(p, calls)
        if any(("s", "") in c[1] or done.get((f.n, c)) is None for c in calls): continue
        dims, eq = dimensions(facts), equal_names(facts)
        empty = {k[1][2]: t for k, t in facts if k[0] == "empty" and k[1][0] == "p" and k[1][1] == ("this",)}
        have = {}
        for c in calls:
            if c not in memo: memo[c] = unit_terms(r, p, f, c, done[(f.n, c)], client, fields, weights, command)
            ends, kinds, where = memo[c]
            lits = [a[1] for a in c[1] if a and a[0] == "s" and a[1] in lit_of]
            for o in {o for l in lits for o in lit_of[l]}:
                for end, (coef, w) in ends.items():
                    wn = weights(w, client) if w else None
                    key = (eq_option(o, eq, lit_of), end, tuple(sorted(where)), tuple(sorted(kinds)))
                    have.setdefault(key, {})
                    wk = eq(w) if w else None
                    have[key][wk] = have[key].get(wk, 0) + coef
        want = {}
        for o, s in spec.items():
            if o not in field_path: continue
            on = empty.get(field_path[o])
            if command == "interface_equation":
                if mode != "DC" or on is True: continue
                yes, no = set(), set()
                vs = {path: x for path, x in values.items() if "type" in x and len({frozenset(v) for v in x["type"].values()}) > 1}
                kinds_ = set()
                for path, x in vs.items():
                    y, n = setting(facts, str(path[-1]))
                    for lit, nums in x["type"].items():
                        if (not y or nums & y) and not nums <= n: kinds_.add(lit)
                if len(kinds_) != 1: continue
                t = s.get(kinds_.pop())
                if t is None: continue
                for end, (coef, w) in t.items(): want.setdefault((eq_option(o, eq, lit_of), end, ("rows",), ("InterfaceNode",)), {})[w] = coef
                continue
            m, where, kind, ends = s
            if m != mode or on is True: continue
            if where == "circuit" and empty.get(next((x for x, os in fields.items() if "circuit_node" in os), None)) is not False: continue
            ks = {kind.get(n) for n in dims}
            if ks == {None}: continue
            if len(ks) > 1 and on is None: ks = ks - {None}
            if len(ks) > 1: ks -= {None}
            for end, (coef, w) in ends.items():
                key = (eq_option(o, eq, lit_of), end, (where,), tuple(sorted(ks)))
                want.setdefault(key, {})
                want[key][w] = want[key].get(w, 0) + coef
        back = {}
        for lit in client.literals:
            n = weights(lit, client)
            if n: back[n] = lit
        for key in set(want) | set(have):
            a = {}
            for w, coef in want.get(key, {}).items():
                x = eq(back.get(w, w)) if w else None
                a[x] = a.get(x, 0) + coef
            b = have.get(key, {})
            a, b = {k: v for k, v in a.items() if v}, {k: v for k, v in b.items() if v}
            if a == b: continue
            kinds = key[3][0] if key[3] else ""
            say = lambda d: " and ".join(f"{v:+g} times the model" + (f" times {k}" if k else "") for k, v in sorted(d.items(), key=repr)) or "nothing"
            k2 = (key[0], key[1], mode, say(b))
            if k2 in said: continue
            said.add(k2)
            only = [shown_fact(k, t) for k, t in sorted(facts, key=repr) if k[0] in ("empty", "zero")]
            r.add(f"{command}:{':'.join(map(str, key[0]))}:{key[1]}:{mode}:{'/'.join(key[2])}", f"for the option {' and '.join(key[0])} of {command}, in the {'static' if mode == 'DC' else 'time'} part, {shown_end(key[1], kinds)} gets {say(b)} ({'/'.join(key[2])}, {'/'.join(key[3])}), and should get {say(a)}", f.where(), only[:12])
    r.count("options followed", sum(1 for o, s in spec.items() if o in field_path and (mode == "DC" if isinstance(s, dict) else s[0] == mode)))

def shown_fact(k, t): return f"{shown(k)} is {t}"
def eq_option(o, eq, lit_of):
    """options whose models are the same one"""
    lits = {x: l for l, os in lit_of.items() for x in os}
    l = lits.get(o)
    if l is None: return (o,)
    return tuple(sorted(x for x, y in lits.items() if eq(y) == eq(l)))

class Parts(Assembly):
    """a sum of what functions that look models up return"""
    def unit(self, ip, st, fn, inst, sym, args):
        g = self.p.resolve(sym)
        if g is None or g.n not in self.units: return None
        c = (g.n, tuple(("s", self.name(st, a)) if self.is_string(sym, j, len(args)) else a for j, a in enumerate(args)))
        self.calls.add(c)
        return [(st.copy(), atom("call", c), "ret")]

def integrals(p):
    """the functions that return a number and look the models up"""
    out = set()
    for n, f in p.fns.items():
        if not re.search(r"/Equation/|/AutoEquation/", f.file) or vectors(f.d)[0] is not None or f.rty in ("void", "ptr"): continue
        if any(LOOKUP.search(p.q(s)) for _, _, i in f.calls() for s in p.callees(i)): out.add(n)
    return out

def reported(r, p, W, D, plans, weights):
    """the current and charge of a contact are the sum of what its options load on the circuit node"""
    leaves = integrals(p)
    memo = {}
    for f, command, spec, fields, values, *_ in plans:
        if not any(isinstance(x, tuple) and x[1] == "circuit" for x in spec.values()): continue
        cls, inst = f.q.rsplit("::", 1)[0], f.d.split("::" + last(f.q))[0]
        path_of = {o: path for path, os in fields.items() for o in os}
        for name, what in REPORTED.items():
            want = {o: x for o, x in spec.items() if isinstance(x, tuple) and x[1] == "circuit" and f"_{what}_" in o}
            gs = [g for g in p.fns.values() if last(g.q) == name and g.d.startswith(inst + "::") and len(g.args) == 1]
            if len(gs) != 1: continue
            g = gs[0]
            client = Parts(p)
            client.units = leaves
            rs = Interp(p, client).run(g, State({(0, "a0"): THIS}, {}, START))
            if client.unknown: raise Broken("it is not known " + client.unknown)
            read = [h for h in p.fns.values() if last(h.q) == "Get" + name[4:] and vectors(h.d)[0] is None and re.search(r"ContactEquation<" + re.escape(inst.split("<", 1)[1]), h.d) and len(h.args) == 1]
            if len(read) != 1: raise Broken(f"it is not known what gives the {what} of a contact")
            seen = set()
            n = 0
            for s, rv, k, tr in rs:
                if k != "ret": continue
                n += 1
                facts = held(s)
                dims = dimensions(facts)
                got = [x for x in Interp(p, Assembly(p)).run(read[0], State({(0, "a0"): THIS}, s.mem, START)) if x[2] == "ret"]
                if len(got) != 1 or poly(got[0][1]) is None: raise Broken(f"the {what} of a contact is not known")
                have = {}
                lits = {lit: b[2] for lit, b in client.literals.items() if b[1] == ("this",) and b[2] in fields}
                for m, c in poly(got[0][1])[1]:
                    if len(m) != 1 or m[0][0] != "call":
                        r.add(f"{command}:{what}:other", f"the {what} of a contact has a part {shown(('poly', frozenset({(m, c)})))} that is not the integral of a model", g.where())
                        continue
                    sym, args = m[0][1]
                    if (sym, args) not in memo: memo[(sym, args)] = Summary(p, D, W, sym, args, client, set(lits))
                    u = memo[(sym, args)]
                    h = p.fns[sym]
                    for line, msg in u.bad: r.add(f"{h.q}:bad", f"for {shown_args(args)}, {msg}", f"{rel(h.file)}:{line} in {h.q}")
                    for end, why in u.notes: r.add(f"{h.q}:left out", f"for {shown_args(args)}, some of what is at {shown_end(end, next(iter(u.kinds)))} is left out" + (f" where {', '.join(why)}" if why else ""), h.where())
                    os = [o for a in args if a and a[0] == "s" and a[1] in lits for o in fields[lits[a[1]]]]
                    for end, vs in u.ends.items():
                        if len(vs) > 1: r.add(f"{h.q}:differs", f"for {shown_args(args)}, what is summed at {shown_end(end, next(iter(u.kinds)))} is {' or '.join(f'{x:+g} times {w}' for x, w in sorted(vs, key=repr))}", h.where())
                        (x, w) = next(iter(vs))
                        key = (tuple(os), end, tuple(sorted(u.kinds)))
                        have.setdefault(key, {})
                        wn = weights(w, client) if w else None
                        have[key][wn] = have[key].get(wn, 0) + x * c
                expect = {}
                for o, (m, where, kind, ends) in want.items():
                    if any(k == ("empty", ("p", ("this",), path_of.get(o))) and t for k, t in facts): continue
                    ks = {kind.get(x) for x in dims}
                    if len(ks) > 1 or ks == {None}: continue
                    for end, (x, w) in ends.items(): expect[((o,), end, tuple(ks))] = {w: x}
                for key in set(have) | set(expect):
                    a, b = expect.get(key, {}), {k: v for k, v in have.get(key, {}).items() if v}
                    if a == b or (key[0], key[1], repr(b)) in seen: continue
                    seen.add((key[0], key[1], repr(b)))
                    say = lambda d: " and ".join(f"{v:+g} times the model" + (f" times {k}" if k else "") for k, v in sorted(d.items(), key=repr)) or "nothing"
                    r.add(f"{command}:{what}:{':'.join(key[0])}:{key[1]}", f"in the {what} of a contact, the option {' and '.join(key[0])} counts at {shown_end(key[1], key[2][0])} with {say(b)} ({'/'.join(key[2])}), and should with {say(a)}", g.where())
            r.count("ways through the current and charge of a contact", n)
