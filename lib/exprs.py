"""P13: expressions keep every token.

Emission: for each kind of expression node, which of its fields does expr_doc() emit?
Construction: every token taken and every operand ends up in exactly one emitted field.
"""
from absint import Client, Engine, State
from conserve import TAKE, TAKE_PAIR, TAKE_MANY, tkarg
from tokens import args_of

FILE = "expr.c"
DOC = "expr_doc"
EXEC = "expr_exec1"


def violate(res, prop, rule, where, msg, trace, key):
    res.violate(prop, rule, where, msg, trace, key)


class Emit(Client):
    """walk expr_doc() for a node of one kind; auto = (fields emitted, simplified, element, indices)"""
    max_states = 60000
    max_seconds = 120
    max_inline = 6
    roots = ()

    def __init__(self, prog, res, prop, typ, name, exempt):
        self.prog, self.res, self.prop = prog, res, prop
        self.typ, self.name, self.exempt = typ, name, exempt
        self.twice = set()
        self.tokens = set()

    def keep(self, sid):
        return isinstance(sid, tuple) and sid[0] in ("F", "E", "MOV")

    @staticmethod
    def field(v):
        if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "F":
            return v[1][1]
        return None

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None:
            return None
        b, off = l
        if b == ("S", ("arg", "NODE")):
            if off == 0:
                return ("i", self.typ)
            return ("s", ("F", off))
        if b[0] == "S" and isinstance(b[1], tuple) and b[1][0] == "F" and (off is None or off % 8 == 0) and \
           ins.ty == "ptr" and b[1][1] in self.vectors:
            k = 0 if off == 0 else 1
            if k:
                f, simple, elems = st.auto
                st.auto = (f, simple, elems | {"lost" if "got" in elems else "got"})
            return ("s", ("E", b[1][1], k))
        return None

    vectors = frozenset()

    def gep(self, eng, ins, base, idx, st):
        # element of a vector of operands at a variable index
        if self.field(base) in self.vectors and idx and idx[-1] != ("i", 0) and base[0] == "s":
            return ("p", ("S", base[1]), 8)
        return None

    def call(self, eng, ins, name, args, st, ctx):
        fields, simple, elems = st.auto
        vals = [a for a in args if a is not None]
        if name == DOC:
            self.node(ins, args[0], st)
            return [dict(ret=("s", ("doc", ctx, ins.fn.name, ins.res)))]
        if name == "doc_append":
            self.node(ins, args[0], st)
            return "skip"
        if name is None:
            for a in vals:
                if self.field(a) is not None:
                    self.tokens.add(self.field(a))
                    self.node(ins, a, st)
            return "skip"
        if name == "token_is_moveable" and self.field(args[0]) is not None:
            return [dict(ret=("s", ("MOV", ("s", ("F", self.field(args[0]))))), havoc=False)]
        if name == "simple_enter":
            q = st.copy()
            q.auto = (q.auto[0], q.auto[1] | frozenset(a[1] for a in vals[1:2] if a[0] == "i"), q.auto[2])
            return [dict(ret=("i", 0)), dict(base=q, ret=("i", 1))]
        t = self.prog.resolve(ins.fn.tu, name)
        if t is not None and t.tu.short == FILE and t.name != DOC and \
           any(self.field(a) is not None or a == ("s", ("arg", "NODE")) or
               (a[0] == "s" and isinstance(a[1], tuple) and a[1][0] == "E") for a in vals):
            return "inline"
        return "skip"

    def node(self, ins, v, st):
        fields, simple, elems = st.auto
        off = self.field(v)
        if off is None:
            if v[0] == "s" and isinstance(v[1], tuple) and v[1][0] == "E":
                off = ("v", v[1][1])
                elems = (elems | {v[1][2]}) - ({"got"} if v[1][2] else set())
                st.auto = (fields | {off}, simple, elems)
            return
        if off in fields:
            self.twice.add((off, ins.where, ins.fn.name, tuple(st.trace_list())))
        st.auto = (fields | {off}, simple, elems)


def emitted(prog, res, prop, enums, vectors):
    """per kind: the fields emitted whenever they are set"""
    fn = prog.need(DOC, FILE)
    kinds = sorted((v, n) for n, v in enums.items())
    parens = prog.enums.get("SIMPLE_EXPR_PARENS")
    cover = {}
    for typ, name in kinds:
        c = Emit(prog, res, prop, typ, name, parens)
        c.vectors = vectors
        args = args_of(fn)
        args[0] = ("s", ("arg", "NODE"))
        eng = Engine(prog, c)
        outs = eng.run(fn, args, State({}, {}, {}, (frozenset(), frozenset(), frozenset())))
        res.count("emission_paths", len(outs))
        ever = set()
        for rv, q in outs:
            ever |= q.auto[0]
        full = set(ever)
        why = {}
        for rv, q in outs:
            res.obligations += 1
            for off in ever - q.auto[0]:
                if isinstance(off, tuple):
                    continue        # a loop over no elements
                v = ("s", ("F", off))
                if eng.decide(q, "eq", v, ("i", 0)) is True:
                    continue
                if name == "EXPR_PARENS" and parens in q.auto[1] and off in c.tokens and \
                   eng.decide(q, "eq", ("s", ("MOV", v)), ("i", 0)) is False:
                    continue
                full.discard(off)
                why[off] = q.trace_list()
            for off in q.auto[0]:
                if isinstance(off, tuple) and (0 not in q.auto[2] or q.auto[2] & {"got", "lost"}):
                    full.discard(off)
                    why[off] = q.trace_list()
        for off, where, f, tr in sorted(c.twice, key=str):
            violate(res, prop, "part-twice", "%s (%s)" % (where, f),
                    "a part of %s is emitted twice" % name, list(tr), "%s %s" % (name, off))
        cover[typ] = (name, frozenset(full), why)
    return cover


class Build(Client):
    """construction of nodes; auto = (pending items, {node: fields}, error)"""
    max_states = 60000
    max_seconds = 120
    max_inline = 6

    def __init__(self, prog, res, prop, ctxname):
        self.prog, self.res, self.prop = prog, res, prop
        self.n = 0

    def keep(self, sid):
        return False

    def never_null(self, sid):
        return isinstance(sid, tuple) and sid and sid[0] in ("T", "N", "C", "D", "LHS", "V")

    @staticmethod
    def nid(v):
        """the node a value designates"""
        if v is not None and v[0] == "s" and isinstance(v[1], tuple) and v[1] and v[1][0] in ("N", "C", "LHS"):
            return v
        return None

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None or l[0][0] != "S":
            return None
        n = self.nid(("s", l[0][1]))
        if n is None:
            return None
        pend, nodes, err = st.auto
        for m, fs in nodes:
            if m == n:
                for o, v in fs:
                    if o == l[1] and v is not None:
                        return v
        if l[1] == self.voff and ins.ty == "ptr":
            return ("s", ("V", n[1]))
        if l[1] != 0 and n[1][0] == "N":
            return ("i", 0)
        return None

    voff = None

    def gep(self, eng, ins, base, idx, st):
        # an element of a vector of operands
        if base[0] == "s" and isinstance(base[1], tuple) and base[1] and base[1][0] == "V":
            return base
        return None

    def store(self, eng, ins, val, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None or l[0][0] != "S":
            return
        pend, nodes, err = st.auto
        n = self.nid(("s", l[0][1]))
        off = l[1]
        if n is None:
            s = l[0][1]
            if not (isinstance(s, tuple) and s and s[0] == "V"):
                return
            n, off = ("s", s[1]), ("v", self.voff)
        d = dict((m, dict(fs)) for m, fs in nodes)
        fs = d.setdefault(n, {})
        if isinstance(off, tuple):
            i = 0
            while (off[0], off[1], i) in fs:
                i += 1
            off = (off[0], off[1], i)
            if i > 4:
                return
        fs[off] = val
        st.auto = (pend, self.pack(d), err)

    @staticmethod
    def pack(d):
        return tuple(sorted(((m, tuple(sorted(fs.items(), key=str))) for m, fs in d.items()), key=str))

    def call(self, eng, ins, name, args, st, ctx):
        pend, nodes, err = st.auto
        site = (ctx, ins.fn.name, ins.bb.name, ins.idx)
        where = "%s (%s)" % (ins.where, ins.fn.name)
        if name == "arena_calloc":
            return [dict(ret=self.make(eng, st, ("N",) + site), havoc=False)]
        if name in TAKE | TAKE_PAIR | TAKE_MANY:
            self.n += 1
            q = st.copy()
            v = self.make(eng, q, ("T",) + site)
            a = q.auto
            out = [(tkarg(name, args), v)] if tkarg(name, args)[0] in ("p", "s") else []
            q.auto = (a[0] + ((v, where, "token"),), a[1], a[2])
            fail = dict(ret=("i", 0))
            if name in ("lexer_expect_impl", "lexer_pop"):
                fail["auto"] = (pend, nodes, True)
            return [fail, dict(base=q, ret=("i", 1), mem=out, havoc=False)]
        if name == "lexer_get_error":
            return [dict(ret=("i", 0)), dict(ret=("i", 1), auto=(pend, nodes, True))]
        if name in ("lexer_error",):
            return [dict(ret=("s", "self"), auto=(pend, nodes, True))]
        if name == EXEC or name is None:
            rule = name is None and len(args) == 2 and (args[1] == ("i", 0) or self.nid(args[1]) is not None)
            kind = "operand" if name == EXEC or rule else "part parsed elsewhere"
            q = st.copy()
            eng.havoc_args(q, args, site, True)
            if rule:
                # the rule consumes the token at hand and its left operand
                gone = closure(args[1], q.auto[1], self.cover)
                q.auto = (tuple(p for p in q.auto[0] if p[0] not in gone and p[2] != "token"),) + q.auto[1:]
            bad = q.copy()
            v = self.make(eng, q, ("C" if name == EXEC or rule else "D",) + site)
            q.auto = (q.auto[0] + ((v, where, kind),),) + q.auto[1:]
            alts = [dict(base=q, ret=v, havoc=False)]
            if not rule:
                alts.append(dict(base=bad, ret=("i", 0), havoc=False))
            else:
                bad.auto = bad.auto[:2] + (True,)
                alts.append(dict(base=bad, ret=("i", 0), havoc=False))
            return alts
        if name == DOC:
            return [dict(ret=("s", ("doc", ins.res)),
                         auto=(tuple(p for p in pend if p[0] != args[0]), nodes, err))]
        t = self.prog.resolve(ins.fn.tu, name)
        if t is not None and t.tu.short == FILE and not t.name.startswith("expr_doc"):
            return "inline"
        if self.prog.noreturn(ins) or any(a[0] == "p" and a[1][0] == "A" for a in args):
            return "skip"
        # functions of other files know nothing about expression nodes
        return [dict(ret=("s", "self"), havoc=False)]

    def make(self, eng, st, sid):
        return eng.fresh(st, sid, True)


def rule_functions(prog):
    """functions of the operator table -> may they be called with and without a left operand"""
    out = {}
    tu = [t for t in prog.tus if t.short == FILE][0]

    def scan(v, last):
        if v is None:
            return
        if v[0] == "agg":
            ints = [x for _, x in v[1] if x is not None and x[0] == "i"]
            for _, x in v[1]:
                if x is not None and x[0] == "g":
                    f = prog.resolve(tu, x[1])
                    if f is not None:
                        if ints:
                            out.setdefault(f, set()).add(bool(ints[0][1] & 0x80000000))
                        else:
                            out.setdefault(f, set()).update((True, False))
                else:
                    scan(x, v)
    for g in tu.globals.values():
        scan(g[1], None)
    return out


def closure(rv, nodes, cover):
    """how often is each value emitted as part of rv"""
    nd = {m: dict(fs) for m, fs in nodes}
    count = {}
    work = [rv] if rv is not None and rv != ("i", 0) else []
    if work:
        count[rv] = 1
    while work:
        n = work.pop()
        fs = nd.get(n)
        if fs is None:
            continue
        t = fs.get(0)
        for off, v in fs.items():
            if off == 0 or v is None:
                continue
            o = ("v", off[1]) if isinstance(off, tuple) else off
            if t is None:
                # an operand extended in place: only its elements may be added to
                ok = isinstance(off, tuple) and any(o in c[1] for c in cover.values())
            else:
                ok = t[0] == "i" and t[1] in cover and o in cover[t[1]][1]
            if not ok:
                continue
            count[v] = count.get(v, 0) + 1
            if count[v] == 1:
                work.append(v)
    return count


def judge(res, prop, eng, rv, q, cover, fname, root):
    pend, nodes, err = q.auto
    if err:
        return
    nd = {m: dict(fs) for m, fs in nodes}
    count = closure(rv, nodes, cover)
    for v, where, kind in pend:
        n = count.get(v, 0)
        if n == 1:
            continue
        if n == 0:
            names = [cover[fs[0][1]][0] for m, fs in nd.items()
                     if fs.get(0, (None,))[0] == "i" and fs[0][1] in cover and any(x == v for x in fs.values())]
            msg = "the %s obtained here is not kept in a part of the expression that is always emitted" % kind
            if names:
                msg += " (%s)" % ", ".join(sorted(set(names)))
        else:
            msg = "the %s obtained here is emitted %d times" % (kind, n)
        tr = q.trace_list()
        for m, fs in nd.items():
            if fs.get(0, (None,))[0] == "i" and fs[0][1] in cover:
                for off, x in fs.items():
                    o = ("v", off[1]) if isinstance(off, tuple) else off
                    if x == v and o in cover[fs[0][1]][2]:
                        tr = tr + ["not emitted on:"] + cover[fs[0][1]][2][o]
        violate(res, prop, "part-dropped" if n == 0 else "part-twice", where, msg, tr, "%s %s" % (root.name, fname))


def p13(prog, res, prop):
    fn = prog.need(DOC, FILE)
    ex = prog.need(EXEC, FILE)
    enums = fn.tu.enum_members("expr_type")
    res.floor("node_kinds", len(enums), 10)
    vecs = vector_offset(prog)
    voff = min(vecs) if vecs else None
    cover = emitted(prog, res, prop, enums, vecs)
    rules = rule_functions(prog)
    es = ("s", ("arg", ex.params[0][0]))
    # expr_exec1 itself, discovering where the token at hand is kept
    slots = set()

    class First(Build):
        def call(self, eng, ins, name, args, st, ctx):
            if name is None:
                for k, v in st.mem.items():
                    if k[0] == ("S", es[1]) and v[0] is not None and v[0][0] == "s" and \
                       isinstance(v[0][1], tuple) and v[0][1] and v[0][1][0] == "T":
                        slots.add(k[1])
            return Build.call(self, eng, ins, name, args, st, ctx)
    total = 0
    jobs = [(ex, First, [es] + [("s", ("arg", n)) for n, _ in ex.params[1:]], None, "expression")]
    entry = prog.need("expr_exec", FILE)
    jobs.append((entry, Build, args_of(entry), None, "expression"))
    done = 0
    for fnx, cls, args, lhs, what in jobs:
        c = cls(prog, res, prop, what)
        c.voff = voff
        c.cover = cover
        eng = Engine(prog, c)
        for rv, q in eng.run(fnx, args, State({}, {}, {}, ((), (), False))):
            res.obligations += 1
            if fnx is entry and rv is not None and rv[0] == "s" and isinstance(rv[1], tuple) and rv[1][0] == "doc":
                rv = None
            judge(res, prop, eng, rv, q, cover, what, fnx)
        total += c.n
        done += 1
    if len(slots) != 1:
        res.floor("token_slots", 0, 1)
        return
    slot = slots.pop()
    for g in sorted(rules, key=lambda g: g.name):
        for unary in sorted(rules[g]):
            c = Build(prog, res, prop, g.name)
            c.voff = voff
            c.cover = cover
            tk = ("s", ("T", "at hand"))
            lhs = ("i", 0) if unary else ("s", ("LHS",))
            pend = ((tk, "%s (%s)" % (FILE, g.name), "token"),)
            if not unary:
                pend += ((lhs, "%s (%s)" % (FILE, g.name), "left operand"),)
            s0 = ("s", ("arg", g.params[0][0]))
            mem = {(("S", s0[1]), slot): (tk, None)}
            eng = Engine(prog, c)
            for rv, q in eng.run(g, [s0, lhs], State({}, mem, {}, (pend, (), False))):
                res.obligations += 1
                judge(res, prop, eng, rv, q, cover, "unary" if unary else "binary", g)
            total += c.n
            done += 1
    res.count("tokens_taken", total)
    res.floor("operator_functions", len(rules), 8)
    res.floor("constructors", done, 10)


def vector_offset(prog):
    """offset within struct expr of the vector of operands"""
    eng = Engine(prog, Client())
    out = set()
    for f in prog.functions():
        if f.tu.short == FILE:
            for c in f.calls():
                if c.callee == ("g", "vector_alloc"):
                    t = eng.field_of(f, c.args[0])
                    if t is not None:
                        out.add(t[1])
    return out
