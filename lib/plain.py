"""P16: without -s nothing but the layout changes.

Every function is walked under the assumption that simplifications are off: simple_enter() and is_simple_enabled()
return 0.  Calls that change the tokens and are still feasible make a function changing; so do calls of changing
functions.  No function called from outside may be changing.  The assumption itself is proven of simple.c and knfmt.c."""
from absint import Client, Engine, State
from conserve import enum_value
from docs import cstr, offs
from ir import AnalysisError, macro
from tokens import args_of, ret_ins

CHANGE = {"lexer_remove", "lexer_insert_after", "lexer_move_after", "lexer_move_before", "lexer_copy_after", "token_set_str",
          "token_list_append", "token_list_append_after", "token_list_prepend",
          "token_list_remove", "token_list_swap"}
LITERAL = {"doc_literal_impl", "doc_literal_n_impl"}
# the reading side, subject of P15 and P17; layout of documents, subject of P14; alignment of directives
BELOW = {"lexer.c", "clang.c", "token.c", "simple.c", "doc.c", "cpp-align.c"}
TYPED = {"lexer_if": 1, "lexer_expect": 1, "lexer_peek_if": 1, "lexer_back_if": 1}


class Off(Client):
    max_states = 60000
    merge_at = 8
    max_seconds = 240

    def __init__(self, prog, res, prop):
        self.prog, self.res, self.prop = prog, res, prop
        self.semi = enum_value(prog, "TOKEN_SEMI")
        self.force = enum_value(prog, "SIMPLE_FORCE") if "SIMPLE_FORCE" in prog.enums else macro("simple.h", "SIMPLE_FORCE")
        self.sort = enum_value(prog, "SIMPLE_CPP_SORT_INCLUDES")
        self.guards = enum_value(prog, "IncludeGuards")
        self.test = macro("expr.h", "EXPR_EXEC_TEST")
        self.tflag = (("struct.expr_state", offs(prog, "expr_state", ["es_ea.flags"], "expr.c")["es_ea.flags"]),
                      ("struct.expr_exec_arg", offs(prog, "expr_exec_arg", ["flags"], "expr.c")["flags"]))
        self.ttype = offs(prog, "token", ["tk_type"], "parser.c")["tk_type"]
        self.changing = {}
        self.found = []
        self.zero = set()
        self.enters = 0

    def group(self, st):
        return st.auto

    def load(self, eng, ins, ptr, st, ctx):
        if ins.fn.tu.short == "expr.c" and eng.tag(ins.fn, ins.args[0], ins.ty)[:2] in self.tflag:
            return ("s", "TESTFLAGS")
        return None

    def keep(self, sid):
        return sid == "TESTFLAGS"

    def arith(self, eng, ins, op, x, y, st):
        if op == "and" and ("s", "TESTFLAGS") in (x, y) and ("i", self.test) in (x, y):
            # only ever asked for by the tests
            return ("i", 0)
        return None

    def call(self, eng, ins, name, args, st, ctx):
        if name is None:
            for g in eng.callees(ins):
                if g in self.changing:
                    self.found.append((ins, g, st.trace_list()))
            return None
        if name == "simple_enter":
            self.enters += 1
            q = st.copy()
            fl = eng.norm(st, args[2])
            if not (fl[0] == "i" and not fl[1] & self.force) and args[1] != ("i", self.sort):
                self.res.violate(self.prop, "forced", "%s (%s)" % (ins.where, ins.fn.name),
                                 "a simplification other than sorting of includes may be forced", st.trace_list(),
                                 "%s forced" % ins.fn.name)
            return [dict(ret=("i", 0), note="no simplification")]
        if name == "is_simple_enabled":
            return [dict(ret=("i", 0), havoc=False)]
        if name == "style" and args[1] == ("i", self.guards):
            return [dict(ret=("i", 0), havoc=False)]
        if name in TYPED and args[1] == ("i", self.semi):
            q = st.copy()
            q.auto = st.auto | {"semi"}
            out = [dict(ret=("i", 0)), dict(base=q, ret=("i", 1), note="semicolon seen")]
            return out
        if name in CHANGE:
            if name == "lexer_remove" and ("semi" in st.auto or self.is_semi(eng, st, args[1])):
                return [dict()]
            self.found.append((ins, name, st.trace_list()))
            return [dict()]
        if name in LITERAL:
            s = cstr(self.prog, ins.fn.tu, args[0])
            if s is None or s.strip(" \t\n"):
                self.found.append((ins, "text %r" % s, st.trace_list()))
            return [dict()]
        t = self.prog.resolve(ins.fn.tu, name)
        if t is not None and t in self.changing:
            self.found.append((ins, t, st.trace_list()))
        if t is not None and t in self.zero:
            return [dict(ret=("i", 0))]
        return None

    def is_semi(self, eng, st, v):
        l = eng.loc(v)
        if l is None:
            return False
        w = st.mem.get((l[0], (l[1] or 0) + self.ttype))
        return w is not None and eng.norm(st, w[0]) == ("i", self.semi)


def callers(prog):
    out, taken = {}, set()
    for f in prog.functions():
        for i in f.instrs():
            for a in list(i.args) + ([v for v, _ in i.extra] if i.op == "phi" else []):
                if isinstance(a, tuple) and a and a[0] == "g":
                    g = prog.resolve(f.tu, a[1])
                    if g is not None:
                        taken.add(g)
        for i in f.calls():
            if i.callee[0] == "g":
                g = prog.resolve(f.tu, i.callee[1])
                if g is not None:
                    out.setdefault(g, set()).add(f)
    return out, taken


def p16(prog, res, prop):
    c = Off(prog, res, prop)
    eng = Engine(prog, c)
    up, taken = callers(prog)
    funcs = [f for f in prog.functions() if f.tu.short not in BELOW]
    asks = {"simple_enter", "is_simple_enabled"}

    def uses(f, names):
        return any(i.callee[0] == "g" and (i.callee[1] in names or prog.resolve(f.tu, i.callee[1]) in c.zero) for i in f.calls())

    def run(f):
        c.found = []
        mine = set(f.instrs())
        outs = eng.run(f, args_of(f), State({}, {}, {}, frozenset()))
        c.found = [x for x in c.found if x[0] in mine]
        res.count("functions_walked")
        return outs

    # functions telling that simplifications are off
    seen = set()
    while True:
        new = [f for f in funcs if f not in seen and uses(f, asks)]
        if not new:
            break
        for f in new:
            seen.add(f)
            outs = run(f)
            if outs and all(rv == ("i", 0) for rv, _ in outs):
                c.zero.add(f)
    work = [f for f in funcs if uses(f, CHANGE | LITERAL)]
    while work:
        f = work.pop(0)
        if f in c.changing:
            continue
        run(f)
        res.obligations += 1
        if c.found:
            c.changing[f] = c.found
            work += [g for g in up.get(f, ()) if g.tu.short not in BELOW and g not in work]
    # which of them can be reached from outside
    roots = [f for f in c.changing if f in taken or not any(g.tu.short not in BELOW for g in up.get(f, ()))]
    for f in sorted(roots, key=lambda f: f.name):
        chain, g, n = [], f, 0
        while True:
            ins, what, trace = c.changing[g][0]
            chain.append("%s: %s calls %s" % (ins.where, g.name, what if isinstance(what, str) else what.name))
            if isinstance(what, str) or n > 20:
                break
            g, n = what, n + 1
        res.violate(prop, "changes-tokens", "%s (%s)" % (ins.where, g.name), "reached although simplifications are off: %s" %
                    (what if isinstance(what, str) else what.name), chain + trace, "%s %s" % (g.name, what))
    switch(prog, res, prop)
    states(prog, res, prop)
    res.count("functions_changing_tokens", len(c.changing))
    res.count("simplifications_asked_for", c.enters)
    return c


def acyclic(fn):
    done, path = set(), set()

    def go(n):
        if n in path:
            return False
        if n in done:
            return True
        path.add(n)
        ok = all(go(s) for s in fn.blocks[n].succs)
        path.discard(n)
        done.add(n)
        return ok
    return go(next(iter(fn.blocks)))


class Plain(Client):
    roots = ("SI", "CK", "OP")
    max_states = 5000
    max_seconds = 60

    def __init__(self, prog):
        self.prog = prog

    def relevant(self, fn):
        return fn.tu.short == "simple.c" and acyclic(fn)

    def distinct(self, b):
        return b in (("S", "SI"), ("S", "CK"), ("S", "OP"))

    def never_null(self, sid):
        return sid in ("SI", "CK", "OP")

    def call(self, eng, ins, name, args, st, ctx):
        if name == "arena_calloc":
            return [dict(ret=("s", "SI"), havoc=False)]
        return None


def states(prog, res, prop):
    """simple.c: nothing is enabled unless asked for, or forced"""
    o = offs(prog, "simple", ["enable", "passes"], "simple.c")
    KEY = (("S", "SI"), o["enable"])

    def bad(fn, q, msg):
        r = ret_ins(fn)
        res.violate(prop, "switch", "%s (%s)" % (r.where, fn.name), msg, q.trace_list(), "%s switch" % fn.name)

    def go(name, args, mem):
        fn = prog.need(name, "simple.c")
        if len(args) != len(fn.params):
            raise AnalysisError("%s: parameters not understood" % name)
        eng = Engine(prog, Plain(prog))
        outs = eng.run(fn, args, State({}, mem, {}, frozenset()))
        res.obligations += len(outs)
        if not outs:
            raise AnalysisError("%s: not understood" % name)
        return fn, eng, outs
    off = {KEY: (("i", 0), ("struct.simple", o["enable"])), (("S", "SI"), o["passes"] + 4): (("i", 0), ("struct.anon", 4))}
    n = enum_value(prog, "SIMPLE_LAST")
    for p in range(n):
        for fl in (0, macro("simple.h", "SIMPLE_IGNORE")):
            fn, eng, outs = go("simple_enter", [("s", "SI"), ("i", p), ("i", fl), ("s", "CK")], dict(off))
            for rv, q in outs:
                if rv != ("i", 0):
                    bad(fn, q, "simplification %d starts although not enabled" % p)
                elif q.mem.get(KEY, (None,))[0] != ("i", 0):
                    bad(fn, q, "simplifications become enabled")
    for name, args in (("is_simple_enabled", [("s", "SI"), ("i", 0)]), ("simple_leave", [("s", "CK")]),
                       ("simple_disable", [("s", "SI")])):
        fn, eng, outs = go(name, args, dict(off))
        for rv, q in outs:
            if name != "simple_leave" and q.mem.get(KEY, (None,))[0] != ("i", 0):
                bad(fn, q, "simplifications become enabled")
            if name == "simple_disable" and rv != ("i", 0):
                bad(fn, q, "what is to be restored is not what was there")
            if name == "is_simple_enabled" and rv != ("i", 0):
                bad(fn, q, "a simplification is on although not enabled and not forced")
    fn, eng, outs = go("simple_enable", [("s", "SI"), ("s", "VAL")], dict(off))
    for rv, q in outs:
        if q.mem.get(KEY, (None,))[0] != ("s", "VAL"):
            bad(fn, q, "what is restored is not what was there")
    bit, size, byte = option(prog, "simple.c")
    for v, want in ((1 << bit, 1), (((1 << size) - 1) ^ (1 << bit), 0)):
        fn, eng, outs = go("simple_alloc", [("s", "SC"), ("s", "OP")],
                           {(("S", "OP"), byte): (("i", v), ("struct.options", byte))})
        for rv, q in outs:
            w = q.mem.get(KEY, (None,))[0]
            if rv != ("s", "SI") or w is None or w[0] != "i" or (w[1] != 0) != want:
                bad(fn, q, "simplifications are not enabled by the option")


def option(prog, file):
    """(bit, size in bits, byte) of the option -s"""
    for tu in prog.tus:
        if tu.short == file:
            d = tu.di_struct("options")
            for o, n, nm, bf, _ in d:
                if nm == "simple":
                    if not bf:
                        return 0, n, o // 8
                    # the storage unit starts with the first bit field
                    first = min(x for x, _, _, b, _ in d if b)
                    return o - first, 8, first // 8
    raise AnalysisError("option not found")


def switch(prog, res, prop):
    """the option is set by -s only"""
    eng = Engine(prog, Client())
    n = 0
    for f in prog.functions():
        if not f.tu.di_struct("options"):
            continue
        bit, _, byte = option(prog, f.tu.short)
        for i in f.instrs():
            if i.op != "store" or eng.tag(f, i.args[1], i.ty)[:2] != ("struct.options", byte) or not sets(eng, f, i.args[0], bit):
                continue
            n += 1
            res.obligations += 1
            if not under(prog, f, i, ord("s")):
                res.violate(prop, "switch", "%s (%s)" % (i.where, f.name), "simplifications are enabled by something other "
                            "than -s", [], "%s option" % f.name)
    if not n:
        raise AnalysisError("option -s not found")


def sets(eng, f, v, bit):
    """storing v may set the bit, unless it was set before"""
    if v[0] == "i":
        return bool(v[1] >> bit & 1)
    d = eng.defs(f).get(v[1]) if v[0] == "l" else None
    if d is None:
        return True
    if d.op == "load":
        return False
    if d.op == "and":
        return all(sets(eng, f, a, bit) for a in d.args)
    if d.op == "or":
        return any(sets(eng, f, a, bit) for a in d.args)
    if d.op in ("zext", "shl", "trunc"):
        # a field of one bit moved to its place
        return not (d.op == "shl" and d.args[1][0] == "i" and d.args[1][1] != bit)
    return True


def under(prog, f, ins, case, depth=0):
    """ins is only reached by way of a case of a switch, here or in the callers"""
    sw = [b for b in f.blocks.values() if b.instrs[-1].op == "switch"]
    for b in sw:
        dflt, cases = b.instrs[-1].extra
        tgt = [t for v, t in cases if v == case]
        if not tgt or tgt[0] == dflt or len([1 for v, t in cases if t == tgt[0]]) > 1:
            continue
        # reachable without the edge?
        seen, work = set(), [next(iter(f.blocks))]
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            for s in f.blocks[n].succs:
                if not (n == b.name and s == tgt[0]):
                    work.append(s)
        if ins.bb.name not in seen:
            return True
    if f.name == "main" or depth > 3:
        return False
    sites = [i for g in prog.functions() for i in g.calls() if i.callee[0] == "g" and prog.resolve(g.tu, i.callee[1]) is f]
    return bool(sites) and all(under(prog, i.fn, i, case, depth + 1) for i in sites)
