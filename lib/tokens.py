"""Token stream discipline in the parser.

P11: look-ahead regions restore the position they started from.
P12: a token taken from the stream is emitted, kept or removed, never dropped.
"""
import ir
from absint import Client, Engine, State, contains, walk_syms

ENTER, LEAVE = "lexer_peek_enter", "lexer_peek_leave"


def direct(prog, names):
    """functions with a direct call of one of names -> list of call sites"""
    out = {}
    for f in prog.functions():
        for c in f.calls():
            if c.callee[0] == "g" and c.callee[1] in names:
                out.setdefault(f, []).append(c)
    return out


def ret_ins(fn):
    for i in fn.instrs():
        if i.op == "ret":
            return i
    return list(fn.instrs())[-1]


def args_of(fn):
    return [("s", ("arg", n)) for n, _ in fn.params]


# ------------------------------------------------------------ P11 pairing

class Pair(Client):
    """enter/leave pairing of one kind of region"""
    max_states = 40000
    max_seconds = 120

    def __init__(self, prog, res, prop, enter, leave, wrappers, key, what):
        self.prog, self.res, self.prop = prog, res, prop
        self.enter, self.leave = enter, leave
        self.wrappers = wrappers
        self.key = key          # which argument names the region, None for return value
        self.what = what
        self.n = 0

    def relevant(self, fn):
        return fn in self.wrappers

    def bad(self, rule, ins, st, msg):
        self.res.violate(self.prop, rule, "%s (%s)" % (ins.where, ins.fn.name), msg,
                         st.trace_list(), "%s %s" % (ins.fn.name, rule))

    def call(self, eng, ins, name, args, st, ctx):
        # auto = (regions, type known to come next, something consumed)
        regs, nxt, used = st.auto
        if name == self.enter:
            self.n += 1
            if self.key is None:
                return [dict(ret=("s", "self"), auto=(regs + (("s", "self"),), nxt, used), havoc=False)]
            return [dict(ret=("s", "self"), auto=(regs + (self.arg(eng, args),), nxt, used), havoc=True)]
        if name == self.leave:
            self.n += 1
            self.res.obligations += 1
            a = self.arg(eng, args)
            if not regs:
                self.bad("leave-without-enter", ins, st,
                         "%s is ended here without having been started on this path" % self.what)
                return [dict(havoc=False)]
            if regs[-1] != a:
                self.bad("leave-mismatch", ins, st,
                         "%s is ended with a position other than the one saved when it was started" % self.what)
            return [dict(auto=(regs[:-1], None, False), havoc=False)]
        # inside a region: what the stream is known to do
        if name == "lexer_peek_if" and regs:
            return [dict(ret=("i", 0), auto=(regs, None, used)),
                    dict(ret=("i", 1), auto=(regs, args[1], used))]
        if name == "lexer_if" and regs:
            if nxt is not None and nxt == args[1]:
                return [dict(ret=("i", 1), auto=(regs, None, True))]
            return [dict(ret=("i", 0)), dict(ret=("i", 1), auto=(regs, None, True))]
        if name in ("lexer_if_flags", "lexer_if_pair", "lexer_pop") and regs:
            return [dict(ret=("i", 0)), dict(ret=("i", 1), auto=(regs, None, True))]
        if name == "lexer_back" and regs and used:
            return [dict(ret=("i", 1))]
        if name == "lexer_seek_after" and regs:
            # only the end of file lacks a successor
            return [dict(ret=("i", 1), auto=(regs, None, True))]
        return None

    def arg(self, eng, args):
        a = args[self.key if self.key is not None else 1]
        return a

    def noreturn(self, eng, ins, name, st, ctx):
        pass


def pairing(prog, res, prop, enter, leave, key, what, floor):
    sites = direct(prog, {enter, leave})
    eng0 = Engine(prog, Client())
    impl = {f for f in sites if f.name in (enter, leave)}
    one = set()
    for f, cs in sites.items():
        kinds = {c.callee[1] for c in cs}
        if len(kinds) == 1 and f.internal:
            one.add(f)
    # wrappers are checked through their callers
    callers = {}
    for f in prog.functions():
        for c in f.calls():
            for g in eng0.callees(c):
                callers.setdefault(g, set()).add(f)
    roots = set()
    work = [f for f in sites]
    while work:
        f = work.pop()
        if f in one:
            up = callers.get(f, set())
            if not up:
                roots.add(f)
            for g in up:
                if g not in roots and g not in work:
                    work.append(g)
        elif f not in roots:
            roots.add(f)
    n = 0
    for f in sorted(roots, key=lambda f: (f.tu.short, f.name)):
        if f.name in (enter, leave):
            continue
        c = Pair(prog, res, prop, enter, leave, one, key, what)
        eng = Engine(prog, c)
        outs = eng.run(f, args_of(f), State({}, {}, {}, ((), None, False)))
        r = ret_ins(f)
        for rv, q in outs:
            res.obligations += 1
            if q.auto[0]:
                c.bad("not-ended", r, q, "%s started here is still active when the function returns" % what)
        n += 1
        res.samples.append("%s:%s" % (f.tu.short, f.name))
    res.floor("functions_with_" + enter, n, floor)
    res.count("paired_call_sites", sum(len(v) for v in sites.values()))
    return roots


# ----------------------------------------------- stream operations (lexer.c)

def field(prog, struct, name):
    for tu in prog.tus:
        d = tu.di_struct(struct)
        if d:
            for off, size, n, bf, isst in d:
                if n == name:
                    return off // 8
    raise ir.AnalysisError("struct %s has no member %s" % (struct, name))


class Stream(Client):
    """one stream operation, with taking a token as the only primitive"""
    max_states = 20000
    max_seconds = 120
    roots = ("LX", "S")

    def __init__(self, prog, res, prop, root):
        self.prog, self.res, self.prop, self.root = prog, res, prop, root
        self.st = field(prog, "lexer", "lx_st")
        self.pk = field(prog, "lexer", "lx_peek")
        d = [tu.di_struct("lexer_state") for tu in prog.tus]
        d = [x for x in d if x][0]
        self.words = sorted({off // 8 for off, size, n, bf, isst in d if not bf and not isst} |
                            {off // 32 * 4 for off, size, n, bf, isst in d if bf})

    def seed(self):
        mem = {}
        for w in self.words:
            mem[(("S", "LX"), self.st + w)] = (("s", ("w", w)), ("struct.lexer_state", w))
        mem[(("S", "LX"), self.pk)] = (("s", "PEEK"), ("struct.lexer", self.pk))
        return mem

    def keep(self, sid):
        return sid in ("PEEK", "POPPED") or (isinstance(sid, tuple) and sid and sid[0] == "w")

    def relevant(self, fn):
        return fn.tu.short == "lexer.c" and fn.name not in (
            "lexer_serialize", "lexer_error", "lexer_expect_error", "lexer_dump")

    def arith(self, eng, ins, op, x, y, st):
        # starting and ending a look-ahead cancel out
        def const(v):
            return v[1] - (1 << 32) if v[0] == "i" and v[1] > 1 << 31 else v[1] if v[0] == "i" else None
        k = const(y)
        if op not in ("add", "sub") or k is None:
            return None
        k = k if op == "add" else -k
        if x[0] == "b" and x[1] == "add" and x[2] == ("s", "PEEK"):
            k, x = k + x[3][1], x[2]
        if x != ("s", "PEEK") or not -8 <= k <= 8:
            return None
        return x if k == 0 else ("b", "add", x, ("i", k))

    def call(self, eng, ins, name, args, st, ctx):
        if name == "lexer_pop":
            # auto: whether a token was taken successfully last, and in which nesting
            tk = ("s", "POPPED")
            loc = eng.loc(args[1])
            out = []
            for ok in (0, 1):
                q = st.copy()
                q.mem[(("S", "LX"), self.st)] = (tk, ("struct.lexer_state", 0))
                if ok and loc is not None:
                    q.mem[loc] = (tk, ("*", "ptr"))
                out.append(dict(base=q, ret=("i", ok), auto=ok, havoc=False))
            return out
        return None

    def unchanged(self, eng, q):
        for w in self.words:
            v = q.mem.get((("S", "LX"), self.st + w))
            if v is None or v[0] != ("s", ("w", w)):
                return False
        v = q.mem.get((("S", "LX"), self.pk))
        return v is not None and v[0] == ("s", "PEEK")

    def saved(self, q, base):
        for w in self.words:
            v = q.mem.get((("S", base), w))
            if v is None or v[0] != ("s", ("w", w)):
                return False
        return True


PRESERVING = ("lexer_peek", "lexer_peek_if", "lexer_peek_if_flags", "lexer_peek_if_pair",
              "lexer_peek_until", "lexer_peek_until_comma", "lexer_peek_if_prefix_flags",
              "lexer_peek_first", "lexer_peek_last", "lexer_back", "lexer_back_if")


def stream(prog, res, prop):
    def run(name, a, mem_extra=()):
        fn = prog.need(name)
        c = Stream(prog, res, prop, fn)
        eng = Engine(prog, c)
        mem = c.seed()
        mem.update(mem_extra)
        outs = eng.run(fn, a, State({}, mem, {}, None))
        if not outs:
            raise ir.AnalysisError("%s has no return" % name)
        return fn, c, eng, outs

    def bad(fn, q, msg):
        i = ret_ins(fn)
        res.violate(prop, "stream-operation", "%s (%s)" % (i.where, fn.name), msg, q.trace_list(), fn.name)
    n = 0
    for name in PRESERVING:
        fn0 = prog.need(name)
        a = [("s", "LX")] + [("s", ("arg", p)) for p, _ in fn0.params[1:]]
        fn, c, eng, outs = run(name, a)
        n += 1
        for rv, q in outs:
            res.obligations += 1
            if not c.unchanged(eng, q):
                bad(fn, q, "looking ahead changes the position in the token stream")
    # conditional consumption: nothing is consumed unless the answer is yes
    for name in ("lexer_if", "lexer_if_flags", "lexer_if_pair"):
        fn0 = prog.need(name)
        a = [("s", "LX")] + [("s", ("arg", p)) for p, _ in fn0.params[1:]]
        fn, c, eng, outs = run(name, a)
        n += 1
        for rv, q in outs:
            res.obligations += 1
            z = eng.decide(q, "eq", rv, ("i", 0))
            if z is not False and q.auto != 0 and not c.unchanged(eng, q):
                bad(fn, q, "a token is consumed although the operation reports that it did not match")
            if z is not True and c.unchanged(eng, q):
                bad(fn, q, "no token is consumed although the operation reports that it matched")
    # saving and restoring
    fn, c, eng, outs = run("lexer_peek_enter", [("s", "LX"), ("s", "S")])
    for rv, q in outs:
        res.obligations += 2
        v = q.mem.get((("S", "LX"), c.pk))
        if not c.saved(q, "S"):
            bad(fn, q, "starting a look-ahead does not save the complete position")
        if v is None or v[0] != ("b", "add", ("s", "PEEK"), ("i", 1)):
            bad(fn, q, "starting a look-ahead is not counted")
    fn0 = prog.need("lexer_peek_leave")
    cs = Stream(prog, res, prop, fn0)
    mem = {(("S", "S"), w): (("s", ("sv", w)), ("struct.lexer_state", w)) for w in cs.words}
    fn, c, eng, outs = run("lexer_peek_leave", [("s", "LX"), ("s", "S")], mem)
    for rv, q in outs:
        res.obligations += 2
        for w in c.words:
            v = q.mem.get((("S", "LX"), c.st + w))
            if v is None or v[0] != ("s", ("sv", w)):
                bad(fn, q, "ending a look-ahead does not restore the complete position")
                break
        v = q.mem.get((("S", "LX"), c.pk))
        if v is None or v[0] != ("b", "add", ("s", "PEEK"), ("i", -1)):
            bad(fn, q, "ending a look-ahead is not counted")
    res.floor("stream_operations", n + 2, 14)


class Quiet(Stream):
    """errors met while looking ahead are recorded but not reported"""

    def call(self, eng, ins, name, args, st, ctx):
        if name.startswith("error_") or name in ("warn", "warnx", "err", "errx"):
            self.res.violate(self.prop, "error-while-looking-ahead", "%s (%s)" % (ins.where, ins.fn.name),
                             "an error is reported although the parser is only looking ahead",
                             st.trace_list(), ins.fn.name)
            return [dict(ret=("s", "self"))]
        return Stream.call(self, eng, ins, name, args, st, ctx)

    def relevant(self, fn):
        return fn.tu.short == "lexer.c"


def quiet_errors(prog, res, prop):
    """with lx_peek > 0 nothing in lexer.c reaches the error buffer"""
    sites = direct(prog, {"error_begin"})
    roots = [f for f in sites if f.tu.short != "error.c"]
    res.floor("error_reporters", len(roots), 1)
    for f in roots:
        lx = [n for n, t in f.params]
        c = Quiet(prog, res, prop, f)
        eng = Engine(prog, c)
        mem = c.seed()
        mem[(("S", "LX"), c.pk)] = (("s", "PEEK"), ("struct.lexer", c.pk))
        facts = {("s", "PEEK"): (1, None, frozenset())}
        a = [("s", "LX")] + [("s", ("arg", n)) for n in lx[1:]]
        res.obligations += 1
        eng.run(f, a, State({}, mem, facts, None))
        res.count("functions_checked_for_quiet_errors")


def simple_switch(prog, res, prop):
    """simple_disable turns simplifications off and tells what to restore; simple_enable restores it"""
    off = field(prog, "simple", "enable")
    mem = {(("S", "SI"), off): (("s", "ON"), ("struct.simple", off))}
    for name, want in (("simple_disable", ("i", 0)), ("simple_enable", ("s", "OLD"))):
        fn = prog.need(name)
        c = Client()
        eng = Engine(prog, c)
        a = [("s", "SI")] + ([("s", "OLD")] if len(fn.params) > 1 else [])
        for rv, q in eng.run(fn, a, State({}, dict(mem), {}, None)):
            res.obligations += 1
            v = q.mem.get((("S", "SI"), off))
            v = v and v[0]
            if v != want or (name == "simple_disable" and rv != ("s", "ON")):
                i = ret_ins(fn)
                res.violate(prop, "suspend", "%s (%s)" % (i.where, fn.name),
                            "suspending or resuming simplifications does not switch them off and back to what they were",
                            q.trace_list(), fn.name)


def p11(prog, res, prop):
    pairing(prog, res, prop, ENTER, LEAVE, 1, "a look-ahead", 20)
    stream(prog, res, prop)
    quiet_errors(prog, res, prop)
    pairing(prog, res, prop, "simple_disable", "simple_enable", None, "the suspension of simplifications", 2)
    simple_switch(prog, res, prop)
