"""P12: a token the parser takes from the stream is emitted, removed or the parse fails."""
import ir
import report
from absint import Client, Engine, State, contains, subst
from tokens import ret_ins, args_of

TAKE = {"lexer_if", "lexer_if_flags", "lexer_expect_impl", "lexer_pop"}
TAKE_PAIR = {"lexer_if_pair"}
TAKE_MANY = {"lexer_until"}
PEEK1 = {"lexer_peek", "lexer_peek_if", "lexer_peek_if_flags"}
PEEKX = {"lexer_peek_if_prefix_flags", "lexer_peek_until", "lexer_peek_until_comma",
         "lexer_peek_first", "lexer_peek_last"}
SEEK = {"lexer_seek", "lexer_seek_after", "lexer_set_state"}
BACK = {"lexer_back", "lexer_back_if"}
OPS = TAKE | TAKE_PAIR | TAKE_MANY | PEEK1 | PEEKX | SEEK | BACK | {
    "lexer_peek_enter", "lexer_peek_leave", "lexer_peek_if_pair"}
MOVE = TAKE | TAKE_PAIR | TAKE_MANY | SEEK
# the parent the new part of the document is put into
DOC_CHILD = {"doc_alloc_impl": 1, "doc_indent_impl": 1, "doc_dedent_impl": 1, "doc_minimize_impl": 2,
             "doc_literal_impl": 1, "ruler_indent_impl": 1}
EMIT = {"parser_doc_token_impl": 1, "doc_token": 0, "lexer_remove": 1}
# sources that work on the token stream of the file being formatted
STREAM_FILES = ("parser", "expr", "simple", "clang")
ERROR = {"parser_fail_impl", "lexer_error"}


def tkarg(name, args):
    """the out parameter that receives the token"""
    if name in ("lexer_peek", "lexer_pop", "lexer_back", "lexer_peek_first", "lexer_peek_last"):
        return args[1]
    return args[2]


class Conserve(Client):
    max_states = 60000
    max_seconds = 200
    max_inline = 4
    roots = ("CUR",)
    merge_at = 12

    def group(self, st):
        toks = {p[0] for p in st.auto[1]} | {("s", "CUR")}
        if st.auto[0] is not None:
            toks.add(st.auto[0])
        return (st.auto, frozenset((k, v) for k, v in st.env.items() if v in toks),
                frozenset((k, v[0]) for k, v in st.mem.items() if v[0] in toks))

    def __init__(self, prog, res, prop, moves, eof, semi, record=None):
        self.prog, self.res, self.prop = prog, res, prop
        self.moves = moves
        self.eof, self.semi = eof, semi
        self.record = record
        self.taken = 0

    # auto = (token taken last, pending tokens, depth, error, what is known about the type of the next token)
    @staticmethod
    def start():
        return (None, (), 0, False, None, ())

    def keep(self, sid):
        return sid == "CUR" or isinstance(sid, tuple) and sid and sid[0] == "MOV"

    def relevant(self, fn):
        return False

    def never_null(self, sid):
        return sid == "CUR" or self.is_tok(("s", sid))

    def holds_pending(self, eng, st, args):
        pend = [p[0] for p in st.auto[1]]
        if not pend:
            return False
        vals = list(args)
        for b in eng.reach_allocas(st, args):
            vals += [v[0] for k, v in st.mem.items() if k[0] == b and v[0] is not None]
        return any(v in pend for v in vals if v is not None)

    def call(self, eng, ins, name, args, st, ctx):
        last, pend, depth, err, ct, dd = st.auto
        if self.record is not None and name is not None:
            self.record(ins, name, depth)
        if name is None:
            return self.moved(eng, ins, st, "skip", ctx) if self.may_move(eng, ins) else "skip"
        if name == "lexer_peek_enter":
            return [dict(ret=("s", "self"), auto=(last, pend, depth + 1, err, ct, dd))]
        if name == "lexer_peek_leave":
            return [dict(auto=(last, pend, max(0, depth - 1), err, ct, dd), havoc=False)]
        if self.docs and name in DOC_CHILD:
            d = ("s", ("D", ctx, ins.fn.name, ins.bb.name, ins.idx))
            par = args[DOC_CHILD[name]]
            ds = tuple(x for x in st.auto[5] if x[0] != d and x[1] != d) + ((d, par, None),)
            return [dict(ret=d, auto=st.auto[:5] + (ds,))]
        if self.docs and name == "doc_remove":
            for x in st.auto[5]:
                if x[0] == args[0] and x[2] is not None and not err and depth == 0:
                    self.res.violate(self.prop, "token-dropped", "%s (%s)" % (ins.where, ins.fn.name),
                                     "the part of the document removed here holds the token emitted at %s" % x[2],
                                     st.trace_list(), ins.fn.name)
        if name in EMIT:
            tk = args[EMIT[name]]
            if self.docs and name == "parser_doc_token_impl":
                ds, d = list(st.auto[5]), args[2]
                while True:
                    m = [i for i, x in enumerate(ds) if x[0] == d and x[2] is None]
                    if not m:
                        break
                    d = ds[m[0]][1]
                    ds[m[0]] = ds[m[0]][:2] + (ins.where,)
                st.auto = st.auto[:5] + (tuple(ds),)
            if depth == 0 and name != "lexer_remove" and self.record is None and not err:
                self.emitted(ins, tk, st)
            n = tuple(p for p in pend if p[0] != tk)
            if depth == 0 and len(n) == len(pend) and self.types.get(tk) is not None:
                # emitted under another name: the end of a pair found by looking ahead
                m = [p for p in pend if p[1] == self.types[tk]]
                if m:
                    n = tuple(p for p in pend if p is not m[-1])
            if name == "lexer_remove":
                last = None
            elif n != pend and any(p[0] == tk and p[1] == "pop" for p in pend):
                # tokens were taken up to this one: semicolons before it were redundant
                for p in n:
                    if p[1] == ("i", self.semi) and depth == 0 and not err and self.record is None and \
                       eng.decide(st, "eq", ("s", ("MOV", p[0])), ("i", 0)) is not False:
                        self.res.violate(self.prop, "token-dropped", "%s (%s)" % (ins.where, ins.fn.name),
                                         "a redundant semicolon is dropped although comments or directives may be attached to it",
                                         st.trace_list(), "%s semicolon" % ins.fn.name)
                n = tuple(p for p in n if p[1] != ("i", self.semi))
            return [dict(ret=("s", "self"), auto=(last, n, depth, err, ct, st.auto[5]))]
        if name in ERROR:
            return [dict(ret=("s", "self"), auto=(last, pend, depth, True, ct, dd))]
        if name == "parser_reset":
            return [dict(auto=(last, pend, depth, False, ct, dd))]
        if name in ("parser_good", "parser_none"):
            return [dict(ret=("s", "self"))]
        if name == "token_is_moveable":
            return [dict(ret=("s", ("MOV", args[0])), havoc=False)]
        if depth > 0:
            return "skip"
        if name in TAKE | TAKE_PAIR | TAKE_MANY:
            return self.take(eng, ins, name, args, st, ctx)
        if name in PEEK1:
            out = self.outparam(args[-1], ("s", "CUR"))
            if name != "lexer_peek_if":
                return [dict(ret=("i", 0)), dict(ret=("i", 1), mem=out)]
            alts = []
            if self.can(ct, args[1], False):
                alts.append(dict(ret=("i", 0), auto=(last, pend, depth, err, self.neg(ct, args[1]), dd)))
            if self.can(ct, args[1], True):
                alts.append(dict(ret=("i", 1), mem=out, auto=(last, pend, depth, err, ("=", args[1]), dd)))
            return alts
        if name == "lexer_peek_if_pair":
            q = st.copy()
            r = eng.fresh(q, ("pair", ctx, ins.fn.name, ins.res), True)
            self.types[r] = args[2]
            lhs = self.outparam(args[3], ("s", "CUR"))
            alts = []
            if self.can(ct, args[1], False):
                alts.append(dict(ret=("i", 0), auto=(last, pend, depth, err, self.neg(ct, args[1]), dd)))
            if self.can(ct, args[1], True):
                eq = ("=", args[1])
                alts.append(dict(ret=("i", 0), mem=lhs, auto=(last, pend, depth, err, eq, dd)))
                alts.append(dict(base=q, ret=("i", 1), mem=lhs + self.outparam(args[4], r),
                                 auto=q.auto[:4] + (eq, dd)))
            return alts
        if name in BACK:
            if last is None:
                return "skip"
            return [dict(ret=("i", 0)), dict(ret=("i", 1), mem=self.outparam(args[-1], last))]
        if name in ("lexer_seek", "lexer_seek_after") and self.record is None and not err and \
           not self.earlier(args[1]):
            self.res.violate(self.prop, "token-skipped", "%s (%s)" % (ins.where, ins.fn.name),
                             "the position is moved forward without emitting the tokens in between",
                             st.trace_list(), ins.fn.name)
        if name == "lexer_seek":
            q = st.copy()
            eng.rename(q, "CUR", ("was", ctx, ins.fn.name, ins.idx))
            q.auto = (None, (), 0, err, None, dd)
            return [dict(base=q)]
        if name in SEEK:
            return self.moved(eng, ins, st, "skip", ctx)
        t = self.prog.resolve(ins.fn.tu, name)
        if t is not None and t in self.transfer:
            return "inline"
        if t is not None and t.tu.short.startswith("parser") and self.holds_pending(eng, st, args):
            return "inline"
        if t is not None and t in self.moves:
            return self.moved(eng, ins, st, "skip", ctx)
        return "skip"

    def emitted(self, ins, tk, st):
        """emitting must follow taking, once"""
        if tk == ("s", "CUR"):
            self.res.violate(self.prop, "token-not-taken", "%s (%s)" % (ins.where, ins.fn.name),
                             "a token still in the stream is emitted: it will be emitted again when it is taken",
                             st.trace_list(), ins.fn.name)
        elif tk[0] == "s" and self.is_tok(tk) and not any(p[0] == tk for p in st.auto[1]):
            self.res.violate(self.prop, "token-twice", "%s (%s)" % (ins.where, ins.fn.name),
                             "a token already emitted or removed is emitted again",
                             st.trace_list(), ins.fn.name)

    @staticmethod
    def neg(ct, ty):
        return ct if ct is not None and ct[0] == "=" else ("!", ty)

    @staticmethod
    def can(ct, ty, want):
        """may the next token be (or not be) of type ty"""
        if ct is None:
            return True
        if ct[0] == "=":
            if ct[1][0] == "i" and ty[0] == "i" or ct[1] == ty:
                return (ct[1] == ty) == want
            return True
        return not (ct[1] == ty and want)

    types = {}
    transfer = frozenset()
    docs = False
    cap = None

    @staticmethod
    def is_tok(v):
        s = v[1]
        while isinstance(s, tuple) and s and s[0] == "old":
            s = s[1]
        return isinstance(s, tuple) and s and s[0] == "T"

    def earlier(self, v):
        """a token at or before the position"""
        s = v[1]
        while isinstance(s, tuple) and s and s[0] == "old":
            s = s[1]
        return v[0] == "s" and (s == "CUR" or (isinstance(s, tuple) and s and s[0] in ("T", "was")))

    @staticmethod
    def outparam(p, v):
        return [(p, v)] if p[0] in ("p", "s") else []

    def may_move(self, eng, ins):
        return any(g in self.moves for g in eng.callees(ins))

    def moved(self, eng, ins, st, how, ctx):
        eng.rename(st, "CUR", ("was", ctx, ins.fn.name, ins.bb.name, ins.idx))
        st.auto = (None,) + st.auto[1:4] + (None, st.auto[5])
        return how

    def take(self, eng, ins, name, args, st, ctx):
        ct = st.auto[4]
        self.taken += 1
        q = st.copy()
        sid = ("T", ctx, ins.fn.name, ins.bb.name, ins.idx)
        if eng.uses(q, sid):
            old = ("old", sid)
            if eng.uses(q, old):
                eng.forget_facts(q, old)
                eng.forget_facts(q, sid)
            eng.rename(q, sid, old)
        eng.rename(q, "CUR", sid)
        last, pend, depth, err, _, dd = q.auto
        tk = ("s", sid)
        typed = name in ("lexer_if", "lexer_expect_impl")
        ty = args[1] if typed else "pop" if name == "lexer_pop" else None
        if name == "lexer_pop" and ct is not None and ct[0] == "=":
            ty = ct[1]
        pend = tuple(dict.fromkeys(pend))
        if len(pend) > 1:
            # the order only matters for the latest ones
            pend = tuple(sorted(pend[:-1], key=repr)) + pend[-1:]
        if self.cap is not None and len(pend) > self.cap:
            # too many combinations: follow the oldest and the latest ones
            pend = pend[:1] + pend[len(pend) - self.cap + 1:]
        if self.record is None:
            pend = pend + ((tk, ty, "%s (%s)" % (ins.where, ins.fn.name)),)
        if name in TAKE_PAIR:
            mem = self.outparam(args[3], tk) + self.outparam(args[4], ("s", sid + ("rhs",)))
        else:
            mem = self.outparam(tkarg(name, args), tk)
        alts = []
        if not typed or self.can(ct, args[1], False):
            a = st.auto
            if name in ("lexer_expect_impl", "lexer_pop"):
                # no more tokens in this branch: the parse cannot go on
                a = a[:3] + (True,) + a[4:]
            elif typed and (ct is None or ct[0] == "!"):
                a = a[:4] + (("!", args[1]), a[5])
            alts.append(dict(ret=("i", 0), auto=a))
        if not typed or self.can(ct, args[1], True):
            alts.append(dict(base=q, ret=("i", 1), auto=(tk, pend, depth, err, None, dd), mem=mem, havoc=False))
        return alts


def stream_users(prog):
    out = []
    for f in prog.functions():
        if not f.tu.short.startswith(STREAM_FILES):
            continue
        if any(c.callee[0] == "g" and c.callee[1] in OPS for c in f.calls()):
            out.append(f)
    return out


def enum_value(prog, name):
    if name in prog.enums:
        return prog.enums[name]
    return ir.macro("lexer.h", name)


def conservation(prog, res, prop):
    eof = enum_value(prog, "LEXER_EOF")
    semi = enum_value(prog, "TOKEN_SEMI")
    users = stream_users(prog)
    eng0 = Engine(prog, Client())
    # pass 1: which calls happen outside of look-ahead regions
    at0 = {}
    calls = {}
    for f in prog.functions():
        if f in users:
            continue
        at0[f] = set()
        for c in f.calls():
            at0[f].update(eng0.callees(c))
    direct_move = set()
    for f in users:
        rec = {}

        def record(ins, name, depth, f=f, rec=rec):
            rec.setdefault(ins, set()).add(depth > 0)
        c = Conserve(prog, res, prop, set(), eof, semi, record)
        Engine(prog, c).run(f, args_of(f), State({}, {}, {}, Conserve.start()))
        at0[f] = set()
        for c in f.calls():
            d = rec.get(c, {False} if c.callee[0] != "g" else set())
            if False in d:
                at0[f].update(eng0.callees(c))
                if c.callee[0] == "g" and c.callee[1] in MOVE:
                    direct_move.add(f)
            calls.setdefault(f, []).append((c, d))
    moves = set(direct_move)
    ch = True
    while ch:
        ch = False
        for f, s in at0.items():
            if f not in moves and f.tu.short.startswith(STREAM_FILES) and s & moves:
                moves.add(f)
                ch = True
    # functions only ever entered while looking ahead
    callers0 = {}
    called = set()
    for f in prog.functions():
        for c in f.calls():
            called.update(eng0.callees(c))
    for f, s in at0.items():
        for g in s:
            callers0.setdefault(g, set()).add(f)
    live = {f for f in prog.functions() if f.name == "main" or f not in called}
    work = list(live)
    while work:
        f = work.pop()
        for g in at0.get(f, ()):
            if g not in live:
                live.add(g)
                work.append(g)
    roots = [f for f in users if f in direct_move and f.tu.short.startswith("parser") and f in live]
    transfer = set()
    done = {}
    work = sorted(roots, key=lambda f: (f.tu.short, f.name))
    while work:
        for f in work:
            done[f] = walk(prog, f, moves, eof, semi, transfer, prop)
        new = {f for f in work if done[f][3] and f in callers0}
        transfer |= new
        # a function handing a token it took to its caller is judged there
        work = [f for f in work_callers(new, callers0) if f in live and f.tu.short.startswith("parser")]
    for f in sorted(done, key=lambda f: (f.tu.short, f.name)):
        sub, taken, n, _ = done[f]
        res.count("tokens_taken", taken)
        res.obligations += n
        res.samples.append("%s:%s" % (f.tu.short, f.name))
        if f not in transfer:
            for v in sub.violations:
                res.violate(prop, v.rule, v.where, v.msg, v.trace, v.key)
    res.floor("functions_taking_tokens", len(done), 25)


def work_callers(fns, callers):
    out = []
    for g in fns:
        for f in callers.get(g, ()):
            if f not in out:
                out.append(f)
    return out


def walk(prog, f, moves, eof, semi, transfer, prop):
    for cap in (None, 2, 1):
        sub = report.Result()
        c = Conserve(prog, sub, prop, moves, eof, semi)
        c.transfer = transfer
        c.docs = any(x.callee[0] == "g" and x.callee[1] == "doc_remove" for x in f.calls())
        c.cap = cap
        eng = Engine(prog, c)
        try:
            outs = eng.run(f, args_of(f), State({}, {}, {}, Conserve.start()))
            break
        except ir.AnalysisError:
            if cap == 1:
                raise
    handed = False
    n = 0
    for rv, q in outs:
        n += 1
        last, pend, depth, err, ct, dd = q.auto
        if err:
            continue
        for tk, ty, where in pend:
            if ty == ("i", eof):
                continue
            if rv == tk or any(v[0] == tk and k[0][0] == "S" for k, v in q.mem.items()):
                handed = True
            sub.violate(prop, "token-dropped", where,
                        "the token taken here is neither emitted nor removed on a path on which %s succeeds" % f.name,
                        q.trace_list(), f.name)
    return sub, c.taken, n, handed
