"""P15: comments and preprocessor directives hang off tokens and are never lost.

The program is analysed in a view in which every operation on a list is a call.
Ghost state: elements taken out of a list (or created) and not yet put into one,
lists known to be empty, what happened to the token being emitted.
"""
import ir
from absint import Client, Engine, State, contains
from docs import offs
from tokens import args_of, ret_ins

FIRST, LAST, NEXT, PREV = "vp_tlist_first", "vp_tlist_last", "vp_tlist_next", "vp_tlist_prev"
REMOVE, CONCAT, INIT = "vp_tlist_remove", "vp_tlist_concat", "vp_tlist_init"
INSERTS = {"vp_tlist_insert_head": (0, 1), "vp_tlist_insert_tail": (0, 1),
           "vp_tlist_insert_after": (0, 2), "vp_tlist_insert_before": (None, 1)}
PRODUCERS = {"lexer_emit_template", "lexer_emit", "lexer_emit_synthetic", "clang_read_comment", "clang_read_cpp",
             "clang_keyword"}
LISTFNS = {"token_list_append", "token_list_prepend", "token_list_append_after", "token_list_remove",
           "token_list_first", "token_list_last"}


def enum(prog, name):
    from conserve import enum_value
    return enum_value(prog, name)


def sizeof(prog, struct):
    for tu in prog.tus:
        if "%struct." + struct in tu.types:
            return tu.sizeof("%struct." + struct)
    raise ir.AnalysisError("struct %s not found" % struct)


def linear(v, k=1, out=None):
    """v as a sum of symbols with coefficients"""
    out = {} if out is None else out
    if v[0] == "i":
        out[None] = out.get(None, 0) + k * v[1]
    elif v[0] == "b" and v[1] in ("add", "sub"):
        linear(v[2], k, out)
        linear(v[3], k if v[1] == "add" else -k, out)
    else:
        out[v] = out.get(v, 0) + k
    return {a: b for a, b in out.items() if b}


def aged(v):
    return v[0] == "s" and isinstance(v[1], tuple) and v[1] and v[1][0] == "old" or \
        v[0] == "p" and isinstance(v[1][1], tuple) and v[1][1] and v[1][1][0] == "old"


class Lists(Client):
    """auto = (out, empty, some, misc)

    out: frozenset of (element, list taken from or None if new, released)
    empty, some: lists known to be empty, to have an element
    misc: tuple of facts of the particular analysis
    """
    max_states = 60000
    max_seconds = 120
    max_inline = 10
    merge_at = 40

    def __init__(self, prog, res, prop, inline=(), root=None):
        self.prog, self.res, self.prop = prog, res, prop
        self.inlined = set(inline)
        self.root = root
        self.tk = offs(prog, "token", ("tk_str", "tk_len", "tk_off", "tk_flags", "tk_type", "tk_prefixes", "tk_suffixes"))
        self.sizeof = sizeof(prog, "token")
        self.problems = []
        self.locals = set()
        self.n = 0

    def relevant(self, fn):
        return fn.name in LISTFNS or fn in self.inlined

    def keep(self, sid):
        return isinstance(sid, tuple) and sid and sid[0] in ("TKF", "PARENT", "NX")

    def bad(self, rule, ins, st, msg, key=None):
        self.problems.append((rule, "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(),
                              key or "%s %s" % (self.root.name if self.root else ins.fn.name, rule)))

    def flush(self):
        for rule, where, msg, tr, key in self.problems:
            self.res.violate(self.prop, rule, where, msg, tr, key)

    # ---- helpers
    def takeout(self, st, x, lst):
        out, empty, some, misc = st.auto
        gone = (("s", "GONE"), None, True)
        return frozenset(gone if o[2] and o[1] == lst or aged(o[0]) and o[2] else o for o in out if o[0] != x) | {(x, lst, False)}

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None or l[0][0] != "S" or l in st.mem:
            return None
        b, off = l
        if off == self.sizeof + self.br["parent"] and ins.ty == "ptr":
            return ("s", ("PARENT", b[1]))
        if off == self.sizeof + self.br["nx"] and ins.ty == "ptr":
            return ("s", ("NX", b[1]))
        return None

    br = dict(parent=-1 << 20, nx=-1 << 20)

    def call(self, eng, ins, name, args, st, ctx):
        out, empty, some, misc = st.auto
        empty = frozenset(l for l in empty if not aged(l))
        some = frozenset(l for l in some if not aged(l))
        if name in (FIRST, LAST):
            L = args[0]
            alts = []
            if L not in some:
                alts.append(dict(ret=("i", 0), auto=(out, empty | {L}, some, misc), havoc=False))
            if L not in empty:
                q = (out, empty - {L}, some | {L}, misc)
                alts.append(dict(ret=("s", "self"), auto=q, havoc=False,
                                 facts=[(("s", "self"), (None, None, frozenset([0])))]))
            return alts
        if name == REMOVE:
            self.n += 1
            L, x = args[0], args[1]
            self.removing(eng, ins, L, x, st)
            return [dict(auto=(self.takeout(st, x, L), empty, some - {L}, self.removed(misc, x, eng, st, ins)), havoc=False)]
        if name in INSERTS:
            li, xi = INSERTS[name]
            x = args[xi]
            L = args[li] if li is not None else None
            if L is not None and L[0] == "p" and L[1][0] == "A":
                self.locals.add(L)
            self.inserting(eng, ins, name, L, x, st)
            misc = st.auto[3]
            if L is None:
                e = frozenset()
            else:
                e = frozenset(l for l in empty if l != L)
            return [dict(auto=(frozenset(o for o in out if o[0] != x), e, some | ({L} if L is not None else frozenset()),
                               self.inserted(misc, L, x)), havoc=False)]
        if name == CONCAT:
            a, b = args[0], args[1]
            return [dict(auto=(out, (empty - {a}) | {b}, some - {a, b}, self.concat(misc, a, b)), havoc=False)]
        if name == INIT:
            return [dict(auto=(out, empty | {args[0]}, some - {args[0]}, misc), havoc=False)]
        if name in (NEXT, PREV):
            return [dict(ret=("i", 0), havoc=False),
                    dict(ret=("s", "self"), havoc=False, facts=[(("s", "self"), (None, None, frozenset([0])))])]
        if name == "vp_tlist_linked":
            return [dict(ret=("i", 0), havoc=False), dict(ret=("i", 1), havoc=False)]
        if name == "token_rele":
            x = args[0]
            self.release(eng, ins, x, st)
            return [dict(auto=(frozenset((o[0], o[1], True) if o[0] == x else o for o in out), empty, some, misc),
                         havoc=False)]
        if name == "token_ref":
            return [dict(havoc=False)]
        if name in PRODUCERS and self.root is not None and self.root.name != name:
            self.produce(eng, ins, name, args, st)
            q = (out | {(("s", "self"), None, False)}, empty, some, misc)
            alts = [dict(ret=("s", "self"), auto=q, facts=[(("s", "self"), (None, None, frozenset([0])))])]
            if not name.startswith("lexer_emit"):
                alts.append(dict(ret=("i", 0)))
            return alts
        return self.other(eng, ins, name, args, st, ctx)

    # ---- hooks
    def removing(self, eng, ins, L, x, st):
        pass

    def removed(self, misc, x, eng=None, st=None, ins=None):
        return misc

    def inserting(self, eng, ins, name, L, x, st):
        pass

    def inserted(self, misc, L, x):
        return misc

    def concat(self, misc, a, b):
        return misc

    def release(self, eng, ins, x, st):
        pass

    def produce(self, eng, ins, name, args, st):
        pass

    def other(self, eng, ins, name, args, st, ctx):
        return None


def start(misc=()):
    return State({}, {}, {}, (frozenset(), frozenset(), frozenset(), misc))


def leftovers(q, rv):
    return [o for o in q.auto[0] if o[0] != rv]


# ------------------------------------------------------------------ emission

class Emit(Client):
    """one token is emitted: prefixes in order, the token, suffixes in order

    auto = (prefixes, token, suffixes, muted, unmuted)
      prefixes, suffixes: 0 not started, 1 at an element not emitted, 2 at an element
      emitted, 3 at the end; token: times emitted
    """
    max_states = 60000
    max_seconds = 120
    roots = ("PR", "TK", "DC", "PX", "SX", "NXT")

    def __init__(self, prog, res, prop):
        self.prog, self.res, self.prop = prog, res, prop
        self.tk = offs(prog, "token", ("tk_flags", "tk_prefixes", "tk_suffixes"))
        self.flag = {n: ir.macro("token.h", "TOKEN_FLAG_" + n) for n in ("DISCARD", "OPTLINE", "BRANCH")}
        kinds = prog.need("doc_token").tu.enum_members("doc_type")
        self.kinds = {v: k for k, v in kinds.items()}
        self.lists = {("p", ("S", "TK"), self.tk["tk_prefixes"]): (0, "PX"),
                      ("p", ("S", "TK"), self.tk["tk_suffixes"]): (2, "SX")}
        self.n = 0

    def relevant(self, fn):
        return fn.tu.short == "parser.c" and fn.internal and not fn.name.startswith("clang_format") or \
            fn.name in LISTFNS

    def keep(self, sid):
        return sid in self.roots or isinstance(sid, tuple) and sid and sid[0] in ("FL", "UNM")

    def never_null(self, sid):
        return sid in ("PR", "TK", "DC", "PX", "SX")

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is None or l in st.mem:
            return None
        b, off = l
        if b[0] == "S" and b[1] in ("PX", "SX", "NXT", "TK") and off == self.tk["tk_flags"]:
            return ("s", ("FL", b[1]))
        return None

    def bad(self, rule, ins, st, msg):
        self.res.violate(self.prop, rule, "%s (%s)" % (ins.where, ins.fn.name), msg, st.trace_list(), rule)

    def flagset(self, eng, st, who, flags):
        """is one of the flags known to be set"""
        f = ("s", ("FL", who))
        for m in flags:
            if eng.decide(st, "eq", ("b", "and", f, ("i", m)), ("i", 0)) is False:
                return True
        return False

    def advance(self, eng, ins, st, k, who):
        """the element at hand is left behind"""
        if st.auto[k] != 1:
            return
        if k == 0:
            self.bad("prefix-lost", ins, st, "a comment or directive before a token can be skipped without being emitted")
        else:
            d, o = self.flag["DISCARD"], self.flag["OPTLINE"]
            if not self.flagset(eng, st, who, (d, o, d | o)):
                self.bad("suffix-lost", ins, st, "a comment after a token can be skipped without being emitted")

    def at(self, st, k, v, who=None, clear=True):
        q = st.copy()
        q.auto = st.auto[:k] + (v,) + st.auto[k + 1:]
        if who is not None and clear:
            for key in [key for key in q.mem if key[0] == ("S", who)]:
                del q.mem[key]
            for f in [f for f in q.facts if contains(f, ("FL", who))]:
                del q.facts[f]
        return q

    def call(self, eng, ins, name, args, st, ctx):
        a = st.auto
        if name in (FIRST, LAST) and args[0] in self.lists:
            k, who = self.lists[args[0]]
            if a[k] == 0:
                if name == LAST:
                    self.bad("order", ins, st, "comments and directives are emitted from the last to the first")
                # emptiness may be tested before the traversal starts
                return [dict(base=self.at(st, k, 3), ret=("i", 0), auto=self.at(st, k, 3).auto, havoc=False),
                        dict(base=self.at(st, k, 1, who), ret=("s", who), auto=self.at(st, k, 1).auto, havoc=False)]
            if a[k] == 1:
                return [dict(ret=("s", who), havoc=False)]
            if a[k] == 3:
                return [dict(ret=("s", "self"), havoc=False)]
            return None
        if name in (NEXT, PREV) and args[0] in (("s", "PX"), ("s", "SX")):
            who = args[0][1]
            k = 0 if who == "PX" else 2
            if name == PREV:
                return None
            # looking at the successor moves on only when nothing is pending
            self.advance(eng, ins, st, k, who)
            return [dict(base=self.at(st, k, 3), ret=("i", 0), auto=self.at(st, k, 3).auto, havoc=False),
                    dict(base=self.at(st, k, 1, who), ret=("s", who), auto=self.at(st, k, 1).auto, havoc=False)]
        if name == NEXT and args[0] == ("s", "TK"):
            return [dict(ret=("i", 0), havoc=False, auto=a[:5] + ("none",)),
                    dict(ret=("s", "NXT"), havoc=False, auto=a[:5] + ("some",),
                         facts=[(("s", "NXT"), (None, None, frozenset([0])))])]
        if name is not None and name.startswith("doc_literal"):
            self.bad("foreign", ins, st, "emitting a token emits something else than the token and what is attached to it")
            return [dict(havoc=False)]
        if name == "doc_token":
            self.n += 1
            x = args[0]
            kind = self.kinds.get(args[2][1]) if args[2][0] == "i" else None
            if x == ("s", "PX"):
                if a[0] == 2:
                    self.bad("emitted-twice", ins, st, "a comment or directive before a token can be emitted twice")
                if kind != "DOC_VERBATIM":
                    self.bad("kind", ins, st, "a comment or directive is not emitted as it is")
                if a[1]:
                    self.bad("order", ins, st, "a comment or directive before a token can be emitted after the token")
                return [dict(auto=(2,) + a[1:], havoc=False)]
            if x == ("s", "TK"):
                if a[0] != 3:
                    self.bad("prefix-lost", ins, st, "a token can be emitted before everything preceding it is")
                if kind != "DOC_LITERAL":
                    self.bad("kind", ins, st, "a token is not emitted as text")
                return [dict(auto=a[:1] + (min(a[1] + 1, 2),) + a[2:], havoc=False)]
            if x == ("s", "SX"):
                if a[2] == 2:
                    self.bad("emitted-twice", ins, st, "a comment after a token can be emitted twice")
                if kind != "DOC_VERBATIM":
                    self.bad("kind", ins, st, "a comment is not emitted as it is")
                if not a[1]:
                    self.bad("order", ins, st, "a comment after a token can be emitted before the token")
                return [dict(auto=a[:2] + (2,) + a[3:], havoc=False)]
            self.bad("foreign", ins, st, "emitting a token emits something else than the token and what is attached to it")
            return [dict(havoc=False)]
        if name == "doc_alloc_impl":
            kind = self.kinds.get(args[0][1]) if args[0][0] == "i" else None
            if kind == "DOC_MUTE":
                v = args[2]
                up = v == ("i", 1)
                if v[0] != "i" or v[1] not in (1, -1, 0xffffffff):
                    self.bad("mute", ins, st, "the output is muted by something else than one")
                    return [dict(havoc=False)]
                if up:
                    if a[2] != 3:
                        self.bad("mute", ins, st, "the output is muted before everything following the token is emitted")
                    if a[5] != "some" or not self.flagset(eng, st, "NXT", (self.flag["BRANCH"],)):
                        self.bad("mute", ins, st, "the output is muted although the next token does not start a branch")
                    return [dict(auto=a[:3] + (min(a[3] + 1, 2),) + a[4:], havoc=False)]
                if a[0] != 0:
                    self.bad("mute", ins, st, "the output is unmuted after comments or directives of the token were emitted")
                return [dict(auto=a[:4] + (min(a[4] + 1, 2),) + a[5:], havoc=False)]
            if kind != "DOC_OPTLINE":
                self.bad("foreign", ins, st, "emitting a token emits something else than the token and what is attached to it")
            return [dict(havoc=False)]
        if name in ("clang_format_on", "clang_format_off"):
            return [dict(havoc=False)]
        if name == "lexer_get_peek":
            return [dict(ret=("s", "self"), havoc=False)]
        return None


def emission(prog, res, prop):
    fn = prog.need("parser_doc_token_impl")
    for which in (True, False):
        c = Emit(prog, res, prop)
        eng = Engine(prog, c)
        st = State({}, {}, {}, (0, 0, 0, 0, 0, None))
        off = field_path(prog, "parser", ("pr_token", "unmute"))
        st.mem[(("S", "PR"), off)] = (("s", "TK") if which else ("i", 0), ("struct.parser", off))
        outs = eng.run(fn, [("s", "PR"), ("s", "TK"), ("s", "DC"), ("s", "FUN"), ("s", "LNO")], st)
        r = ret_ins(fn)
        for rv, q in outs:
            a = q.auto
            res.obligations += 1
            if a[0] != 3:
                c.bad("prefix-lost", r, q, "emitting a token can end before everything preceding it is emitted")
            if a[1] != 1:
                c.bad("token-lost", r, q, "a token is emitted %d times" % a[1])
            if a[2] != 3:
                c.bad("suffix-lost", r, q, "emitting a token can end before everything following it is emitted")
            if a[3] > 1 or a[4] > 1:
                c.bad("mute", r, q, "the output is muted or unmuted twice")
            if which and a[4] != 1:
                c.bad("mute", r, q, "the output is not unmuted at the end of a branch")
            if not which and a[4]:
                c.bad("mute", r, q, "the output is unmuted although no branch ended")
            if not a[3]:
                if a[5] is None or a[5] == "some" and eng.decide(
                        q, "eq", ("b", "and", ("s", ("FL", "NXT")), ("i", c.flag["BRANCH"])), ("i", 0)) is not True:
                    c.bad("mute", r, q, "the output is not muted although the next token starts a branch")
        res.count("emission_paths", len(outs))
        res.count("events_emit", c.n)


def field_path(prog, struct, path):
    """byte offset of a member of a nested anonymous struct"""
    for tu in prog.tus:
        d = tu.di_struct(struct)
        if not d:
            continue
        for off, size, n, bf, isst in d:
            if n == ".".join(path):
                return off // 8
        names = [n for _, _, n, _, _ in d]
        raise ir.AnalysisError("struct %s has no member %s: %s" % (struct, ".".join(path), names))
    raise ir.AnalysisError("struct %s not found" % struct)


# --------------------------------------------------------------------- moves

class Move(Lists):
    """what is taken out of a list is put into another one"""

    def getkind(self, misc, x):
        return dict(misc).get(x)

    def other(self, eng, ins, name, args, st, ctx):
        if name is None:
            t = callback(eng, ins)
            if t is not None:
                f = self.callbacks.get(t)
                if f is not None:
                    return self.named(eng, ins, f.name, args, st, ctx)
            return None
        return self.named(eng, ins, name, args, st, ctx)

    def named(self, eng, ins, name, args, st, ctx):
        out, empty, some, misc = st.auto
        if name in self.movers and self.root is not None and self.root.name != name:
            field = self.tk[self.movers[name]]
            src = ptr(args[0], field)
            dst = ptr(args[1], field)
            if args[0] == args[1]:
                self.bad("moved-to-itself", ins, st, "what hangs off a token is moved to the same token")
            if args[1] == ("i", 0):
                self.bad("moved-to-null", ins, st, "what hangs off a token is moved to a token that may not exist")
            return [dict(auto=(out, (empty - {dst}) | {src}, some - {src, dst}, misc), havoc=False)]
        return None

    movers = {}
    callbacks = {}


def ptr(v, off):
    if v[0] == "p":
        return ("p", v[1], v[2] + off)
    if v[0] == "s":
        return ("p", ("S", v[1]), off)
    return ("s", ("unknown",))


def callback(eng, ins):
    """offset in struct lexer_callbacks of the function called"""
    if ins.callee[0] != "l":
        return None
    d = eng.defs(ins.fn).get(ins.callee[1])
    if d is None or d.op != "load":
        return None
    t = eng.tag(ins.fn, d.args[0], d.ty)
    return t[1] if t[0] == "struct.lexer_callbacks" else None


def callbacks(prog):
    """offset in struct lexer_callbacks -> function"""
    eng = Engine(prog, Client())
    out = {}
    for f in prog.functions():
        for i in f.instrs():
            if i.op == "store" and i.args[0][0] == "g":
                t = eng.tag(f, i.args[1], i.ty)
                g = prog.resolve(f.tu, i.args[0][1])
                if t[0] == "struct.lexer_callbacks" and g is not None:
                    out[t[1]] = g
    return out


def run_move(prog, res, prop, fn, inline, cbs, cls=Move, movers=None, args=None):
    c = cls(prog, res, prop, inline, fn)
    c.movers = movers if movers is not None else MOVERS
    c.callbacks = cbs
    eng = Engine(prog, c)
    st = start()
    a = args if args is not None else args_of(fn)
    outs = eng.run(fn, a, st)
    return c, eng, outs


MOVERS = {"clang_token_move_prefixes": "tk_prefixes", "token_move_suffixes": "tk_suffixes"}


def moves(prog, res, prop):
    cbs = callbacks(prog)
    eng0 = Engine(prog, Client())
    callers = {}
    for f in prog.functions():
        for c in f.calls():
            for g in eng0.callees(c):
                callers.setdefault(g, set()).add(f)
    # the functions that move everything
    for name, fld in MOVERS.items():
        fn = prog.need(name)
        c = Whole(prog, res, prop, helpers(prog, fn), fn)
        c.callbacks = cbs
        eng = Engine(prog, c)
        outs = eng.run(fn, [("s", "SRC"), ("s", "DST")], start())
        src = ("p", ("S", "SRC"), c.tk[fld])
        c.lists = (src, ("p", ("S", "DST"), c.tk[fld]))
        for rv, q in outs:
            res.obligations += 1
            if src not in q.auto[1]:
                c.bad("left-behind", ret_ins(fn), q, "moving what hangs off a token can leave something behind")
            for o in leftovers(q, rv):
                c.bad("lost", ret_ins(fn), q, "an element taken out of a list is not put into another one")
        c.check(res)
        c.flush()
        res.count("move_paths", len(outs))
    # everything else that takes elements out of lists
    work = [f for f in prog.functions() if any(
        c.callee[0] == "g" and c.callee[1] in (REMOVE, "token_list_remove") for c in f.calls())]
    inline = set()
    done = set()
    n = 0
    special = {"token_list_remove", "token_rele", "lexer_remove"} | set(MOVERS)
    later = set()
    # helpers of the functions that remove branches are analysed along with these
    later |= {prog.need(n) for n in ("clang_branch", "clang_recover")}
    grown = True
    while grown:
        grown = False
        for f in work:
            if f not in later and f not in inline and f.internal and callers.get(f) and callers[f] <= later | inline:
                inline.add(f)
                grown = True
    while work:
        f = work.pop(0)
        if f in done or f.name in special or f in later or f in inline:
            continue
        done.add(f)
        c, eng, outs = run_move(prog, res, prop, f, inline, cbs)
        lost = []
        for rv, q in outs:
            res.obligations += 1
            lo = leftovers(q, rv) + [l for l in c.locals if l not in q.auto[1]]
            if lo:
                lost.append((q, lo))
            if f.name == "lexer_move_before" and ptr(args_of(f)[1], c.tk["tk_prefixes"]) not in q.auto[1]:
                c.bad("order", ret_ins(f), q, "a token can be moved before another one but behind the comments and directives "
                      "preceding that one")
        n += 1
        if (lost or c.problems) and f.internal:
            inline.add(f)
            for g in callers.get(f, ()):
                done.discard(g)
                work.append(g)
            continue
        if f.name == "cpp_include_guard":
            later.add(f)
            continue
        for q, lo in lost:
            c.bad("lost", ret_ins(f), q, "%s: an element taken out of a list is not put into another one" % f.name)
        c.flush()
    res.count("functions_taking_elements", n)
    return inline, later, cbs


def helpers(prog, fn):
    """static functions of the same file reachable from fn"""
    from docs import closure
    return {g for g in closure(prog, fn) if g.internal and g.tu is fn.tu and g is not fn}


class Whole(Move):
    """a function that moves all of one list into another, in order"""
    lists = None

    def __init__(self, *a):
        Move.__init__(self, *a)
        self.pairs = set()

    def inserting(self, eng, ins, name, L, x, st):
        for o in st.auto[0]:
            if o[0] == x:
                self.pairs.add((o[1], how(x), name, L, ins))

    def check(self, res):
        for frm, kind, name, L, ins in self.pairs:
            if self.lists and (frm != self.lists[0] or L is not None and L != self.lists[1]):
                res.violate(self.prop, "wrong-list", "%s (%s)" % (ins.where, ins.fn.name),
                            "what hangs off a token is not moved to the list it belongs to", [], "%s wrong-list" % ins.fn.name)
            if (kind, name) in ((FIRST, "vp_tlist_insert_head"), (LAST, "vp_tlist_insert_tail")):
                res.violate(self.prop, "order", "%s (%s)" % (ins.where, ins.fn.name),
                            "moving what hangs off a token reverses its order", [], "%s order" % ins.fn.name)

    def call(self, eng, ins, name, args, st, ctx):
        r = Move.call(self, eng, ins, name, args, st, ctx)
        if name in (FIRST, LAST) and r:
            for alt in r:
                if alt["ret"] == ("s", "self"):
                    alt["ret"] = ("s", (name, ctx, ins.fn.name, ins.res))
                    alt["facts"] = [(alt["ret"], (None, None, frozenset([0])))]
        return r


def how(x):
    return x[1][0] if x[0] == "s" and isinstance(x[1], tuple) and x[1] and isinstance(x[1][0], str) else None


class Remove(Move):
    """lexer_remove(): a token leaves the stream once nothing hangs off it"""

    def removing(self, eng, ins, L, x, st):
        if x != ("s", "TK"):
            self.bad("wrong-token", ins, st, "another token than the one given is removed from the stream")
            return
        self.res.obligations += 1
        for f, w in (("tk_prefixes", "before"), ("tk_suffixes", "after")):
            if ("p", ("S", "TK"), self.tk[f]) not in st.auto[1]:
                self.bad("removed-with-" + f, ins, st,
                         "a token can be removed while comments or directives %s it still hang off it" % w)

    def named(self, eng, ins, name, args, st, ctx):
        if name in self.movers:
            if args[0] != ("s", "TK"):
                self.bad("wrong-token", ins, st, "what hangs off another token is moved")
            elif args[1][0] != "s" or self.neighbour(args[1]) is None:
                if args[1] != ("i", 0):
                    self.bad("moved-elsewhere", ins, st, "what hangs off a removed token is not moved to its neighbour")
        return Move.named(self, eng, ins, name, args, st, ctx)

    def neighbour(self, v):
        return v[1][1] if isinstance(v[1], tuple) and v[1][0] == "NB" else None

    def call(self, eng, ins, name, args, st, ctx):
        if name in (NEXT, PREV) and args[0] == ("s", "TK"):
            s = ("s", ("NB", name))
            alts = [dict(ret=s, havoc=False, facts=[(s, (None, None, frozenset([0])))])]
            if eng.decide(st, "eq", s, ("i", 0)) is not False:
                alts.append(dict(ret=("i", 0), havoc=False))
            return alts
        return Move.call(self, eng, ins, name, args, st, ctx)


def removal(prog, res, prop, cbs):
    fn = prog.need("lexer_remove")
    c = Remove(prog, res, prop, helpers(prog, fn), fn)
    c.movers, c.callbacks = MOVERS, cbs
    eng = Engine(prog, c)
    outs = eng.run(fn, [("s", "LX"), ("s", "TK")], start())
    for rv, q in outs:
        res.obligations += 1
        if not any(o[0] == ("s", "TK") for o in q.auto[0]):
            c.bad("not-removed", ret_ins(fn), q, "removing a token can leave it in the stream")
    c.flush()
    res.count("removal_paths", len(outs))
    if not c.n:
        raise ir.AnalysisError("lexer_remove no longer removes")


# ------------------------------------------------------------------ branches

class Branch(Move):
    """misc = (tokens inside the branch, erased, unmute set, dropped up to the end of the branch,
    new prefix, kept, pending)"""
    fold = False

    def __init__(self, *a):
        Move.__init__(self, *a)
        b = offs(self.prog, "clang_token", ("branch.parent", "branch.nx"))
        self.br = dict(parent=b["branch.parent"], nx=b["branch.nx"])

    def keep(self, sid):
        return isinstance(sid, tuple) and sid and sid[0] in ("TKF", "PARENT", "NX", "CPP")

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is not None and l[0][0] == "S" and l not in st.mem and \
           l[1] in (self.tk["tk_str"], self.tk["tk_len"], self.tk["tk_off"]):
            return ("s", ("TKF", l[0][1], l[1]))
        return Move.load(self, eng, ins, ptr, st, ctx)

    SRC, END = ("s", ("PARENT", "CPP")), ("s", ("PARENT", ("NX", "CPP")))
    CPPDST = ("s", ("NX", "CPP"))

    def inside(self, eng, st, x):
        """x is known to lie inside the branch"""
        if x == self.SRC:
            return True
        return x in st.auto[3][0] and eng.decide(st, "eq", x, self.END) is False

    def owner(self, L):
        if L[0] != "p" or L[1][0] != "S":
            return None, None
        for f in ("tk_prefixes", "tk_suffixes"):
            if L[2] == self.tk[f]:
                return ("s", L[1][1]), f
        return None, None

    def store(self, eng, ins, val, ptr, st, ctx):
        l = eng.loc(ptr)
        if l == (("S", "UNMUTE"), 0):
            m = st.auto[3]
            st.auto = st.auto[:3] + (m[:2] + (val == self.END,) + m[3:],)

    def call(self, eng, ins, name, args, st, ctx):
        out, empty, some, m = st.auto
        if name in ("token_branch_find", "clang_recover_find_branch"):
            return [dict(ret=("i", 0), havoc=False),
                    dict(ret=("s", "CPP"), havoc=False, facts=[(("s", "CPP"), (None, None, frozenset([0])))])]
        if name == NEXT:
            inside = self.inside(eng, st, args[0])
            if inside:
                # only the token at hand matters from here on
                empty = frozenset(l for l in empty if not aged(l))
                some = frozenset(l for l in some if not aged(l))
                st.auto = (out, empty, some, (frozenset([args[0]]),) + m[1:])
            alts = [dict(ret=("s", "self"), havoc=False, auto=(out, empty, some, ((frozenset([args[0], ("s", "self")]) if inside else m[0]),) + m[1:]),
                         facts=[(("s", "self"), (None, None, frozenset([0])))])]
            if not inside:
                alts.append(dict(ret=("i", 0), havoc=False))
            return alts
        if name == PREV:
            chain = args[0] == ("s", "CPP") or args[0] in m[6]
            a0 = (out, empty, some, m[:5] + (m[5] or chain,) + m[6:])
            a1 = (out, empty, some, m[:6] + (m[6] | {("s", "self")} if chain else m[6],))
            return [dict(ret=("i", 0), havoc=False, auto=a0),
                    dict(ret=("s", "self"), havoc=False, auto=a1, facts=[(("s", "self"), (None, None, frozenset([0])))])]
        if name == "lexer_remove":
            x = args[1]
            self.n += 1
            self.res.obligations += 1
            if not self.inside(eng, st, x):
                self.bad("branch-range", ins, st, "a token outside of the branch can be removed")
            return [dict(auto=(out, frozenset(), frozenset(), m[:1] + (True,) + m[2:]), havoc=False)]
        if name == "token_rele":
            self.release(eng, ins, args[0], st)
            m = st.auto[3]
            return [dict(auto=(frozenset(o for o in out if o[0] != args[0] or o[1] is None), empty, some, m), havoc=False)]
        if name == "lexer_emit_template" and self.fold:
            t = args[2]
            sym = ("s", "COVER")
            b = t[1] if t[0] == "p" else None
            s = st.mem.get((b, self.tk["tk_str"]))
            n = st.mem.get((b, self.tk["tk_len"]))
            T = lambda x, f: ("s", ("TKF", x, self.tk[f]))
            want = {T(self.CPPDST[1], "tk_off"): 1, T(self.CPPDST[1], "tk_len"): 1, T("CPP", "tk_off"): -1}
            if s is None or s[0] != T("CPP", "tk_str") or n is None or linear(n[0]) != want:
                self.bad("fold-range", ins, st, "the directive standing for a branch does not cover the text from its "
                         "start up to its end")
            return [dict(ret=sym, auto=(out | {(sym, None, False)}, empty, some, m), havoc=False,
                         facts=[(sym, (None, None, frozenset([0])))])]
        return Move.call(self, eng, ins, name, args, st, ctx)

    def inserting(self, eng, ins, name, L, x, st):
        pass

    def inserted(self, m, L, x):
        o, f = self.owner(L) if L is not None else (None, None)
        if x == ("s", "COVER") and o == self.END and f == "tk_prefixes":
            m = m[:4] + (True,) + m[5:]
        if o == self.END and f == "tk_prefixes":
            m = m[:6] + (m[6] - {x},)
        return m

    def removed(self, m, x, eng=None, st=None, ins=None):
        return m

    def release(self, eng, ins, x, st):
        """what hangs off a token is dropped"""
        for o in st.auto[0]:
            if o[0] != x or o[1] is None:
                continue
            self.res.obligations += 1
            t, f = self.owner(o[1])
            m = st.auto[3]
            if t == self.END and f == "tk_prefixes" and self.fold:
                if m[3] is not None and eng.decide(st, "eq", m[3], self.CPPDST) is not False:
                    self.bad("branch-range", ins, st, "a directive or comment after the end of the branch can be dropped")
                st.auto = st.auto[:3] + (m[:3] + (x,) + m[4:],)
            elif t is not None and self.inside(eng, st, t):
                if self.fold and t == self.SRC and f == "tk_prefixes" and (not m[5] or m[6]):
                    self.bad("not-kept", ins, st, "comments or directives before the branch can be dropped")
            else:
                self.bad("branch-range", ins, st, "a comment or directive outside of the branch can be dropped")

    def gone(self, q):
        """dropped elements are accounted for in release()"""
        return [o for o in q.auto[0] if not o[2]]


def branches(prog, res, prop, inline, later, cbs):
    for name, fold in (("clang_branch", False), ("clang_recover", True)):
        fn = prog.need(name)
        c = Branch(prog, res, prop, inline, fn)
        c.fold, c.movers, c.callbacks = fold, MOVERS, cbs
        c.merge_at = 12
        c.inlined |= {prog.need("token_move_prefix")}
        eng = Engine(prog, c)
        outs = eng.run(fn, [("s", "CL"), ("s", "LX"), ("s", "UNMUTE")],
                       start((frozenset(), False, False, None, False, False, frozenset())))
        for rv, q in outs:
            res.obligations += 1
            m = q.auto[3]
            for o in c.gone(q):
                c.bad("lost", ret_ins(fn), q, "an element taken out of a list is not put into another one")
            if eng.decide(q, "eq", rv, ("i", 0)) is not True:
                if m[1] and not m[2]:
                    c.bad("mute", ret_ins(fn), q, "the output is not unmuted at the end of a branch removed")
                if fold and not m[4]:
                    c.bad("fold", ret_ins(fn), q, "a branch is removed without a directive standing for it")
            if fold and m[1] and not m[4]:
                c.bad("fold", ret_ins(fn), q, "a branch is removed without a directive standing for it")
        c.flush()
        res.count("branch_paths", len(outs))
        res.floor("branch_removals", c.n, 1)


# ------------------------------------------------------------------- reading

class Read(Move):
    """what is read hangs off the token read, or off the next one

    misc = (texts appended to the buffer joining comments, last event)"""
    spaces = ("lexer_eat_spaces", "lexer_eat_lines")

    def __init__(self, *a):
        Move.__init__(self, *a)
        self.pairs = []
        self.joined = 0

    def relevant(self, fn):
        return fn.name in LISTFNS or fn in self.inlined

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is not None and l[0][0] == "S" and l not in st.mem and l[1] in (self.tk["tk_str"], self.tk["tk_len"]):
            return ("s", ("TKF", l[0][1], l[1]))
        return None

    def call(self, eng, ins, name, args, st, ctx):
        out, empty, some, misc = st.auto
        if name in ("buffer_puts", "token_set_str", "buffer_get_ptr", "buffer_get_len"):
            return self.text(eng, ins, name, args, st)
        if name == "token_rele":
            x = args[0]
            own = [o for o in out if o[0] == x]
            if own:
                self.res.obligations += 1
                if (x, "joined") not in misc:
                    self.bad("lost", ins, st, "a comment or directive read can be dropped")
                return [dict(auto=(frozenset(o for o in out if o[0] != x), empty, some, misc), havoc=False)]
        if name is not None and name.startswith("clang_branch") or name in ("cpp_include_add", "cpp_include_leave"):
            # these work on the prefixes, they neither take any out nor add any other (see moves())
            return [dict(havoc=False)]
        if name == "clang_read_prefix" and self.root.name != name:
            alts = [dict(ret=("i", 0))]
            alts.append(dict(ret=("s", "self"), facts=[(("s", "self"), (None, None, frozenset([0])))]))
            for a in alts:
                a["auto"] = (out, frozenset(l for l in empty if l != self.PFX), some, misc)
            return alts
        return Move.call(self, eng, ins, name, args, st, ctx)

    def text(self, eng, ins, name, args, st):
        out, empty, some, misc = st.auto
        if name == "buffer_puts":
            p, n = args[1], args[2]
            who = p[1][1] if p[0] == "s" and isinstance(p[1], tuple) and p[1][0] == "TKF" and p[1][2] == self.tk["tk_str"] else None
            if who is not None and n == ("s", ("TKF", who, self.tk["tk_len"])):
                return [dict(auto=(out, empty, some, misc + ((("s", who), "put", args[0]),)), havoc=False)]
            return [dict(auto=(out, empty, some, misc + ((None, "put", args[0]),)), havoc=False)]
        if name in ("buffer_get_ptr", "buffer_get_len"):
            return [dict(ret=("s", (name, args[0])), havoc=False)]
        # token_set_str(dst, text, len)
        p, n = args[1], args[2]
        if p[0] == "s" and isinstance(p[1], tuple) and p[1][0] == "buffer_get_ptr" and n == ("s", ("buffer_get_len", p[1][1])):
            bf = p[1][1]
            puts = [m[0] for m in misc if m[1] == "put" and m[2] == bf]
            if len(puts) == 2 and puts[0] == args[0] and puts[1] is not None:
                self.joined += 1
                return [dict(auto=(out, empty, some, misc + ((puts[1], "joined"),)), havoc=False)]
        return [dict(havoc=False)]

    def inserting(self, eng, ins, name, L, x, st):
        for o in st.auto[0]:
            if o[0] == x:
                self.pairs.append((x, name, L, ins, st))

    def keep(self, sid):
        return isinstance(sid, tuple) and sid and sid[0] in ("TKF", "buffer_get_ptr", "buffer_get_len")


def reads(prog, fn):
    """helpers of fn that produce tokens or put them into lists"""
    known = PRODUCERS | {"clang_read_prefix"}
    cand = {g for g in helpers(prog, fn) if g.name not in known and not g.name.startswith("clang_branch")}
    out = set()
    grown = True
    while grown:
        grown = False
        for g in cand - out:
            if any(c.callee[0] == "g" and (c.callee[1] in known or c.callee[1] in LISTFNS or c.callee[1].startswith("vp_tlist")
                                           or prog.resolve(g.tu, c.callee[1]) in out) for c in g.calls()):
                out.add(g)
                grown = True
    return out


def reading(prog, res, prop, cbs):
    pfx = offs(prog, "clang", ("prefixes",))["prefixes"]
    PFX = ("p", ("S", "CL"), pfx)
    fn = prog.need("clang_read_prefix")
    c = Read(prog, res, prop, helpers(prog, fn) - {prog.need(n) for n in ("clang_read_comment", "clang_read_cpp")}, fn)
    c.PFX, c.callbacks = PFX, cbs
    eng = Engine(prog, c)
    outs = eng.run(fn, [("s", "CL"), ("s", "LX")], start())
    for rv, q in outs:
        res.obligations += 1
        for o in q.auto[0]:
            c.bad("lost", ret_ins(fn), q, "a comment or directive read is not kept")
    for x, name, L, ins, st in c.pairs:
        if L != PFX or name != "vp_tlist_insert_tail":
            c.bad("order", ins, st, "a comment or directive read is not put behind those read before")
    c.flush()
    res.count("read_paths", len(outs))
    res.floor("read_prefix", len(c.pairs), 1)

    fn = prog.need("clang_read")
    c = Read(prog, res, prop, reads(prog, fn), fn)
    c.PFX, c.callbacks = PFX, cbs
    eng = Engine(prog, c)
    outs = eng.run(fn, [("s", "LX"), ("s", "CL")], start())
    for rv, q in outs:
        res.obligations += 1
        if PFX not in q.auto[1]:
            c.bad("left-behind", ret_ins(fn), q, "a token can be read without what was read before it hanging off it")
        if not any(o[0] == rv for o in q.auto[0]):
            c.bad("token", ret_ins(fn), q, "the token read is not returned")
        for o in leftovers(q, rv):
            c.bad("lost", ret_ins(fn), q, "a comment read is not kept")
    c.flush()
    res.count("read_paths", len(outs))
    res.floor("read_suffix", len(c.pairs), 1)


# --------------------------------------------------------------------- flags

class Flags(Client):
    """only white space is marked as not to be emitted"""
    max_states = 60000
    max_seconds = 120
    merge_at = 12

    def __init__(self, prog, inline):
        self.tk = offs(prog, "token", ("tk_flags", "tk_type"))
        self.mask = ir.macro("token.h", "TOKEN_FLAG_DISCARD") | ir.macro("token.h", "TOKEN_FLAG_OPTLINE")
        self.space = enum(prog, "TOKEN_SPACE")
        self.inlined = inline
        self.problems = []
        self.n = 0

    def relevant(self, fn):
        return fn in self.inlined

    def keep(self, sid):
        return sid == "SPACE" or isinstance(sid, tuple) and sid and sid[0] == "TYPE"

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is not None and l[0][0] == "S" and l not in st.mem and l[1] == self.tk["tk_type"]:
            return ("s", ("TYPE", l[0][1]))
        return None

    def store(self, eng, ins, val, ptr, st, ctx):
        if not marks(eng, ins, self.tk["tk_flags"], self.mask):
            return
        self.n += 1
        l = eng.loc(ptr)
        if l is not None and l[0] == ("S", "SPACE"):
            return
        if l is not None and l[0][0] == "S" and \
           eng.decide(st, "eq", ("s", ("TYPE", l[0][1])), ("i", self.space)) is True:
            return
        self.problems.append((ins, st))

    def call(self, eng, ins, name, args, st, ctx):
        if name in ("lexer_eat_spaces", "lexer_eat_lines"):
            p = args[-1]
            b = st.copy()
            l = eng.loc(p)
            if l is not None:
                b.mem[l] = (("s", "SPACE"), None)
            return [dict(ret=("i", 0)),
                    dict(base=b, ret=("s", "self"), havoc=False, facts=[(("s", "self"), (1, None, frozenset([0])))])]
        return None


def marks(eng, ins, off, mask):
    """the store sets one of the flags"""
    t = eng.tag(ins.fn, ins.args[1], ins.ty)
    if t != ("struct.token", off):
        return False
    v = ins.args[0]
    if v[0] == "l":
        d = eng.defs(ins.fn).get(v[1])
        if d is None or d.op != "bin" and d.op != "or":
            return False
        return any(a[0] == "i" and a[1] & mask for a in d.args)
    return v[0] == "i" and bool(v[1] & mask)


def flags(prog, res, prop, cbs):
    c0 = Flags(prog, set())
    eng0 = Engine(prog, c0)
    callers = {}
    work = []
    for f in prog.functions():
        for c in f.calls():
            for g in eng0.callees(c):
                callers.setdefault(g, set()).add(f)
        if any(i.op == "store" and marks(eng0, i, c0.tk["tk_flags"], c0.mask) for i in f.instrs()):
            work.append(f)
    inline, done, n = set(), set(), 0
    while work:
        f = work.pop(0)
        if f in done:
            continue
        done.add(f)
        c = Flags(prog, inline)
        Engine(prog, c).run(f, args_of(f), State({}, {}, {}, None))
        n += c.n
        if c.problems and f.internal and f not in inline and callers.get(f):
            inline.add(f)
            work += [g for g in callers[f]]
            done -= callers[f]
            continue
        for ins, st in c.problems:
            res.violate(prop, "marked", "%s (%s)" % (ins.where, ins.fn.name),
                        "something else than white space after a token can be marked as not to be emitted",
                        st.trace_list(), "%s marked" % ins.fn.name)
        res.obligations += c.n
    res.floor("flag_stores", n, 2)


# ------------------------------------------------------------ include guards

class Guard(Move):
    """misc = ((list, new, how many), ...): directives dropped and added

    A directive is dropped only if it is part of a guard and replaced by a new one.
    """
    def __init__(self, *a):
        Move.__init__(self, *a)
        self.types = {enum(self.prog, "TOKEN_CPP_IFNDEF"): "ifndef", enum(self.prog, "TOKEN_CPP_DEFINE"): "define"}
        self.endif = enum(self.prog, "TOKEN_CPP_ENDIF")
        self.ty = offs(self.prog, "token", ("tk_type",))["tk_type"]

    def keep(self, sid):
        return isinstance(sid, tuple) and sid and sid[0] in ("FOUND", "END", "TYPE", "ISG")

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is not None and l[0][0] == "S" and l not in st.mem and l[1] == self.ty:
            return ("s", ("TYPE", l[0][1]))
        return None

    def call(self, eng, ins, name, args, st, ctx):
        out, empty, some, misc = st.auto
        nn = (None, None, frozenset([0]))
        if name == "token_list_find" and args[1][0] == "i":
            s = ("s", ("FOUND", args[1][1]))
            return [dict(ret=("i", 0), havoc=False), dict(ret=s, havoc=False, facts=[(s, nn)])]
        if name == "clang_token_branch_next":
            s = ("s", ("END", args[0]))
            return [dict(ret=s, havoc=False, facts=[(s, nn)])]
        if name == "is_guard_define":
            return [dict(ret=("s", ("ISG", args[0])), havoc=False)]
        if name == "lexer_emit_synthetic" and self.root.name != name:
            t = args[1]
            b = t[1] if t[0] == "p" else None
            ty = st.mem.get((b, self.ty))
            space = ty is not None and ty[0] == ("i", enum(self.prog, "TOKEN_SPACE"))
            return [dict(ret=("s", "self"), auto=(out | {(("s", "self"), ("i", 1 if space else 2), False)}, empty, some, misc),
                         facts=[(("s", "self"), nn)], havoc=False)]
        if name in ("lexer_peek", "lexer_peek_last"):
            b = st.copy()
            l = eng.loc(args[1])
            s = ("s", (name,))
            b.mem[l] = (s, None)
            return [dict(ret=("i", 0)), dict(base=b, ret=("i", 1), havoc=False, facts=[(s, nn)])]
        if name == "clang_token_branch_unlink":
            return [dict(havoc=False)]
        return Move.call(self, eng, ins, name, args, st, ctx)

    def removing(self, eng, ins, L, x, st):
        self.res.obligations += 1
        k = x[1][0] if x[0] == "s" and isinstance(x[1], tuple) else None
        d = ("s", ("FOUND", next(k for k, v in self.types.items() if v == "define")))
        i = ("s", ("FOUND", next(k for k, v in self.types.items() if v == "ifndef")))
        if eng.decide(st, "eq", ("s", ("ISG", d)), ("i", 0)) is not False:
            self.bad("guard", ins, st, "a directive can be dropped although there is no definition of a guard")
        if x not in (d, i, ("s", ("END", i))):
            self.bad("guard", ins, st, "something else than an include guard can be dropped")
        if x == ("s", ("END", i)) and eng.decide(st, "eq", ("s", ("TYPE", x[1])), ("i", self.endif)) is not True:
            self.bad("guard", ins, st, "a directive that does not end the guard can be dropped")

    def removed(self, misc, x, eng=None, st=None, ins=None):
        return self.count(misc, ("removed", x), 1)

    def inserting(self, eng, ins, name, L, x, st):
        for o in st.auto[0]:
            if o[0] == x and o[1] == ("i", 2):
                st.auto = st.auto[:3] + (self.count(st.auto[3], ("added", L), 1),)

    def inserted(self, misc, L, x):
        return misc

    @staticmethod
    def count(misc, k, n):
        d = dict(misc)
        d[k] = min(d.get(k, 0) + n, 4)
        return tuple(sorted(d.items(), key=repr))


def guard(prog, res, prop, cbs):
    fn = prog.need("cpp_include_guard")
    c = Guard(prog, res, prop, {g for g in helpers(prog, fn) if g.name not in ("is_guard_define", "path_to_guard")}, fn)
    c.callbacks, c.merge_at = cbs, None
    eng = Engine(prog, c)
    outs = eng.run(fn, args_of(fn), start())
    for rv, q in outs:
        res.obligations += 1
        d = dict(q.auto[3])
        first, last = ptr(("s", ("lexer_peek",)), c.tk["tk_prefixes"]), ptr(("s", ("lexer_peek_last",)), c.tk["tk_prefixes"])
        nrem = sum(v for k, v in d.items() if k[0] == "removed")
        nadd = (d.get(("added", first), 0), d.get(("added", last), 0))
        if (nrem or nadd != (0, 0)) and nadd != (2, 1):
            c.bad("guard", ret_ins(fn), q, "the guard is not made of two directives before the first and one before the last token")
        if nrem not in (0, 3):
            c.bad("guard", ret_ins(fn), q, "not all of an include guard is replaced")
        if any(not o[2] for o in q.auto[0]):
            c.bad("lost", ret_ins(fn), q, "a directive made up for the guard is not put anywhere")
    c.flush()
    res.count("guard_paths", len(outs))
    res.floor("guard_removals", c.n, 3)


# ------------------------------------------------------------------ moveable

class Moveable(Client):
    """token_is_moveable(): true only if no comment or directive hangs off the token

    auto = (state of prefixes, of suffixes): 0 not started, 1 at an element, 3 at the end"""
    max_states = 20000

    def __init__(self, prog, res, prop):
        self.prog, self.res, self.prop = prog, res, prop
        self.tk = offs(prog, "token", ("tk_flags", "tk_type", "tk_prefixes", "tk_suffixes"))
        self.lists = {("p", ("S", "TK"), self.tk["tk_prefixes"]): (0, "PX"),
                      ("p", ("S", "TK"), self.tk["tk_suffixes"]): (1, "SX")}
        self.comment = enum(prog, "TOKEN_COMMENT")
        self.cpp = ir.macro("token.h", "TOKEN_FLAG_CPP")
        self.space = enum(prog, "TOKEN_SPACE")

    def relevant(self, fn):
        return fn.name in LISTFNS or fn.internal and fn.tu.short == "token.c" or \
            fn.tu.short == "token.c" and fn.name.startswith("token_has_")

    def keep(self, sid):
        return sid in ("TK", "PX", "SX") or isinstance(sid, tuple) and sid and sid[0] in ("TY", "FL")

    def never_null(self, sid):
        return sid in ("TK", "PX", "SX")

    def load(self, eng, ins, ptr, st, ctx):
        l = eng.loc(ptr)
        if l is not None and l[0] in (("S", "PX"), ("S", "SX")) and l not in st.mem:
            if l[1] == self.tk["tk_type"]:
                return ("s", ("TY", l[0][1]))
            if l[1] == self.tk["tk_flags"]:
                return ("s", ("FL", l[0][1]))
        return None

    def harmless(self, eng, st, who):
        t, f = ("s", ("TY", who)), ("s", ("FL", who))
        if eng.decide(st, "eq", t, ("i", self.space)) is True:
            return True
        if eng.decide(st, "eq", t, ("i", self.comment)) is not False:
            return False
        # only comments and white space hang off behind a token
        return who == "SX" or eng.decide(st, "eq", ("b", "and", f, ("i", self.cpp)), ("i", 0)) is True

    def at(self, st, k, v, who=None):
        q = st.copy()
        q.auto = st.auto[:k] + (v,) + st.auto[k + 1:]
        if who is not None:
            for f in [f for f in q.facts if contains(f, ("TY", who)) or contains(f, ("FL", who))]:
                del q.facts[f]
        return q

    def call(self, eng, ins, name, args, st, ctx):
        a = st.auto
        if name in (FIRST, LAST) and args[0] in self.lists:
            k, who = self.lists[args[0]]
            b0, b1 = self.at(st, k, 3), self.at(st, k, 1 if a[k] != 2 else 2, who)
            return [dict(base=b0, ret=("i", 0), auto=b0.auto, havoc=False),
                    dict(base=b1, ret=("s", who), auto=b1.auto, havoc=False)]
        if name in (NEXT, PREV) and args[0] in (("s", "PX"), ("s", "SX")):
            who = args[0][1]
            k = 0 if who == "PX" else 1
            if not self.harmless(eng, st, who):
                a = a[:k] + (2,) + a[k + 1:]
                st.auto = a
            b0 = self.at(st, k, 2 if a[k] == 2 else 3)
            b1 = self.at(st, k, a[k], who)
            return [dict(base=b0, ret=("i", 0), auto=b0.auto, havoc=False),
                    dict(base=b1, ret=("s", who), auto=b1.auto, havoc=False)]
        if name == "token_list_find" and args[0] in self.lists:
            k, who = self.lists[args[0]]
            b0 = self.at(st, k, 3) if who == "SX" and args[1] == ("i", self.comment) and args[2] == ("i", 0) else st
            return [dict(base=b0, ret=("i", 0), auto=b0.auto, havoc=False),
                    dict(ret=("s", "self"), havoc=False, facts=[(("s", "self"), (None, None, frozenset([0])))])]
        return None


def moveable(prog, res, prop):
    fn = prog.need("token_is_moveable")
    c = Moveable(prog, res, prop)
    eng = Engine(prog, c)
    outs = eng.run(fn, [("s", "TK")], State({}, {}, {}, (0, 0)))
    n = 0
    for rv, q in outs:
        res.obligations += 1
        if eng.decide(q, "eq", rv, ("i", 0)) is True:
            continue
        n += 1
        if q.auto != (3, 3):
            res.violate(prop, "moveable", "%s:%s (%s)" % (fn.tu.short, fn.line, fn.name),
                        "a token can be taken for moveable although comments or directives hang off it", q.trace_list(),
                        "token_is_moveable")
    res.floor("moveable_paths", n, 1)


def p15(res, prop):
    prog = ir.load_lists()
    emission(prog, res, prop)
    inline, later, cbs = moves(prog, res, prop)
    removal(prog, res, prop, cbs)
    branches(prog, res, prop, inline, later, cbs)
    reading(prog, res, prop, cbs)
    flags(prog, res, prop, cbs)
    guard(prog, res, prop, cbs)
    moveable(prog, res, prop)
