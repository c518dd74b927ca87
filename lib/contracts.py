"""Function-level contracts that the system-call automaton (io_check) relies on.

Each is decided by the same path-sensitive walk over the function's own IR,
following every helper it calls.
"""
import ir
from absint import Engine, State, contains
from io_check import Affine, lin, comb, mkaff


class Sym(Affine):
    """follow every helper; keep all sums"""
    max_states = 40000
    max_inline = 8
    opaque = ()
    roots = ("BF", "A", "B")

    def __init__(self, prog, res):
        self.prog = prog
        self.res = res

    def tracked(self, st, s):
        return True

    def _lin2(self, st, x, y, sg):
        d = Affine._lin2(self, st, x, y, sg)
        if d is not None and (len(d[0]) > 4 or any(abs(c) > 2 for c in d[0].values())
                              or abs(d[1]) > 8):
            return None
        return d

    def relevant(self, fn):
        return fn.name not in self.opaque

    def bad(self, prop, rule, ins, st, msg, key=None):
        where = "%s (%s)" % (ins.where, ins.fn.name) if hasattr(ins, "where") else str(ins)
        self.res.violate(prop, rule, where, msg, st.trace_list(), key)


def field(prog, struct, name):
    """byte offset of a member, from debug info"""
    for tu in prog.tus:
        d = tu.di_struct(struct)
        if d:
            for off, size, n, bf, isst in d:
                if n == name:
                    return off // 8
    raise ir.AnalysisError("struct %s has no member %s" % (struct, name))


def same(st, a, b):
    if a == b:
        return True
    la, lb = lin(a), lin(b)
    return la is not None and la == lb


# ------------------------------------------------------------- buffer_cmp

class Cmp(Sym):
    def call(self, eng, ins, name, args, st, ctx):
        if name in ("memcmp", "bcmp"):
            r = ("s", ("memcmp",) + tuple(args))
            return [dict(ret=r, havoc=False)]
        return None


def buffer_cmp(prog, res, prop):
    """0 exactly for equal contents"""
    fn = prog.need("buffer_cmp")
    c = Cmp(prog, res)
    eng = Engine(prog, c)
    oL, oP = field(prog, "buffer", "bf_len"), field(prog, "buffer", "bf_ptr")
    A, B = ("s", "A"), ("s", "B")
    mem = {}
    tag = {oL: ("struct.buffer", oL), oP: ("struct.buffer", oP)}
    for s in ("A", "B"):
        for o, k in ((oL, "len"), (oP, "ptr")):
            mem[(("S", s), o)] = (("s", (k, s)), tag[o])

    class K:
        pass
    c.keep = lambda sid: True
    outs = eng.run(fn, [A, B], State({}, mem, {}, ()))
    ret = [i for i in fn.instrs() if i.op == "ret"][0]
    la, lb = ("s", ("len", "A")), ("s", ("len", "B"))
    pa, pb = ("s", ("ptr", "A")), ("s", ("ptr", "B"))
    good = []
    for p, q in ((pa, pb), (pb, pa)):
        for l in (la, lb):
            good.append(("s", ("memcmp", p, q, l)))
    n = 0
    for rv, q in outs:
        n += 1
        res.obligations += 1
        eqlen = eng.decide(q, "eq", la, lb) is True or eng.decide(q, "eq", lb, la) is True
        nelen = eng.decide(q, "eq", la, lb) is False or eng.decide(q, "eq", lb, la) is False
        zero = eng.decide(q, "eq", rv, ("i", 0))
        lenz = eng.decide(q, "eq", la, ("i", 0)) is True or eng.decide(q, "eq", lb, ("i", 0)) is True
        mz = any(eng.decide(q, "eq", g, ("i", 0)) is True for g in good)
        mnz = any(eng.decide(q, "eq", g, ("i", 0)) is False for g in good)
        if zero is True:
            ok = eqlen and (lenz or mz)
        elif zero is False:
            ok = nelen or (eqlen and mnz)
        else:
            ok = eqlen and rv in good
        if not ok:
            c.bad(prop, "compare-contract", ret, q,
                  "the comparison of input and output can %s" %
                  ("report equality for buffers that differ" if zero is not False else
                   "report a difference for equal buffers"))
        else:
            res.discharged += 1
    res.count("compare_outcomes", n)
    if n == 0:
        raise ir.AnalysisError("buffer_cmp has no return")


# ------------------------------------------------------- buffer_read_fd_impl

class Read(Sym):
    """the reading loop: position, size, accounting, end of file"""
    opaque = ("buffer_reserve",)

    def __init__(self, prog, res, prop):
        Sym.__init__(self, prog, res)
        self.prop = prop
        self.reads = 0

    def cur(self, eng, st, what):
        o = self.off[what]
        v = st.mem.get((("S", "BF"), o))
        return v[0] if v is not None else None

    def account(self, eng, ins, st):
        """everything read so far is accounted for in the length"""
        phase, exp = st.auto[0], st.auto[1]
        self.res.obligations += 1
        l = self.cur(eng, st, "len")
        if l is None or not same(st, l, exp):
            self.bad(self.prop, "read-account", ins, st,
                     "the length of the buffer is not increased by exactly the bytes read")
            return False
        self.res.discharged += 1
        return True

    def call(self, eng, ins, name, args, st, ctx):
        if name == "buffer_reserve":
            ph, exp, room = st.auto
            return [dict(ret=("i", 1), auto=("err", exp, room), note="buffer_reserve fails"),
                    dict(ret=("i", 0), auto=(ph, exp, True))]
        if name not in ("read", "pread", "readv"):
            return None
        self.reads += 1
        ph, exp, room = st.auto
        if ph in ("eof", "err"):
            room = True
        self.account(eng, ins, st)
        P, L, S = (self.cur(eng, st, k) for k in ("ptr", "len", "siz"))
        self.res.obligations += 4
        if args[0] != ("s", "FD"):
            self.bad(self.prop, "read-fd", ins, st, "reads another descriptor than the one given")
        else:
            self.res.discharged += 1
        lp = lin(args[1])
        if P is None or L is None or lp is None or lp != comb(lin(P), lin(L), 1):
            self.bad(self.prop, "read-position", ins, st,
                     "the next bytes are not stored right after those already in the buffer")
        else:
            self.res.discharged += 1
        ln = lin(args[2])
        if S is None or L is None or ln is None or ln != comb(lin(S), lin(L), -1):
            self.bad(self.prop, "read-size", ins, st,
                     "the number of bytes requested is not the room left in the buffer")
        else:
            self.res.discharged += 1
        if not room and eng.decide(st, "eq", args[2], ("i", 0)) is not False:
            self.bad(self.prop, "read-room", ins, st,
                     "read may be asked for zero bytes, which looks like end of file")
        else:
            self.res.discharged += 1
        # start over with fresh names
        q = st.copy()
        q.mem = {k: v for k, v in q.mem.items() if k[0] != ("S", "BF")}
        for k in list(q.env):
            if contains(q.env[k], "LEN") or contains(q.env[k], "NREAD"):
                q.env[k] = ("s", ("stale", k))
        for f in list(q.facts):
            if contains(f, "LEN") or contains(f, "NREAD") or contains(f, "SIZ"):
                del q.facts[f]
        seed(q.mem, self.off)
        N = ("s", "NREAD")
        L = ("s", "LEN")
        return [dict(base=q, ret=("i", -1), auto=("err", L, True), havoc=False, note="read fails"),
                dict(base=q, ret=("i", 0), auto=("eof", L, True), havoc=False, note="read: end of file"),
                dict(base=q, ret=N, auto=("data", mkaff(comb(lin(L), lin(N), 1)), False),
                     havoc=False, facts=[(N, (1, None, frozenset()))], note="read returns n bytes")]


def seed(mem, off):
    for k, s in (("len", "LEN"), ("ptr", "PTR"), ("siz", "SIZ")):
        mem[(("S", "BF"), off[k])] = (("s", s), ("struct.buffer", off[k]))


def buffer_read(prog, res, prop):
    fn = prog.need("buffer_read_fd_impl")
    c = Read(prog, res, prop)
    c.off = {k: field(prog, "buffer", "bf_" + k) for k in ("len", "ptr", "siz")}
    eng = Engine(prog, c)
    mem = {}
    seed(mem, c.off)
    outs = eng.run(fn, [("s", "BF"), ("s", "FD")],
                   State({}, mem, {}, ("start", ("s", "LEN"), True)))
    ret = [i for i in fn.instrs() if i.op == "ret"][0]
    for rv, q in outs:
        res.obligations += 1
        ph = q.auto[0]
        z = eng.decide(q, "eq", rv, ("i", 0))
        if z is not False and ph != "eof":
            c.bad(prop, "read-complete", ret, q,
                  "reading reports success without having seen the end of the file")
        elif z is not True and ph == "eof":
            c.bad(prop, "read-complete", ret, q, "reading reports failure although the file was read to its end")
        else:
            res.discharged += 1
        if z is not False:
            c.account(eng, ret, q)
    res.count("read_sites", c.reads)
    if c.reads == 0:
        raise ir.AnalysisError("buffer_read_fd_impl reads nothing")


# ------------------------------------------------------------ buffer_reserve

class Reserve(Sym):
    def call(self, eng, ins, name, args, st, ctx):
        if name is None and ins.ty == "ptr":
            # the realloc callback: (ptr, old, new, arg)
            return [dict(ret=("i", 0), auto=("fail",), havoc=False, note="realloc fails"),
                    dict(ret=("s", "NEWPTR"), auto=("grown", args[0], args[2]), havoc=False,
                         facts=[(("s", "NEWPTR"), (None, None, frozenset([0])))])]
        return None


def buffer_reserve(prog, res, prop):
    """success means room for len more bytes"""
    fn = prog.need("buffer_reserve")
    c = Reserve(prog, res)
    c.keep = lambda sid: True
    eng = Engine(prog, c)
    off = {k: field(prog, "buffer", "bf_" + k) for k in ("len", "ptr", "siz")}
    mem = {}
    seed(mem, off)
    N = ("s", "N")
    outs = eng.run(fn, [("s", "BF"), N], State({}, mem, {}, ()))
    ret = [i for i in fn.instrs() if i.op == "ret"][0]
    need = mkaff(comb(lin(("s", "LEN")), lin(N), 1))
    for rv, q in outs:
        res.obligations += 1
        if eng.decide(q, "eq", rv, ("i", 0)) is False:
            res.discharged += 1
            continue
        siz = q.mem.get((("S", "BF"), off["siz"]), (None,))[0]
        ptr = q.mem.get((("S", "BF"), off["ptr"]), (None,))[0]
        ln = q.mem.get((("S", "BF"), off["len"]), (None,))[0]
        ok = ln == ("s", "LEN") and siz is not None
        if ok and not (eng.decide(q, "uge", siz, need) is True or
                       eng.decide(q, "ule", need, siz) is True or
                       eng.decide(q, "ult", siz, need) is False or
                       eng.decide(q, "ugt", need, siz) is False or
                       room(eng, q, siz, N)):
            ok = False
        if ok and q.auto and q.auto[0] == "grown":
            ok = ptr == ("s", "NEWPTR") and same(q, siz, q.auto[2])
        elif ok:
            ok = ptr == ("s", "PTR") and siz == ("s", "SIZ")
        # the sum must not have wrapped
        if not ok:
            c.bad(prop, "reserve-contract", ret, q,
                  "growing a buffer can report success without room for the requested bytes")
        else:
            res.discharged += 1
    res.count("reserve_outcomes", len(outs))


def room(eng, q, siz, N):
    av = mkaff(comb(lin(siz), lin(("s", "LEN")), -1)) if lin(siz) else None
    return av is not None and (eng.decide(q, "uge", av, N) is True or
                               eng.decide(q, "ule", N, av) is True or
                               eng.decide(q, "ult", av, N) is False or
                               eng.decide(q, "ugt", N, av) is False)


# ------------------------------------------------- buffer_puts and buffer_pop

class Puts(Sym):
    """auto = bytes copied: None or (dst, src, n)"""
    opaque = ("buffer_reserve",)

    def call(self, eng, ins, name, args, st, ctx):
        if name == "buffer_reserve":
            q = st.copy()
            q.mem[(("S", "BF"), self.off["ptr"])] = (("s", "PTR"), ("struct.buffer", self.off["ptr"]))
            return [dict(ret=("i", 1), auto=("fail",), havoc=False, note="buffer_reserve fails"),
                    dict(base=q, ret=("i", 0), havoc=False)]
        if name in ("memcpy", "memmove"):
            self.copy(st, args)
            return [dict(ret=args[0], havoc=False, auto=st.auto)]
        return None

    def memcpy_hook(self, eng, st, args):
        self.copy(st, args)

    def copy(self, st, args):
        if st.auto and st.auto[0] == "copied":
            st.auto = ("twice",)
        else:
            st.auto = ("copied",) + tuple(args[:3])


def buffer_puts(prog, res, prop):
    """success appends all bytes given"""
    fn = prog.need("buffer_puts")
    c = Puts(prog, res)
    c.keep = lambda sid: True
    c.off = {k: field(prog, "buffer", "bf_" + k) for k in ("len", "ptr", "siz")}
    eng = Engine(prog, c)
    mem = {}
    seed(mem, c.off)
    S, N, L = ("s", "STR"), ("s", "N"), ("s", "LEN")
    outs = eng.run(fn, [("s", "BF"), S, N], State({}, mem, {}, ()))
    ret = [i for i in fn.instrs() if i.op == "ret"][0]
    for rv, q in outs:
        res.obligations += 1
        if q.auto == ("fail",):
            if eng.decide(q, "ne", rv, ("i", 0)) is not True:
                c.bad(prop, "append", ret, q, "appending to a buffer reports success although there was no room")
            continue
        if eng.decide(q, "eq", rv, ("i", 0)) is False:
            continue
        ln = q.mem.get((("S", "BF"), c.off["len"]), (None,))[0]
        empty = eng.decide(q, "eq", N, ("i", 0)) is True or eng.decide(q, "eq", S, ("i", 0)) is True
        if empty and q.auto == () and ln == L:
            continue
        ok = bool(q.auto) and q.auto[0] == "copied" and lin(q.auto[1]) == comb(lin(("s", "PTR")), lin(L), 1) and \
            q.auto[2] == S and q.auto[3] == N and ln is not None and lin(ln) == comb(lin(L), lin(N), 1)
        if not ok:
            c.bad(prop, "append", ret, q, "appending to a buffer reports success without storing all bytes at its end")
    res.count("append_outcomes", len(outs))


def buffer_pop(prog, res, prop):
    """removes as many bytes as it reports, at most as many as asked for"""
    fn = prog.need("buffer_pop")
    c = Sym(prog, res)
    c.keep = lambda sid: True
    off = {k: field(prog, "buffer", "bf_" + k) for k in ("len", "ptr", "siz")}
    eng = Engine(prog, c)
    mem = {}
    seed(mem, off)
    N, L = ("s", "N"), ("s", "LEN")
    outs = eng.run(fn, [("s", "BF"), N], State({}, mem, {}, ()))
    ret = [i for i in fn.instrs() if i.op == "ret"][0]
    for rv, q in outs:
        res.obligations += 1
        ln = q.mem.get((("S", "BF"), off["len"]), (None,))[0]
        few = rv == N or (rv == L and (eng.decide(q, "ugt", N, L) is True or eng.decide(q, "ult", L, N) is True or
                                       eng.decide(q, "uge", N, L) is True or eng.decide(q, "ule", L, N) is True))
        if not few or ln is None or (lin(ln) != comb(lin(L), lin(rv), -1) and not (rv == L and ln == ("i", 0))):
            c.bad(prop, "pop", ret, q, "removing bytes from a buffer removes other bytes than it reports")
    res.count("pop_outcomes", len(outs))


# -------------------------------------------------------------- parser_exec

class PExec(Sym):
    """output is produced only after the whole file was accepted"""
    def tracked(self, st, s):
        return False

    def __init__(self, prog, res, prop):
        Sym.__init__(self, prog, res)
        self.prop = prop
        m = ir.macros("parser-priv.h")
        self.codes = {k: ir.macro("parser-priv.h", k) for k in ("GOOD", "FAIL", "NONE", "BRCH")}
        self.eof = ir.macro("lexer.h", "LEXER_EOF")
        self.n = {}
        # everything that may write to the caller's buffer
        self.rel = None

    def relevant(self, fn):
        # follow helpers of the driver that reach one of the modelled calls
        if self.rel is None:
            names = {"parser_root", "doc_exec", "clang_branch", "clang_recover",
                     "lexer_error_flush"}
            rev, seen = {}, set()
            for f in self.prog.functions():
                for c in f.calls():
                    if c.callee[0] == "g":
                        if c.callee[1] in names:
                            seen.add(f)
                        else:
                            g = self.prog.resolve(f.tu, c.callee[1])
                            if g is not None:
                                rev.setdefault(g, set()).add(f)
            w = list(seen)
            while w:
                for g in rev.get(w.pop(), ()):
                    if g not in seen:
                        seen.add(g)
                        w.append(g)
            self.rel = {f for f in seen if f.tu.short == "parser.c" and f.name != "parser_root"}
        return fn in self.rel

    def call(self, eng, ins, name, args, st, ctx):
        # auto = (phase, wrote, flushed)
        ph, wrote, fl = st.auto
        self.n[name] = self.n.get(name, 0) + 1
        if name == "lexer_if" and args[1] == ("i", self.eof):
            out = [dict(ret=("i", 0))]
            if ph in ("good", "start"):
                out.append(dict(ret=("i", 1), auto=("eof", wrote, fl), note="end of file reached"))
            else:
                out.append(dict(ret=("i", 1), auto=("bad-eof", wrote, fl),
                                note="end of file reached after an error that was not recovered"))
            return out
        if name == "parser_root":
            if ph == "bad":
                self.res.obligations += 1
                self.bad(self.prop, "continue-after-error", ins, st,
                         "parsing goes on after an error without a successful recovery")
            out = []
            for k, v in self.codes.items():
                out.append(dict(ret=("i", v), auto=("good" if k == "GOOD" else "bad", wrote, fl),
                                note="parser_root returns %s" % k))
            return out
        if name in ("clang_branch", "clang_recover"):
            return [dict(ret=("i", 0), note="%s gives up" % name),
                    dict(ret=("s", "self"), auto=("good", wrote, fl), note="%s recovers" % name,
                         facts=[(("s", "self"), (1, None, frozenset()))])]
        if name == "lexer_error_flush":
            return [dict(auto=(ph, wrote, True))]
        if name == "doc_exec":
            self.res.obligations += 1
            if ph != "eof":
                self.bad(self.prop, "output-before-accept", ins, st,
                         "output is produced although the file was not accepted up to its end")
            else:
                self.res.discharged += 1
            return [dict(auto=(ph, True, fl))]
        # nothing else may be handed the destination
        if name is not None and ("s", "OUT") in args and not \
           (self.prog.resolve(ins.fn.tu, name) in (self.rel or ())):
            self.res.obligations += 1
            if ph != "eof":
                self.bad(self.prop, "output-before-accept", ins, st,
                         "%s is handed the output buffer before the file was accepted up to its end" % name)
            else:
                self.res.discharged += 1
        return None


def parser_exec(prog, res, prop):
    fn = prog.need("parser_exec")
    prog.need("parser_root")
    prog.need("doc_exec")
    c = PExec(prog, res, prop)
    eng = Engine(prog, c)
    outs = eng.run(fn, [("s", "PR"), ("s", "CHUNKS"), ("s", "OUT")],
                   State({}, {}, {}, ("start", False, False)))
    ret = [i for i in fn.instrs() if i.op == "ret"][0]
    for rv, q in outs:
        ph, wrote, fl = q.auto
        z = eng.decide(q, "eq", rv, ("i", 0))
        res.obligations += 1
        if z is not False and ph != "eof":
            c.bad(prop, "accept", ret, q, "parsing can succeed without the file having been accepted up to its end")
        elif z is not False and not wrote:
            c.bad(prop, "accept", ret, q, "parsing can succeed without producing the output")
        elif z is not True and ph == "eof":
            c.bad(prop, "accept", ret, q, "parsing can fail although the whole file was accepted")
        elif z is not True and not fl:
            c.bad(prop, "diagnostic", ret, q, "parsing can fail without the error being reported")
        elif z is not True and wrote:
            c.bad(prop, "accept", ret, q, "output is produced although parsing fails")
        else:
            res.discharged += 1
    res.count("parser_exec_outcomes", len(outs))
    for k in ("parser_root", "doc_exec", "clang_recover", "lexer_error_flush"):
        if not c.n.get(k):
            raise ir.AnalysisError("parser_exec no longer reaches %s" % k)


# ------------------------------------------------------------ lexer_tokenize

class Tok(Sym):
    """every token the reader returns is linked, success only at end of file"""
    opaque = ("lexer_free", "lexer_dump", "lexer_line_alloc", "arena_calloc",
              "error_alloc", "arena_cleanup_impl", "arena_cleanup", "lexer_remove")

    def __init__(self, prog, res, prop):
        Sym.__init__(self, prog, res)
        self.prop = prop
        self.eof = ir.macro("lexer.h", "LEXER_EOF")
        self.discard = ir.macro("token.h", "TOKEN_FLAG_DISCARD")
        self.off_type = field(prog, "token", "tk_type")
        self.off_flags = field(prog, "token", "tk_flags")
        self.reads = 0
        self.removes = 0
        self.removeguard = []

    def relevant(self, fn):
        return fn.tu.short == "lexer.c" and fn.name not in self.opaque

    def done(self, eng, ins, st):
        ph, linked = st.auto[0], st.auto[1]
        self.res.obligations += 1
        if ph == "token" and not linked:
            self.bad(self.prop, "token-dropped", ins, st,
                     "a token returned by the reader is not added to the list of tokens")
        else:
            self.res.discharged += 1

    def call(self, eng, ins, name, args, st, ctx):
        if name is None and ins.ty == "ptr" and len(args) == 2:
            self.reads += 1
            self.done(eng, ins, st)
            q = st.copy()
            for k in [k for k in q.mem if k[0] == ("S", "TK")]:
                del q.mem[k]
            for f in [f for f in q.facts if contains(f, "TK") or contains(f, "TYPE") or contains(f, "FLAGS")]:
                del q.facts[f]
            for k in list(q.env):
                if contains(q.env[k], "TK") or contains(q.env[k], "TYPE") or contains(q.env[k], "FLAGS"):
                    q.env[k] = ("s", ("stale", k))
            for k in list(q.mem):
                if contains(q.mem[k][0], "TK"):
                    del q.mem[k]
            q.mem[(("S", "TK"), self.off_type)] = (("s", "TYPE"), ("struct.token", self.off_type))
            q.mem[(("S", "TK"), self.off_flags)] = (("s", "FLAGS"), ("struct.token", self.off_flags))
            return [dict(base=q, ret=("i", 0), auto=("null", False), note="the reader returns no token"),
                    dict(base=q, ret=("s", "TK"), auto=("token", False), note="the reader returns a token",
                         facts=[(("s", "TK"), (None, None, frozenset([0])))])]
        if name == "lexer_remove":
            self.removes += 1
            return [dict()]
        return None

    def store(self, eng, ins, val, ptr, st, ctx):
        if val == ("s", "TK"):
            ph, linked = st.auto
            self_alloca = ptr[0] == "p" and ptr[1][0] == "A"
            if not self_alloca and ph == "token":
                # the list of discarded tokens is filled only under the flag
                st.auto = (ph, True)


def lexer_tokenize(prog, res, prop):
    fn = prog.need("lexer_tokenize")
    c = Tok(prog, res, prop)
    c.roots = ("TK", "TYPE", "FLAGS")
    c.keep = lambda sid: sid in ("TK", "TYPE", "FLAGS")
    eng = Engine(prog, c)
    outs = eng.run(fn, [("s", "ARG")], State({}, {}, {}, ("start", False)))
    ret = [i for i in fn.instrs() if i.op == "ret"][0]
    for rv, q in outs:
        ph, linked = q.auto
        z = eng.decide(q, "eq", rv, ("i", 0))
        res.obligations += 1
        if z is True:
            if ph != "null":
                c.bad(prop, "tokenize-status", ret, q, "tokenizing can fail although every token could be read")
            else:
                res.discharged += 1
            continue
        c.done(eng, ret, q)
        if ph != "token" or eng.decide(q, "eq", ("s", "TYPE"), ("i", c.eof)) is not True:
            c.bad(prop, "tokenize-status", ret, q,
                  "tokenizing can succeed without having reached the end of the file")
        else:
            res.discharged += 1
    res.count("tokenize_outcomes", len(outs))
    if not c.reads:
        raise ir.AnalysisError("lexer_tokenize no longer calls the reader")


# --------------------------------------------------------------- tmptemplate

class Tmpl(Sym):
    """the template: directory part of the path, then a name without '/'"""
    APPEND = {"buffer_puts", "buffer_putc", "buffer_printf"}

    def __init__(self, prog, res):
        Sym.__init__(self, prog, res)
        self.unknown = []

    def relevant(self, fn):
        return fn.tu.short == "fs.c"

    def pieces(self, ins, st, fmt, va):
        """expand a printf format into pieces or None"""
        out = []
        i = 0
        lit = ""
        va = list(va)
        while i < len(fmt):
            if fmt[i] != "%":
                lit += fmt[i]
                i += 1
                continue
            if lit:
                out.append(("lit", lit))
                lit = ""
            if fmt.startswith("%s", i):
                out.append(("str", va.pop(0)))
                i += 2
            elif fmt.startswith("%.*s", i):
                n = va.pop(0)
                out.append(("sub", va.pop(0), n))
                i += 4
            elif fmt.startswith("%c", i):
                out.append(("chr", va.pop(0)))
                i += 2
            elif fmt.startswith("%%", i):
                out.append(("lit", "%"))
                i += 2
            else:
                return None
        if lit:
            out.append(("lit", lit))
        return out

    def cstr(self, ins, v):
        if v[0] == "p" and v[1][0] == "G":
            return self.prog.gstr(ins.fn.tu, ("g", v[1][2]))
        return None

    def call(self, eng, ins, name, args, st, ctx):
        if name in ("strrchr", "memrchr"):
            if args[0] == ("s", "PATH") and args[1] == ("i", ord("/")):
                return [dict(ret=("i", 0), auto=("noslash",) + st.auto[1:], havoc=False, note="no slash in the path"),
                        dict(ret=("s", "P"), auto=("slash",) + st.auto[1:], havoc=False, note="slash in the path",
                             facts=[(("s", "P"), (None, None, frozenset([0])))])]
            return None
        if name in ("arena_buffer_alloc", "buffer_alloc"):
            return [dict(ret=("s", "TBF"), havoc=False, auto=(st.auto[0], ()),
                         facts=[(("s", "TBF"), (None, None, frozenset([0])))])]
        if name in self.APPEND and args[0] == ("s", "TBF"):
            if name == "buffer_puts":
                s = self.cstr(ins, args[1])
                if s is not None and args[2] == ("i", len(s)):
                    p = [("lit", s)]
                else:
                    p = [("sub", args[1], args[2])]
            elif name == "buffer_putc":
                p = [("chr", args[1])]
            else:
                f = self.cstr(ins, args[1])
                p = self.pieces(ins, st, f, args[2:]) if f is not None else None
                if p is None:
                    p = [("unknown",)]
            return [dict(ret=("i", 0), auto=(st.auto[0], st.auto[1] + tuple(p)), havoc=False)]
        if name in ("arena_sprintf",):
            f = self.cstr(ins, args[1])
            p = self.pieces(ins, st, f, args[2:]) if f is not None else [("unknown",)]
            return [dict(ret=("s", ("STR", tuple(p or [("unknown",)]))), havoc=False)]
        if name in ("buffer_str", "buffer_release"):
            return [dict(ret=("s", ("STR", st.auto[1])), havoc=False)]
        return None


def tmptemplate(prog, res, prop):
    fn = prog.need("tmptemplate")
    c = Tmpl(prog, res)
    eng = Engine(prog, c)
    outs = eng.run(fn, [("s", "PATH"), ("s", "SCOPE")], State({}, {}, {}, ("unknown", ())))
    ret = [i for i in fn.instrs() if i.op == "ret"][0]
    for rv, q in outs:
        res.obligations += 1
        sl = q.auto[0]
        why = None
        if not (rv[0] == "s" and isinstance(rv[1], tuple) and rv[1][0] == "STR"):
            why = "the template is not built from the path"
        elif sl == "unknown":
            why = "the template does not depend on where the last slash of the path is"
        else:
            ps = [p for p in rv[1][1] if p != ("chr", ("i", 0))]
            if sl == "slash":
                d = ("sub", ("s", "PATH"))
                n = comb(comb(lin(("s", "P")), lin(("s", "PATH")), -1), ({}, 1), 1)
                if not ps or ps[0][:2] != d or lin(ps[0][2]) != n:
                    why = "the template does not start with the directory of the path"
                ps = ps[1:]
                base = ({("s", "P"): 1}, 1)
            else:
                base = ({("s", "PATH"): 1}, 0)
            tail = ""
            for p in ps:
                if p[0] == "lit" and "/" not in p[1]:
                    tail += p[1]
                elif p[0] == "chr" and p[1][0] == "i" and p[1][1] not in (47, 0):
                    tail += chr(p[1][1])
                elif p[0] == "str" and lin(p[1]) == base:
                    tail += "*"
                else:
                    why = why or "the name part of the template can leave the directory of the path"
            if why is None and not tail.endswith("XXXXXX"):
                why = "the template does not end in XXXXXX"
        if why:
            c.bad(prop, "template", ret, q, why)
        else:
            res.discharged += 1
    res.count("template_outcomes", len(outs))
    if not outs:
        raise ir.AnalysisError("tmptemplate has no return")


# ------------------------------------------------------- command line options

class Opt(Sym):
    """main() up to the point where the style is read, for one option letter"""
    max_states = 5000

    def __init__(self, prog, res, prop, letters, io):
        Sym.__init__(self, prog, res)
        self.prop = prop
        self.letters = letters
        self.io = io
        self.seen = 0

    def tracked(self, st, s):
        return False

    def relevant(self, fn):
        return fn.tu.short in ("knfmt.c", "options.c") and fn.name != "options_trace_parse"

    def load(self, eng, ins, ptr, st, ctx):
        if ptr == ("p", ("G", "", "optarg"), 0):
            return ("s", "OPTARG")
        return None

    def call(self, eng, ins, name, args, st, ctx):
        if name == "getopt":
            s = self.prog.gstr(ins.fn.tu, ins.args[2])
            if s is None and args[2][0] == "p" and args[2][1][0] == "G":
                s = self.prog.gstr(ins.fn.tu, ("g", args[2][1][2]))
            if s is None:
                raise ir.AnalysisError("the option string is not a constant")
            if st.auto < len(self.letters):
                self.res.obligations += 1
                l = self.letters[st.auto]
                c, arg = l[0], len(l) > 1
                i = s.find(c)
                if i == -1 or (s[i + 1:i + 2] == ":") != arg:
                    self.bad(self.prop, "option", ins, st, "option -%s is not accepted as documented" % c)
                return [dict(ret=("i", ord(c)), auto=st.auto + 1, havoc=False)]
            return [dict(ret=("i", -1), havoc=False)]
        if name == "options_trace_parse":
            return [dict(ret=("i", 0), havoc=False)]
        if name == "style_parse":
            self.seen += 1
            want = {"D": "diffparse", "d": "diff", "i": "inplace", "s": "simple"}
            for l, n in want.items():
                self.res.obligations += 1
                v = self.io.opt(eng, st, n)
                exp = l in self.letters
                if v is not exp:
                    self.bad(self.prop, "option", ins, st,
                             "%s option %s is %s" %
                             ("with -%s the" % " -".join(x[0] for x in self.letters) if self.letters
                              else "without options the",
                              n, "set" if v else "not set" if v is False else "unknown"))
            self.res.obligations += 1
            exp = ("s", "OPTARG") if "c:" in self.letters else ("i", 0)
            if args[0] != exp:
                self.bad(self.prop, "option", ins, st, "the style file given with -c is %s" %
                         ("not the one used" if "c:" in self.letters else "set although -c was not given"))
            return []
        return None


def options(prog, res, prop):
    import io_check
    fn = prog.need("main")
    prog.need("style_parse")
    every = ("c:", "D", "d", "i", "s", "t:")
    combos = [()] + [(x,) for x in every] + [(x, y) for x in every for y in every]
    for letter in combos:
        io = io_check.IO(prog, res)
        io.optloc()
        c = Opt(prog, res, prop, letter, io)
        eng = Engine(prog, c)
        eng.run(fn, [("s", ("arg", n)) for n, _ in fn.params], State({}, {}, {}, 0))
        if not c.seen:
            raise ir.AnalysisError("main no longer reads the style for option %s" % letter)
        res.count("options_analysed")
