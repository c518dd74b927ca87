"""main() as a property automaton over the system calls it can reach.

One path-sensitive run from main() (all helper functions that reach a tracked
call are followed) decides the file-effect properties:

  P01 in-place replacement is atomic          P02 failed edit leaves no trace
  P03 attributes carried over                 P04 no output after a failure
  P05 exit status                             P06 unchanged input not touched
  P07 every byte is transferred
"""
import ir
from absint import Client, Engine, State, walk_syms, subst, contains

# functions of other modules that are summarised by their contract
CONTRACTS = {
    "style_parse", "style_init", "style_shutdown", "clang_init", "clang_shutdown",
    "expr_init", "expr_shutdown", "diff_init", "diff_shutdown", "diff_parse",
    "simple_alloc", "clang_alloc", "clang_lexer_callbacks", "lexer_tokenize",
    "parser_alloc", "parser_exec", "options_init", "options_trace_parse",
    "options_trace_level", "tmptemplate",
}

TRACK = {"open", "openat", "mkstemp", "write", "pwrite", "writev", "read",
         "rename", "renameat", "unlink", "unlinkat", "remove", "fchmod",
         "fchown", "chmod", "chown", "fstat", "stat", "lstat", "close", "fork",
         "vfork", "execl", "execlp", "execv", "execvp", "waitpid", "wait",
         "_exit", "lseek", "buffer_cmp", "parser_exec", "lexer_tokenize",
         "buffer_read_fd_impl", "truncate", "ftruncate", "fsync", "buffer_reset"}

W = "W"


def lin(v):
    """linear form {sym: coef}, const ; None if not linear"""
    k = v[0]
    if k == "i":
        return {}, v[1]
    if k == "s":
        return {v: 1}, 0
    if k == "p" and v[1][0] == "S" and isinstance(v[2], int):
        return {("s", v[1][1]): 1}, v[2]
    if k == "aff":
        return dict(v[1]), v[2]
    if k == "b" and v[1] in ("add", "sub"):
        a, b = lin(v[2]), lin(v[3])
        if a is None or b is None:
            return None
        return comb(a, b, 1 if v[1] == "add" else -1)
    return None


def comb(a, b, sg):
    d = dict(a[0])
    for k, c in b[0].items():
        d[k] = d.get(k, 0) + sg * c
        if d[k] == 0:
            del d[k]
    return d, a[1] + sg * b[1]


def mkaff(l):
    d, c = l
    if not d:
        return ("i", c)
    if len(d) == 1 and c == 0 and list(d.values()) == [1]:
        return list(d)[0]
    return ("aff", tuple(sorted(d.items(), key=repr)), c)


class Affine(Client):
    """client that keeps sums and differences of the tracked quantities"""

    def tracked(self, st, sym):
        return False

    def _lin2(self, st, x, y, sg):
        a, b = lin(x), lin(y)
        if a is None or b is None:
            return None
        if not any(self.tracked(st, s) for s in list(a[0]) + list(b[0])):
            return None
        d = comb(a, b, sg)
        # only keep closed forms over tracked symbols
        if not all(self.tracked(st, s) for s in d[0]):
            return None
        return d

    def arith(self, eng, ins, op, x, y, st):
        if op not in ("add", "sub"):
            return None
        d = self._lin2(st, x, y, 1 if op == "add" else -1)
        return mkaff(d) if d is not None else None

    def gep(self, eng, ins, base, idx, st):
        if ins.ty != "i8" or len(idx) != 1:
            return None
        d = self._lin2(st, base, idx[0], 1)
        return mkaff(d) if d is not None else None


class A(dict):
    """automaton state as an immutable tuple"""
    def freeze(self):
        return tuple(sorted(((k, v) for k, v in self.items()), key=lambda kv: kv[0]))


def thaw(t):
    return A(t)


INIT = A(fail=False, stage=0, cmp=None, tmp=(), strm=None, werr=None, src=None,
         dst=None, orig=None, child=False, attrs=(), dirty=(), done=False, devfd=()).freeze()


class IO(Affine):
    max_states = 300000

    def __init__(self, prog, res):
        self.prog = prog
        self.res = res
        self.n = {}
        self.stat_off = {}
        for tu in prog.tus:
            d = tu.di_struct("stat")
            if d:
                for off, size, name, bf, _ in d:
                    self.stat_off[name] = off // 8
        self._rel = None

    # -- which functions are followed
    def relevant(self, fn):
        if self._rel is None:
            rev = {}
            direct = set()
            for f in self.prog.functions():
                for c in f.calls():
                    if c.callee[0] != "g":
                        continue
                    n = c.callee[1]
                    g = self.prog.resolve(f.tu, n)
                    if n in TRACK or n in ("style_parse", "diff_parse"):
                        direct.add(f)
                    elif g is not None and n not in CONTRACTS:
                        rev.setdefault(g, set()).add(f)
            seen = set()
            w = list(direct)
            while w:
                f = w.pop()
                if f in seen:
                    continue
                seen.add(f)
                w += rev.get(f, ())
            self._rel = seen
        return fn in self._rel and fn.name not in CONTRACTS and fn.name not in TRACK

    def keep(self, sid):
        return isinstance(sid, tuple) and len(sid) > 0 and \
            (sid[0] in ("buflen", "bufptr", W) or
             (sid[0] == "g" and sid[1][0] == "stat"))

    def ev(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def bad(self, prop, rule, ins, st, msg, key=None):
        self.res.violate(prop, rule, "%s (%s)" % (ins.where, ins.fn.name), msg,
                         st.trace_list(), key)

    # -- which mode the command line selected
    def optloc(self):
        """(alloca name in main, byte offset) of struct options"""
        if not hasattr(self, "_optloc"):
            fn = self.prog.need("main")
            self._optloc = []

            def walk(t, off, al):
                if isinstance(t, str) and t.startswith("%"):
                    if t == "%struct.options":
                        self._optloc.append((al, off))
                        return
                    u = fn.tu.types.get(t)
                    if isinstance(u, tuple) and u[0] == "st":
                        for k in range(len(u[1])):
                            o, e = fn.tu.field_off(u, k)
                            walk(e, off + o, al)
            for n, i in fn.allocas.items():
                walk(i.ty, 0, n)
            if len(self._optloc) != 1:
                raise ir.AnalysisError("main does not hold exactly one struct options")
            d = fn.tu.di_struct("options")
            self._optbits = {name: off for off, size, name, bf, _ in d}
        return self._optloc[0]

    def opt(self, eng, st, name):
        """is the option known to be set (True), clear (False) or unknown"""
        al, base = self.optloc()
        bit = self._optbits.get(name)
        if bit is None:
            raise ir.AnalysisError("struct options has no member %s" % name)
        b = ("A", (), "main", al)
        for unit in (8, 16, 32):
            off = base + bit // unit * unit // 8
            k = bit % unit
            v = st.mem.get((b, off))
            if v is None:
                d = st.mem.get((b, ("*", ("struct.options", off - base)))) or \
                    st.mem.get((b, ("*", ("struct.options", "*")))) or st.mem.get((b, "*"))
                if d is None or d[0] is None:
                    continue
                x = d[0]
                if x[0] == "gen":
                    x = ("s", ("g", x[1], off))
            else:
                x = v[0]
            for e in (("b", "and", ("b", "lshr", x, ("i", k)), ("i", 1)) if k else
                      ("b", "and", x, ("i", 1)),
                      ("b", "and", x, ("i", 1 << k))):
                if x[0] == "i":
                    return bool(x[1] >> k & 1)
                r = eng.decide(st, "eq", e, ("i", 0))
                if r is not None:
                    return not r
        return None

    def mode(self, eng, ins, st, want, what):
        self.res.obligations += 1
        got = {k: self.opt(eng, st, k) for k in want}
        if got != want:
            k = [k for k in want if got[k] != want[k]][0]
            self.bad("P08", "mode", ins, st, "%s although the %s option is not known to be %s here" %
                     (what, {"inplace": "-i", "diff": "-d"}[k], "given" if want[k] else "absent"))

    def produced(self, eng, ins, st, a):
        """a file that was accepted has been delivered"""
        if a["stage"] != 3 or a["fail"] or a["werr"] is not None or a["done"]:
            return
        self.res.obligations += 1
        if self.delivered(eng, st, a):
            return
        self.bad("P07", "output-missing", ins, st,
                 "the file counts as processed successfully although its formatted output was not delivered completely")

    def delivered(self, eng, st, a):
        i, d = self.opt(eng, st, "inplace"), self.opt(eng, st, "diff")
        if a["done"] or (a["cmp"] == "eq" and (i or d)):
            return True
        if a["strm"] is not None and a["strm"][0] == ("i", 1) or a["strm"] is None:
            return a["dst"] is not None and self.complete(eng, st, a, a["dst"])
        return False

    # -- ghost counter of bytes written
    def tracked(self, st, s):
        sid = s[1]
        if isinstance(sid, tuple) and sid and sid[0] in (W, "Wold", "bufptr", "buflen"):
            return True
        a = thaw(st.auto)
        if a["strm"] is not None:
            ss = set()
            walk_syms(a["strm"], ss)
            return sid in ss
        return False

    def remaining(self, a):
        """n0 - W of the current stream, as a value"""
        fd, p0, n0, started = a["strm"]
        l = lin(n0)
        if started:
            l = comb(l, ({("s", (W,)): 1}, 0), -1)
        return l

    def cmp(self, eng, ins, pred, x, y, st):
        a = thaw(st.auto)
        if a["strm"] is None or not a["strm"][3]:
            return None
        d = self._lin2(st, x, y, -1)
        if d is None:
            return None
        rem = self.remaining(a)
        neg = ({k: -c for k, c in rem[0].items()}, -rem[1])
        z = ("i", 0)
        R = mkaff(rem)
        if d == rem or d == neg:
            up = d == rem     # x - y == remaining >= 0
            if pred in ("eq", "ne"):
                return eng.mkcmp(st, pred, R, z)
            g = pred[1:]
            if not up:
                g = {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}[g]
            if g == "gt":
                return eng.mkcmp(st, "ne", R, z)
            if g == "le":
                return eng.mkcmp(st, "eq", R, z)
            if g == "ge":
                return ("i", 1)
            return ("i", 0)
        return None

    def complete(self, eng, st, a, buf):
        """every byte of buffer value buf has been handed to the stream"""
        if a["strm"] is None:
            return eng.decide(st, "eq", ("s", ("buflen", buf)), ("i", 0)) is True
        fd, p0, n0, started = a["strm"]
        if p0 != ("s", ("bufptr", buf)) or n0 != ("s", ("buflen", buf)):
            return False
        return eng.decide(st, "eq", mkaff(self.remaining(a)), ("i", 0)) is True

    # -- the automaton
    def call(self, eng, ins, name, args, st, ctx):
        if name is None:
            return None
        a = thaw(st.auto)
        m = getattr(self, "c_" + name, None)
        if name in ("exit", "_exit", "err", "errx", "execl", "execlp", "execv", "execvp"):
            self.leave(eng, ins, name, args, st, a)
        if m is not None:
            self.ev(name)
            return m(eng, ins, args, st, a)
        t = self.prog.resolve(ins.fn.tu, name)
        if t is not None and "noreturn" in str(ins.extra):
            # not followed any further
            for c in t.calls():
                if c.callee == ("g", "exit"):
                    self.leave(eng, c, "exit", [c.args[0]], st, a)
        return None

    def two(self, a_ok, a_bad, bad=("i", -1), ok=("i", 0), **kw):
        return [dict(ret=bad, auto=a_bad.freeze(), note=kw.get("badnote")),
                dict(ret=ok, auto=a_ok.freeze())]

    def c_getopt(self, eng, ins, args, st, a):
        # the letters themselves are dealt with by the options rule
        return [dict(ret=("i", -1)), dict(ret=("i", ord("c")), note="-c"),
                dict(ret=("i", ord("?")), auto=A(a, fail=True).freeze(), note="an unknown option")]

    def c_options_trace_parse(self, eng, ins, args, st, a):
        b = A(a, fail=True)
        return [dict(ret=("i", 0)), dict(ret=("i", 1), auto=b.freeze())]

    def c_style_parse(self, eng, ins, args, st, a):
        b = A(a, fail=True)
        return [dict(ret=("s", "self"), facts=[(("s", "self"), (None, None, frozenset([0])))]),
                dict(ret=("i", 0), auto=b.freeze(), note="style_parse fails")]

    def c_diff_parse(self, eng, ins, args, st, a):
        b = A(a, fail=True)
        return [dict(ret=("i", 0)),
                dict(ret=("s", "self"), auto=b.freeze(), note="diff_parse fails",
                     facts=[(("s", "self"), (None, None, frozenset([0])))])]

    # files
    def flags_ok(self, ins, v, st, what):
        self.res.obligations += 1
        # O_ACCMODE, O_CREAT, O_TRUNC, O_APPEND
        if v[0] != "i":
            self.bad("P01", "open-readonly", ins, st, "%s with flags that are not a constant" % what)
        elif v[1] & (3 | 0o100 | 0o1000 | 0o2000):
            self.bad("P01", "open-readonly", ins, st,
                     "%s opens a user file for writing (flags %#o)" % (what, v[1]))
        else:
            self.res.discharged += 1

    def c_open(self, eng, ins, args, st, a):
        self.flags_ok(ins, args[1], st, "open")
        self.boundary(eng, ins, st, a, "the next file")
        self.produced(eng, ins, st, a)
        self.next_file(eng, st, a)
        n = A(a, orig=(args[0], ("s", "self")))
        f = A(a, stage="X", fail=True)
        return [dict(ret=("i", -1), auto=f.freeze(), note="open fails"),
                dict(ret=("s", "self"), auto=n.freeze(),
                     facts=[(("s", "self"), (0, None, frozenset()))])]

    def endstream(self, eng, st, a):
        a["strm"] = None
        for sid in ((W,), ("Wold",)):
            eng.forget_facts(st, sid)
            for k in [k for k, v in st.env.items() if contains(v, sid)]:
                st.env[k] = ("s", ("junk", k))
            for k in [k for k, v in st.mem.items() if contains(v, sid)]:
                st.mem[k] = (("s", ("junk", k)), st.mem[k][1])

    def next_file(self, eng, st, a):
        self.endstream(eng, st, a)
        for k in list(st.facts):
            syms = set()
            walk_syms(k, syms)
            if any(self.keep(x) for x in syms):
                del st.facts[k]
        if a["werr"] is not None:
            a["fail"] = True
        a.update(stage=0, cmp=None, done=False, strm=None, werr=None, orig=None, attrs=(),
                 src=None, dst=None, devfd=(),
                 tmp=tuple(t for t in a["tmp"] if t[3] == "linked"))

    def c_buffer_read_fd_impl(self, eng, ins, args, st, a):
        self.res.obligations += 1
        if a["orig"] is None or args[1] != a["orig"][1]:
            self.bad("P04", "read-own-file", ins, st, "reads a descriptor other than the one just opened")
        else:
            self.res.discharged += 1
        self.clean(ins, st, a, args[0], "the file is read into a buffer")
        n = A(a, stage=1, src=args[0])
        f = A(a, stage="X", fail=True)
        return [dict(ret=("i", 0), auto=n.freeze(), havoc=False),
                dict(ret=("i", 1), auto=f.freeze(), note="read fails", havoc=False)]

    def c_lexer_tokenize(self, eng, ins, args, st, a):
        # .bf of the argument struct must be the buffer the file was read to
        n = A(a, stage=2 if a["stage"] == 1 else a["stage"])
        f = A(a, stage="X", fail=True)
        return [dict(ret=("s", "self"), auto=n.freeze(),
                     facts=[(("s", "self"), (None, None, frozenset([0])))]),
                dict(ret=("i", 0), auto=f.freeze(), note="lexer_tokenize fails")]

    def clean(self, ins, st, a, buf, what):
        self.res.obligations += 1
        if buf in a["dirty"]:
            self.bad("P04", "stale-buffer", ins, st, "%s that still holds bytes of an earlier file" % what)
        else:
            self.res.discharged += 1
        a["dirty"] = tuple(sorted(set(a["dirty"]) | {buf}, key=repr))

    def c_parser_exec(self, eng, ins, args, st, a):
        self.clean(ins, st, a, args[2], "the output is produced into a buffer")
        n = A(a, stage=3 if a["stage"] == 2 else a["stage"], dst=args[2])
        f = A(a, stage="X", fail=True, dst=args[2])
        return [dict(ret=("i", 0), auto=n.freeze()),
                dict(ret=("s", "self"), auto=f.freeze(), note="parser_exec fails",
                     facts=[(("s", "self"), (None, None, frozenset([0])))])]

    def c_buffer_cmp(self, eng, ins, args, st, a):
        if {args[0], args[1]} != {a["src"], a["dst"]} or a["src"] is None:
            return None
        return [dict(ret=("i", 0), auto=A(a, cmp="eq").freeze(), havoc=False),
                dict(ret=("s", "self"), auto=A(a, cmp="ne").freeze(), havoc=False,
                     facts=[(("s", "self"), (None, None, frozenset([0])))])]

    def c_buffer_get_ptr(self, eng, ins, args, st, a):
        return [dict(ret=("s", ("bufptr", args[0])), havoc=False)]

    def c_buffer_get_len(self, eng, ins, args, st, a):
        return [dict(ret=("s", ("buflen", args[0])), havoc=False)]

    def c_buffer_reset(self, eng, ins, args, st, a):
        # between files: the contents of the buffers are gone
        if args[0] in (a["src"], a["dst"]):
            self.produced(eng, ins, st, a)
        a["dirty"] = tuple(b for b in a["dirty"] if b != args[0])
        if not a["dirty"]:
            self.next_file(eng, st, a)
        elif args[0] in (a["src"], a["dst"]):
            a["stage"] = 0
        return [dict(auto=a.freeze(), havoc=False)]

    def c_snprintf(self, eng, ins, args, st, a):
        f = self.cstr(eng, st, ins, args[2])
        n = A(a)
        loc = eng.loc(args[0])
        if f == "/dev/fd/%d" and loc is not None:
            n["devfd"] = tuple(sorted([x for x in a["devfd"] if x[0] != loc] +
                                      [(loc, args[3])], key=repr))
        return [dict(ret=("s", "self"), auto=n.freeze(), facts=[(("s", "self"), (0, 64, frozenset()))])]

    def cstr(self, eng, st, ins, v):
        if v[0] == "p" and v[1][0] == "G" and v[2] == 0:
            return self.prog.gstr(ins.fn.tu, ("g", v[1][2]))
        return None

    def c_execl(self, eng, ins, args, st, a):
        self.res.obligations += 2
        s = [self.cstr(eng, st, ins, x) for x in args]
        if not a["child"]:
            self.bad("P09", "exec", ins, st, "replaces the process itself instead of a forked child")
        if s[0] is None or s[0].split("/")[-1] != "diff" or not s[0].startswith("/"):
            self.bad("P09", "exec", ins, st, "executes something other than diff by its absolute path")
        names = dict(a["devfd"])
        paths = [names[eng.loc(x)] for x in args if eng.loc(x) in names]
        cont = []
        for fd in paths:
            t = self.tmp_by_fd(a, fd)
            cont.append(t[4] if t is not None and t[2] == "open" else None)
        if cont != [a["src"], a["dst"]]:
            self.bad("P07", "diff-operands", ins, st,
                     "diff is not run on the complete input and the complete output, in that order")
        return [dict(ret=("i", -1))]

    def c_tmptemplate(self, eng, ins, args, st, a):
        return [dict(ret=("s", ("tmpl", args[0])), havoc=False,
                     facts=[(("s", ("tmpl", args[0])), (None, None, frozenset([0])))])]

    def c_umask(self, eng, ins, args, st, a):
        return None

    def parsed(self, eng, ins, st, a, what):
        self.res.obligations += 1
        if a["stage"] != 3:
            self.bad("P04", "output-after-failure", ins, st,
                     "%s although the current file was not read, tokenized and parsed successfully" % what)
        else:
            self.res.discharged += 1

    def c_mkstemp(self, eng, ins, args, st, a):
        self.parsed(eng, ins, st, a, "creates a temporary file")
        self.res.obligations += 1
        if a["cmp"] != "ne":
            self.bad("P06", "touch-unchanged", ins, st,
                     "creates a temporary file without having established that input and output differ")
        else:
            self.res.discharged += 1
        fl = A(a, fail=True)
        # a second temporary file while one is pending: keep a list
        self.fold(eng, st, a)
        ok = A(a, tmp=a["tmp"] + ((("s", "self"), args[0], "open", "linked", None),), attrs=())
        return [dict(ret=("i", -1), auto=fl.freeze(), note="mkstemp fails", havoc=False),
                dict(ret=("s", "self"), auto=ok.freeze(), havoc=False,
                     facts=[(("s", "self"), (0, None, frozenset()))])]

    def fold(self, eng, st, a):
        """remember which buffer a finished stream holds completely"""
        new = []
        for t in a["tmp"]:
            c = t[4]
            if c is None:
                for b in (a["src"], a["dst"]):
                    if b is None:
                        continue
                    if a["strm"] is not None and a["strm"][0] != t[0]:
                        continue
                    if a["werr"] is None and self.complete(eng, st, a, b):
                        c = b
            new.append(t[:4] + (c,))
        a["tmp"] = tuple(new)
        self.endstream(eng, st, a)

    def tmp_by_fd(self, a, fd):
        for t in a["tmp"]:
            if t[0] == fd:
                return t
        return None

    def tmp_by_path(self, a, p):
        for t in a["tmp"]:
            if t[1] == p:
                return t
        return None

    def set_tmp(self, a, t, n):
        a["tmp"] = tuple(n if x == t else x for x in a["tmp"]
                         if not (x == t and n[2] == "closed" and n[3] != "linked"))
        return a

    def c_write(self, eng, ins, args, st, a):
        fd, p, n = args
        t = self.tmp_by_fd(a, fd)
        self.res.obligations += 3
        if fd == ("i", 1):
            self.mode(eng, ins, st, {"inplace": False, "diff": False}, "writes the output to standard output")
            self.parsed(eng, ins, st, a, "writes to standard output")
            self.res.obligations -= 1
        elif t is None or t[2] != "open":
            self.bad("P01", "write-target", ins, st,
                     "writes to a descriptor that is neither standard output nor an open temporary file")
        s = a["strm"]
        if s is not None and s[0] != fd:
            s = None
        if s is None:
            s = (fd, p, n, False)
        else:
            fd0, p0, n0, started = s
            wv = ({("s", (W,)): 1}, 0) if started else ({}, 0)
            lp, ln = lin(p), lin(n)
            if lp is None or lp != comb(lin(p0), wv, 1):
                self.bad("P07", "write-resume", ins, st,
                         "a following write does not start right after the bytes already written")
            elif ln is None or ln != comb(lin(n0), wv, -1):
                self.bad("P07", "write-resume", ins, st,
                         "a following write does not cover exactly the bytes still unwritten")
            else:
                self.res.discharged += 1
        self.res.discharged += 2
        b = A(a, werr=fd, strm=s)
        g = A(a, werr=None, strm=(s[0], s[1], s[2], True))
        out = [dict(ret=("i", -1), auto=b.freeze(), note="write fails", havoc=False)]
        wsym = ("s", (W,))
        if not s[3]:
            out.append(dict(ret=wsym, auto=g.freeze(), havoc=False, note="write writes W bytes",
                            facts=[(wsym, (0, None, frozenset()))]))
        else:
            # advance the ghost counter: W becomes Wold, result is W - Wold
            out[0]["base"] = st.copy()
            eng.forget_facts(st, ("Wold",))
            for k in [k for k, v in st.env.items() if contains(v, ("Wold",))]:
                st.env[k] = ("s", ("junk", k))
            for k in [k for k, v in st.mem.items() if contains(v, ("Wold",))]:
                st.mem[k] = (("s", ("junk", k)), st.mem[k][1])
            eng.forget_facts(st, (W,))
            eng.rename(st, (W,), ("Wold",))
            g = subst(g.freeze(), (W,), ("Wold",))
            nw = mkaff(({wsym: 1, ("s", ("Wold",)): -1}, 0))
            out.append(dict(ret=nw, auto=g, havoc=False, note="write writes some more bytes",
                            facts=[(nw, (0, None, frozenset()))]))
        return out

    def c_lseek(self, eng, ins, args, st, a):
        self.fold(eng, st, a)
        return [dict(ret=("i", 0), auto=a.freeze()),
                dict(ret=("i", -1), auto=A(a, fail=True).freeze())]

    def c_fstat(self, eng, ins, args, st, a):
        loc = eng.loc(args[1])
        f = A(a, fail=True)
        raw = [((loc[0], "*"), (("gen", ("stat", args[0])), None))] if loc else []
        if loc:
            for k in [k for k in st.mem if k[0] == loc[0]]:
                del st.mem[k]
        return [dict(ret=("i", -1), auto=f.freeze(), note="fstat fails", havoc=False),
                dict(ret=("i", 0), rawmem=raw, havoc=False)]

    def statv(self, fd, field):
        return ("s", ("g", ("stat", fd), self.stat_off[field]))

    def c_fchmod(self, eng, ins, args, st, a):
        t = self.tmp_by_fd(a, args[0])
        self.res.obligations += 1
        ok = A(a)
        if t is None:
            self.bad("P03", "attr-target", ins, st, "changes the mode of something other than the temporary file")
        elif a["orig"] is not None and args[1] == self.statv(a["orig"][1], "st_mode"):
            ok["attrs"] = tuple(sorted(set(a["attrs"]) | {"mode"}))
            self.res.discharged += 1
        else:
            self.bad("P03", "attr-value", ins, st, "sets a mode that is not the mode of the original file")
        return [dict(ret=("i", -1), auto=A(a, fail=True).freeze(), note="fchmod fails"),
                dict(ret=("i", 0), auto=ok.freeze())]

    def c_fchown(self, eng, ins, args, st, a):
        t = self.tmp_by_fd(a, args[0])
        self.res.obligations += 1
        ok = A(a)
        if t is None:
            self.bad("P03", "attr-target", ins, st, "changes the owner of something other than the temporary file")
        elif a["orig"] is not None and \
                args[1] == self.statv(a["orig"][1], "st_uid") and \
                args[2] == self.statv(a["orig"][1], "st_gid"):
            # changing the owner may clear set-id bits: a mode set earlier is lost
            ok["attrs"] = tuple(sorted((set(a["attrs"]) - {"mode"}) | {"uid", "gid"} |
                                       ({"modelost"} if "mode" in a["attrs"] else set())))
            self.res.discharged += 1
        else:
            self.bad("P03", "attr-value", ins, st, "sets an owner or group that is not the original file's")
        return [dict(ret=("i", -1), auto=A(a, fail=True).freeze(), note="fchown fails"),
                dict(ret=("i", 0), auto=ok.freeze())]

    def attr_done(self, eng, st, a, t, what):
        f = {"mode": "st_mode", "uid": "st_uid", "gid": "st_gid"}[what]
        if what in a["attrs"]:
            return True
        if what == "mode" and "modelost" in a["attrs"]:
            return False
        x = self.statv(t[0], f)
        y = self.statv(a["orig"][1], f)
        return eng.decide(st, "eq", x, y) is True or eng.decide(st, "eq", y, x) is True

    def c_rename(self, eng, ins, args, st, a):
        src, dst = args
        t = self.tmp_by_path(a, src)
        self.res.obligations += 6
        if t is None or t[3] != "linked":
            self.bad("P01", "rename-source", ins, st, "renames something that is not the temporary file just created")
        else:
            self.res.discharged += 1
            if a["orig"] is None or dst != a["orig"][0]:
                self.bad("P01", "rename-target", ins, st, "renames onto a path that is not the path of the file being edited")
            else:
                self.res.discharged += 1
            self.res.obligations += 1
            if src != ("s", ("tmpl", dst)):
                self.bad("P01", "rename-directory", ins, st,
                         "the temporary file was not created from a template naming the directory of the file being edited")
            else:
                self.res.discharged += 1
            self.fold(eng, st, a)
            t = self.tmp_by_path(a, src)
            if a["dst"] is None or t[4] != a["dst"]:
                self.bad("P01", "rename-incomplete", ins, st,
                         "the original is replaced before every byte of the formatted output was written to the temporary file")
                self.bad("P07", "rename-incomplete", ins, st,
                         "the original is replaced before every byte of the formatted output was written to the temporary file")
            elif a["werr"] is not None:
                self.bad("P01", "rename-incomplete", ins, st, "the original is replaced after a failed write")
            else:
                self.res.discharged += 1
            if a["orig"] is not None:
                for w in ("mode", "uid", "gid"):
                    if not self.attr_done(eng, st, a, t, w):
                        self.bad("P03", "attr-missing", ins, st,
                                 "the original is replaced by a file whose %s was not made equal to the original's" % w)
                    else:
                        self.res.discharged += 1
        self.parsed(eng, ins, st, a, "replaces the file")
        self.mode(eng, ins, st, {"inplace": True, "diff": False}, "replaces the file")
        if a["cmp"] != "ne":
            self.bad("P06", "touch-unchanged", ins, st, "replaces the file without having established that input and output differ")
        b = A(a, fail=True)
        g = A(a, done=True)
        if t is not None:
            self.set_tmp(g, t, t[:3] + ("renamed", t[4]))
        return [dict(ret=("i", -1), auto=b.freeze(), note="rename fails", havoc=False),
                dict(ret=("i", 0), auto=g.freeze(), havoc=False)]

    def c_unlink(self, eng, ins, args, st, a):
        t = self.tmp_by_path(a, args[0])
        self.res.obligations += 1
        g = A(a)
        if t is None:
            self.bad("P01", "unlink-target", ins, st, "removes a file that is not a temporary file knfmt created")
        elif t[3] == "renamed":
            self.bad("P02", "unlink-target", ins, st, "removes the temporary path after it was renamed")
        else:
            self.res.discharged += 1
            self.set_tmp(g, t, t[:3] + ("unlinked", t[4]))
        return [dict(ret=("i", -1), auto=A(g, fail=True).freeze(), havoc=False),
                dict(ret=("i", 0), auto=g.freeze(), havoc=False)]

    def c_close(self, eng, ins, args, st, a):
        t = self.tmp_by_fd(a, args[0])
        if a["orig"] is not None and args[0] == a["orig"][1] and \
           (a["stage"] == "X" or a["werr"] is not None or self.delivered(eng, st, a)):
            # done with this file
            self.produced(eng, ins, st, a)
            self.next_file(eng, st, a)
        g = A(a)
        if t is not None:
            if t[3] == "linked":
                self.set_tmp(g, t, t[:2] + ("closed",) + t[3:])
            else:
                g["tmp"] = tuple(x for x in g["tmp"] if x != t)
                if g["strm"] is not None and g["strm"][0] == t[0]:
                    self.endstream(eng, st, g)
        out = [dict(ret=("i", 0), auto=g.freeze())]
        if ins.res and any(("l", ins.res) in i.args for i in ins.fn.instrs()):
            out.append(dict(ret=("i", -1), auto=g.freeze(), note="close fails"))
        return out

    def c_fork(self, eng, ins, args, st, a):
        self.parsed(eng, ins, st, a, "spawns diff")
        self.mode(eng, ins, st, {"diff": True}, "spawns diff")
        self.res.obligations += 1
        if a["cmp"] != "ne":
            self.bad("P06", "touch-unchanged", ins, st, "spawns diff without having established that input and output differ")
        else:
            self.res.discharged += 1
        self.fold(eng, st, a)
        for what, b in (("input", a["src"]), ("output", a["dst"])):
            self.res.obligations += 1
            if b is None or not any(t[2] == "open" and t[4] == b for t in a["tmp"]):
                self.bad("P07", "diff-incomplete", ins, st,
                         "diff is spawned before every byte of the %s was written to a temporary file" % what)
            else:
                self.res.discharged += 1
        return [dict(ret=("i", -1), auto=A(a, fail=True).freeze(), note="fork fails"),
                dict(ret=("i", 0), auto=A(a, child=True, fail=True).freeze(), note="child"),
                dict(ret=("s", "self"), auto=A(a, fail=True).freeze(),
                     facts=[(("s", "self"), (1, None, frozenset()))])]

    def c_waitpid(self, eng, ins, args, st, a):
        return [dict(ret=("i", -1), auto=A(a, fail=True).freeze()),
                dict(ret=("s", "self"), facts=[(("s", "self"), (1, None, frozenset()))])]

    def refuse(self, name):
        def f(eng, ins, args, st, a):
            self.bad("P01", "forbidden-call", ins, st, "calls %s, which can alter files other than atomically" % name)
            return None
        return f

    # leaving a file / the program
    def boundary(self, eng, ins, st, a, where):
        for t in a["tmp"]:
            self.res.obligations += 1
            if t[3] == "linked":
                self.bad("P02", "temp-left", ins, st,
                         "reaches %s while the temporary file still exists" % where)
            else:
                self.res.discharged += 1

    def leave(self, eng, ins, name, args, st, a):
        if name.startswith("exec"):
            return
        if name in ("err", "errx", "exit"):
            if not a["child"]:
                self.boundary(eng, ins, st, a, name)
            self.res.obligations += 1
            if args[0] == ("i", 0) or args[0][0] != "i":
                if name != "exit" or a["fail"]:
                    self.bad("P05", "exit-status", ins, st, "terminates with status 0 by calling %s" % name)
                    return
            self.res.discharged += 1


def ret_rule(prog, io, eng, outs, res):
    """obligations on the paths that return from main"""
    fn = prog.need("main")
    rets = [i for i in fn.instrs() if i.op == "ret"]
    for rv, q in outs:
        a = thaw(q.auto)
        ins = rets[0]
        io.boundary(eng, ins, q, a, "the end of main")
        io.produced(eng, ins, q, a)
        res.obligations += 1
        v = rv
        if a["child"]:
            io.bad("P05", "child-returns", ins, q, "the forked child returns from main")
            continue
        z = eng.decide(q, "eq", v, ("i", 0)) if v[0] != "i" else v[1] == 0
        failed = a["fail"] or a["werr"] is not None
        if failed and z is not False:
            io.bad("P05", "exit-status", ins, q,
                   "exits with status 0 although a file could not be processed (or differs in diff mode)")
        elif not failed and z is not True:
            io.bad("P05", "exit-status", ins, q, "exits with a failure status although nothing failed")
        elif not failed and a["stage"] == 3:
            res.discharged += 1
        else:
            res.discharged += 1


def success_rules(prog, io, eng, res):
    pass


def run(prog, res):
    io = IO(prog, res)
    for n in ("creat", "truncate", "ftruncate", "fopen", "freopen", "link", "symlink",
              "renameat", "unlinkat", "remove", "chmod", "chown", "lchown",
              "pwrite", "writev", "openat64", "system", "popen", "sendfile",
              "copy_file_range", "renameat2", "fchmodat", "fchownat"):
        setattr(io, "c_" + n, io.refuse(n))
    eng = Engine(prog, io)
    fn = prog.need("main")
    outs = eng.run(fn, [("s", ("arg", n)) for n, _ in fn.params],
                   State({}, {}, {}, INIT))
    ret_rule(prog, io, eng, outs, res)
    for k, v in io.n.items():
        res.cov["events_" + k] = v
    res.cov["states"] = eng.nstates
    res.cov["functions_followed"] = len(eng.visited_fns)
    res.cov["main_outcomes"] = len(outs)
    res.samples = sorted(f.name for f in eng.visited_fns)
    return io, eng, outs
