"""Front end: compile /repo's current sources to LLVM IR and parse it.

Every analysis in /verif works on this representation.  The sources are never
executed: clang only lowers them (-O0, then sroa so that locals whose address
is not taken become SSA values).
"""
import concurrent.futures
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
FALLBACK_INC = os.path.join(HERE, "include")


class AnalysisError(Exception):
    """The check cannot give an answer (e.g. sources do not compile)."""


# --------------------------------------------------------------- source list

def source_list():
    """The C sources that make up the knfmt program, from the Makefile."""
    mk = os.path.join(REPO, "Makefile")
    names = []
    with open(mk) as f:
        for line in f:
            m = re.match(r"SRCS(?:_knfmt)?\+=\s*(\S+\.c)\s*$", line)
            if m:
                names.append(m.group(1))
    out = []
    for n in names:
        for d in ("", "libks"):
            p = os.path.join(REPO, d, n)
            if os.path.exists(p):
                out.append(p)
                break
        else:
            raise AnalysisError("source %s listed in Makefile not found" % n)
    if not any(os.path.basename(p) == "knfmt.c" for p in out):
        raise AnalysisError("knfmt.c not among the sources")
    return out


def compile_all(extra=(), flags=()):
    """Return {path: ll text}."""
    paths = source_list() + list(extra)
    tmp = tempfile.mkdtemp(prefix="knfmt-ir.")
    try:
        def one(p):
            b = os.path.join(tmp, os.path.relpath(p, REPO).replace("/", "_"))
            cmd = ["clang", "-I" + REPO, "-I" + FALLBACK_INC, "-g", "-O0",
                   "-Xclang", "-disable-O0-optnone",
                   "-fno-discard-value-names", "-w", "-S", "-emit-llvm",
                   "-o", b + ".ll", p] + list(flags)
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise AnalysisError("clang failed on %s:\n%s" % (p, r.stderr[-2000:]))
            r = subprocess.run(["opt", "-S", "-passes=sroa", b + ".ll", "-o",
                                b + ".s.ll"], capture_output=True, text=True)
            if r.returncode != 0:
                raise AnalysisError("opt failed on %s:\n%s" % (p, r.stderr[-2000:]))
            with open(b + ".s.ll", encoding="latin-1") as f:
                return p, f.read()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, paths))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------- values

class Instr:
    __slots__ = ("op", "res", "ty", "args", "extra", "dbg", "fn", "bb", "idx",
                 "callee")

    def __repr__(self):
        return "<%s %s %s>" % (self.res, self.op, self.args)

    @property
    def loc(self):
        return self.fn.tu.loc(self.dbg)

    @property
    def where(self):
        l = self.loc
        return "%s:%s" % (self.fn.tu.short, l if l else "?")


class Block:
    __slots__ = ("name", "instrs", "fn", "succs", "preds")

    def __repr__(self):
        return "<bb %s>" % self.name


class Function:
    def __init__(self, tu, name):
        self.tu = tu
        self.name = name
        self.params = []
        self.blocks = {}
        self.order = []
        self.internal = False
        self.dbg = None
        self.varargs = False
        self.allocas = {}
        self.retty = None
        self.attrs = ""

    def __repr__(self):
        return "<fn %s>" % self.name

    @property
    def entry(self):
        return self.blocks[self.order[0]]

    def instrs(self):
        for b in self.order:
            for i in self.blocks[b].instrs:
                yield i

    def calls(self):
        for i in self.instrs():
            if i.op == "call":
                yield i

    @property
    def line(self):
        return self.tu.subprogram_line(self.dbg)


_ws = re.compile(r"\s*")
_ident = re.compile(r'[%@](?:"((?:[^"\\]|\\.)*)"|([-a-zA-Z$._0-9]+))')
_int = re.compile(r"-?\d+")
_attrs = re.compile(
    r"(?:noundef|nonnull|nocapture|readonly|readnone|writeonly|signext|zeroext|"
    r"noalias|returned|dead_on_unwind|writable|inreg|immarg|nofree|align \d+|"
    r"dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|"
    r"(?:byval|sret|elementtype|byref|inalloca|preallocated)\()\s*")


class P:
    """Recursive descent parser over one line."""

    def __init__(self, s, i=0):
        self.s = s
        self.i = i

    def ws(self):
        self.i = _ws.match(self.s, self.i).end()

    def at(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def take(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def need(self, t):
        if not self.take(t):
            raise AnalysisError("IR parse: expected %r at %r" % (t, self.s[self.i:self.i + 80]))

    def word(self):
        self.ws()
        m = re.compile(r"[a-zA-Z_][\w.]*").match(self.s, self.i)
        if not m:
            return None
        self.i = m.end()
        return m.group(0)

    def peekword(self):
        self.ws()
        m = re.compile(r"[a-zA-Z_][\w.]*").match(self.s, self.i)
        return m.group(0) if m else None

    def ty(self):
        self.ws()
        s, i = self.s, self.i
        c = s[i]
        if c == "%":
            m = _ident.match(s, i)
            self.i = m.end()
            t = "%" + (m.group(1) or m.group(2))
        elif c == "[":
            self.i += 1
            self.ws()
            m = _int.match(s, self.i)
            n = int(m.group(0))
            self.i = m.end()
            self.need("x")
            e = self.ty()
            self.need("]")
            t = ("arr", n, e)
        elif c == "{" or s.startswith("<{", i):
            packed = c == "<"
            self.i += 2 if packed else 1
            el = []
            if not self.at("}"):
                while True:
                    el.append(self.ty())
                    if not self.take(","):
                        break
            self.need("}>" if packed else "}")
            t = ("st", tuple(el))
        elif c == "<":
            self.i += 1
            m = _int.match(s, self.i)
            n = int(m.group(0))
            self.i = m.end()
            self.need("x")
            e = self.ty()
            self.need(">")
            t = ("vec", n, e)
        else:
            w = self.word()
            if w is None:
                raise AnalysisError("IR parse: type at %r" % s[i:i + 80])
            t = w
        # function type (varargs calls)
        self.ws()
        if self.i < len(self.s) and self.s[self.i] == "(" and t != "metadata":
            # only in call position
            depth = 0
            j = self.i
            while True:
                if s[j] == "(":
                    depth += 1
                elif s[j] == ")":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            self.i = j + 1
            t = ("fnty", t)
        return t

    def skip_attrs(self):
        while True:
            self.ws()
            m = _attrs.match(self.s, self.i)
            if not m:
                return
            if m.group(0).rstrip().endswith("("):
                # type argument
                depth = 1
                j = m.end()
                while depth:
                    if self.s[j] == "(":
                        depth += 1
                    elif self.s[j] == ")":
                        depth -= 1
                    j += 1
                self.i = j
            else:
                self.i = m.end()

    def val(self, ty=None):
        self.ws()
        s, i = self.s, self.i
        c = s[i]
        if c == "%":
            m = _ident.match(s, i)
            self.i = m.end()
            return ("l", m.group(1) or m.group(2))
        if c == "@":
            m = _ident.match(s, i)
            self.i = m.end()
            return ("g", m.group(1) or m.group(2))
        if c == "-" or c.isdigit():
            m = re.compile(r"-?\d+(\.\d+(e[+-]?\d+)?)?|0x[0-9A-Fa-f]+").match(s, i)
            t = m.group(0)
            if s.startswith("0x", i):
                m = re.compile(r"0x[KMLHR]?[0-9A-Fa-f]+").match(s, i)
                self.i = m.end()
                return ("f", m.group(0))
            self.i = m.end()
            if "." in t:
                return ("f", t)
            return ("i", int(t))
        if c == "c" and s.startswith('c"', i):
            j = i + 2
            out = bytearray()
            while s[j] != '"':
                if s[j] == "\\":
                    if s[j + 1] == "\\":
                        out.append(ord("\\"))
                        j += 2
                    else:
                        out.append(int(s[j + 1:j + 3], 16))
                        j += 3
                else:
                    out.append(ord(s[j]))
                    j += 1
            self.i = j + 1
            return ("str", bytes(out))
        if c in "[{" or s.startswith("<{", i):
            close = {"[": "]", "{": "}"}.get(c, "}>")
            self.i += 2 if c == "<" else 1
            el = []
            if not self.at(close):
                while True:
                    t = self.ty()
                    el.append((t, self.val(t)))
                    if not self.take(","):
                        break
            self.need(close)
            return ("agg", el)
        w = self.word()
        if w == "null":
            return ("null",)
        if w in ("undef", "poison"):
            return ("undef",)
        if w == "true":
            return ("i", 1)
        if w == "false":
            return ("i", 0)
        if w == "zeroinitializer":
            return ("zero",)
        if w == "none":
            return ("undef",)
        if w == "getelementptr":
            self.take("inbounds")
            self.need("(")
            t = self.ty()
            idx = []
            base = None
            while self.take(","):
                self.take("inrange")
                vt = self.ty()
                v = self.val(vt)
                if base is None:
                    base = v
                else:
                    idx.append(v)
            self.need(")")
            return ("cgep", t, base, idx)
        if w in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.need("(")
            t = self.ty()
            v = self.val(t)
            self.need("to")
            self.ty()
            self.need(")")
            return ("cast", w, v)
        if w in ("sub", "add", "mul", "xor", "and", "or", "icmp"):
            # constant expression, opaque
            depth = 0
            j = self.s.index("(", self.i)
            k = j
            while True:
                if s[k] == "(":
                    depth += 1
                elif s[k] == ")":
                    depth -= 1
                    if depth == 0:
                        break
                k += 1
            self.i = k + 1
            return ("cexpr", w, s[j:k + 1])
        if w == "asm":
            m = re.compile(r'(\s*(?:sideeffect|alignstack|inteldialect)*\s*"(?:[^"\\]|\\.)*"\s*,\s*"(?:[^"\\]|\\.)*")').match(s, self.i)
            self.i = m.end()
            return ("asm", m.group(1))
        if w == "metadata":
            return ("md",)
        raise AnalysisError("IR parse: value at %r (%r)" % (s[i:i + 80], w))


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or",
          "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp",
         "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"}

_re_res = re.compile(r'\s+(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = ')
_re_dbg = re.compile(r", !dbg !(\d+)")


class TU:
    def __init__(self, path, text):
        self.path = path
        self.short = os.path.relpath(path, REPO)
        self.types = {}
        self.globals = {}       # name -> (type, value, linkage, dbg)
        self.functions = {}
        self.decls = {}         # name -> attrs text
        self.attrgroups = {}
        self.md = {}
        self._loc = {}
        self._parse(text)

    # ---- metadata
    def loc(self, d):
        if d is None:
            return None
        if d not in self._loc:
            m = re.search(r"line: (\d+)", self.md.get(d, ""))
            self._loc[d] = int(m.group(1)) if m else None
        return self._loc[d]

    def subprogram_line(self, d):
        if d is None:
            return None
        m = re.search(r"line: (\d+)", self.md.get(d, ""))
        return int(m.group(1)) if m else None

    def mdget(self, i, key):
        t = self.md.get(i, "")
        m = re.search(r"\b%s: (!(\d+)|\"([^\"]*)\"|[\w|:]+)" % key, t)
        if not m:
            return None
        if m.group(2) is not None:
            return int(m.group(2))
        if m.group(3) is not None:
            return m.group(3)
        return m.group(1)

    # ---- parse
    def _parse(self, text):
        lines = text.split("\n")
        n = len(lines)
        i = 0
        pend = []
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            c = l[0]
            if c == "%":
                m = re.match(r'%("?)([-\w.$]+)\1 = type (.*)$', l)
                if m and m.group(3) != "opaque":
                    self.types["%" + m.group(2)] = P(m.group(3)).ty()
            elif c == "@":
                self._global(l)
            elif c == "!":
                m = re.match(r"!(\d+) = (.*)$", l)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            elif l.startswith("attributes #"):
                m = re.match(r"attributes #(\d+) = \{(.*)\}", l)
                self.attrgroups[int(m.group(1))] = m.group(2)
            elif l.startswith("declare "):
                m = _ident.search(l, 8)
                g = re.search(r"#(\d+)", l)
                self.decls[m.group(1) or m.group(2)] = int(g.group(1)) if g else None
            elif l.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                pend.append((l, lines[i + 1:j]))
                i = j
            i += 1
        for head, body in pend:
            self._function(head, body)

    def _global(self, l):
        m = _ident.match(l)
        name = m.group(1) or m.group(2)
        rest = l[m.end():]
        m = re.match(r" = (.*?)\b(global|constant)\s+", rest)
        if not m:
            return
        link = m.group(1)
        p = P(rest, m.end())
        t = p.ty()
        v = None
        if "external" not in link.split():
            v = p.val(t)
        d = _re_dbg.search(rest)
        self.globals[name] = (t, v, link, int(d.group(1)) if d else None)

    def _function(self, head, body):
        m = re.search(r"@([-\w.$]+)\(", head)
        f = Function(self, m.group(1))
        pre = head[:m.start()]
        f.internal = " internal " in pre
        f.retty = pre.split()[-1]
        p = P(head, m.end())
        k = 0
        while not p.at(")"):
            if p.take("..."):
                f.varargs = True
                continue
            t = p.ty()
            p.skip_attrs()
            p.ws()
            mm = _ident.match(head, p.i)
            if mm:
                p.i = mm.end()
                nm = mm.group(1) or mm.group(2)
            else:
                nm = str(k)
            f.params.append((nm, t))
            k += 1
            p.take(",")
        d = re.search(r"!dbg !(\d+) \{$", head)
        f.dbg = int(d.group(1)) if d else None
        g = re.search(r"#(\d+)", head[p.i:])
        f.attrs = self.attrgroups.get(int(g.group(1)), "") if g else ""
        cur = None
        j = 0
        while j < len(body):
            l = body[j]
            j += 1
            if not l:
                continue
            if l[0] != " ":
                m = re.match(r'(?:"((?:[^"\\]|\\.)*)"|([-\w.$]+)):', l)
                if m:
                    cur = Block()
                    cur.name = m.group(1) or m.group(2)
                    cur.instrs = []
                    cur.fn = f
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block()
                cur.name = "0entry"
                cur.instrs = []
                cur.fn = f
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            if "@llvm.dbg." in l:
                self._dbgcall(f, l)
                continue
            if l.startswith("  switch") and "]" not in l:
                while "]" not in body[j]:
                    l += " " + body[j]
                    j += 1
                l += " " + body[j]
                j += 1
            ins = self._instr(f, cur, l)
            if ins is not None:
                ins.fn = f
                ins.bb = cur
                ins.idx = len(cur.instrs)
                cur.instrs.append(ins)
                if ins.op == "alloca":
                    f.allocas[ins.res] = ins
        # cfg
        for b in f.blocks.values():
            b.succs = []
            b.preds = []
        for b in f.blocks.values():
            t = b.instrs[-1]
            if t.op == "br":
                b.succs = list(t.extra)
            elif t.op == "switch":
                b.succs = [t.extra[0]] + [x for _, x in t.extra[1]]
        for b in f.blocks.values():
            for s in b.succs:
                if b.name not in f.blocks[s].preds:
                    f.blocks[s].preds.append(b.name)
        # drop unreachable blocks
        seen = set()
        st = [f.order[0]]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += f.blocks[x].succs
        f.order = [x for x in f.order if x in seen]
        f.blocks = {x: f.blocks[x] for x in f.order}
        for b in f.blocks.values():
            b.preds = [x for x in b.preds if x in seen]
        self.functions[f.name] = f

    def _dbgcall(self, f, l):
        pass

    def _instr(self, f, bb, l):
        ins = Instr()
        ins.res = None
        ins.args = []
        ins.extra = None
        ins.ty = None
        ins.callee = None
        d = _re_dbg.search(l)
        ins.dbg = int(d.group(1)) if d else None
        m = _re_res.match(l)
        i = 0
        if m:
            r = m.group(1)[1:]
            ins.res = r[1:-1] if r[0] == '"' else r
            i = m.end()
        p = P(l, i)
        op = p.word()
        if op in ("tail", "musttail", "notail"):
            op = p.word()
        ins.op = op
        if op == "load":
            p.take("volatile")
            ins.ty = p.ty()
            p.need(",")
            t = p.ty()
            ins.args = [p.val(t)]
        elif op == "store":
            p.take("volatile")
            t = p.ty()
            v = p.val(t)
            p.need(",")
            t2 = p.ty()
            ins.ty = t
            ins.args = [v, p.val(t2)]
        elif op == "getelementptr":
            p.take("inbounds")
            ins.ty = p.ty()
            p.need(",")
            t = p.ty()
            ins.args = [p.val(t)]
            idx = []
            while p.take(","):
                if p.at("!"):
                    break
                t = p.ty()
                idx.append(p.val(t))
            ins.extra = idx
        elif op == "call":
            # fast-math / cc / ret attrs
            p.skip_attrs()
            while p.peekword() in ("fastcc", "nnan"):
                p.word()
            ins.ty = p.ty()
            if isinstance(ins.ty, tuple) and ins.ty[0] == "fnty":
                ins.ty = ins.ty[1]
            callee = p.val("ptr")
            ins.callee = callee
            p.need("(")
            a = []
            if not p.at(")"):
                while True:
                    t = p.ty()
                    if t == "metadata":
                        # skip
                        depth = 0
                        while p.s[p.i] not in ",)" or depth:
                            if p.s[p.i] == "(":
                                depth += 1
                            if p.s[p.i] == ")":
                                depth -= 1
                            p.i += 1
                        a.append(("md",))
                    else:
                        p.skip_attrs()
                        a.append(p.val(t))
                    if not p.take(","):
                        break
            p.need(")")
            ins.args = a
            g = re.search(r"#(\d+)", l[p.i:])
            ins.extra = self.attrgroups.get(int(g.group(1)), "") if g else ""
        elif op == "br":
            if p.take("label"):
                ins.extra = [p.val()[1]]
            else:
                t = p.ty()
                ins.args = [p.val(t)]
                p.need(",")
                p.need("label")
                a = p.val()[1]
                p.need(",")
                p.need("label")
                b = p.val()[1]
                ins.extra = [a, b]
        elif op == "switch":
            t = p.ty()
            ins.args = [p.val(t)]
            p.need(",")
            p.need("label")
            dflt = p.val()[1]
            p.need("[")
            cases = []
            while not p.at("]"):
                t = p.ty()
                v = p.val(t)
                p.need(",")
                p.need("label")
                cases.append((v[1], p.val()[1]))
            ins.extra = (dflt, cases)
        elif op == "ret":
            t = p.ty()
            if t != "void":
                ins.args = [p.val(t)]
            ins.ty = t
        elif op in ("icmp", "fcmp"):
            ins.extra = p.word()
            ins.ty = p.ty()
            a = p.val(ins.ty)
            p.need(",")
            ins.args = [a, p.val(ins.ty)]
        elif op in BINOPS:
            while p.peekword() in ("nsw", "nuw", "exact", "disjoint"):
                p.word()
            ins.ty = p.ty()
            a = p.val(ins.ty)
            p.need(",")
            ins.args = [a, p.val(ins.ty)]
        elif op in CASTS:
            while p.peekword() == "nneg":
                p.word()
            t = p.ty()
            ins.args = [p.val(t)]
            p.need("to")
            ins.ty = p.ty()
            ins.extra = t
        elif op == "phi":
            ins.ty = p.ty()
            inc = []
            while True:
                p.need("[")
                v = p.val(ins.ty)
                p.need(",")
                b = p.val()[1]
                p.need("]")
                inc.append((v, b))
                if not p.at(", ["):
                    break
                p.need(",")
            ins.extra = inc
        elif op == "select":
            t = p.ty()
            c = p.val(t)
            p.need(",")
            t = p.ty()
            a = p.val(t)
            p.need(",")
            t = p.ty()
            b = p.val(t)
            ins.ty = t
            ins.args = [c, a, b]
        elif op == "alloca":
            ins.ty = p.ty()
            if p.take(","):
                if not p.at("align"):
                    t = p.ty()
                    ins.args = [p.val(t)]
        elif op == "extractvalue":
            t = p.ty()
            ins.args = [p.val(t)]
            p.need(",")
            ins.extra = [int(x) for x in re.findall(r"\d+", l[p.i:].split("!")[0])]
            ins.ty = "?"
        elif op == "insertvalue":
            t = p.ty()
            a = p.val(t)
            p.need(",")
            t2 = p.ty()
            ins.args = [a, p.val(t2)]
            ins.ty = t
        elif op in ("unreachable", "fence", "va_arg", "freeze", "fneg",
                    "atomicrmw", "cmpxchg"):
            if op == "freeze":
                ins.ty = p.ty()
                ins.args = [p.val(ins.ty)]
        else:
            raise AnalysisError("IR parse: unknown instruction %r" % l)
        return ins

    # ---- layout
    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        """(size, align)"""
        if isinstance(t, str):
            if t == "ptr":
                return 8, 8
            if t[0] == "i" and t[1:].isdigit():
                b = (int(t[1:]) + 7) // 8
                return b, min(b, 16)
            if t == "float":
                return 4, 4
            if t in ("double",):
                return 8, 8
            if t == "x86_fp80":
                return 16, 16
            if t[0] == "%":
                return self.layout(self.types[t])
            if t == "void":
                return 0, 1
            raise AnalysisError("layout %r" % (t,))
        if t[0] == "arr":
            s, a = self.layout(t[2])
            return s * t[1], a
        if t[0] == "vec":
            s, a = self.layout(t[2])
            return s * t[1], s * t[1]
        off = 0
        al = 1
        for e in t[1]:
            s, a = self.layout(e)
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al

    def field_off(self, t, i):
        if isinstance(t, str) and t[0] == "%":
            t = self.types[t]
        off = 0
        for k, e in enumerate(t[1]):
            s, a = self.layout(e)
            off = (off + a - 1) // a * a
            if k == i:
                return off, e
            off += s
        raise AnalysisError("field %r of %r" % (i, t))

    def gep_offset(self, ty, idx):
        """constant byte offset of a GEP or None; idx are values."""
        off = 0
        cur = ty
        first = True
        for v in idx:
            if first:
                first = False
                if v == ("i", 0) or v == ("zero",):
                    continue
                if v[0] != "i":
                    return None
                off += v[1] * self.sizeof(cur)
                continue
            t = cur
            if isinstance(t, str) and t[0] == "%":
                t = self.types[t]
            if isinstance(t, tuple) and t[0] == "st":
                o, cur = self.field_off(t, v[1])
                off += o
            elif isinstance(t, tuple) and t[0] in ("arr", "vec"):
                if v[0] != "i":
                    return None
                off += v[1] * self.sizeof(t[2])
                cur = t[2]
            else:
                raise AnalysisError("gep %r" % (t,))
        return off

    # ---- debug info types
    def di_struct(self, name):
        """{offset_bits: (membername, size_bits, bitfield?)} recursive names."""
        if not hasattr(self, "_di"):
            self._di = {}
            for k, v in self.md.items():
                if v.startswith(("distinct !DICompositeType", "!DICompositeType")):
                    m = re.search(r'name: "([^"]*)"', v)
                    tag = re.search(r"tag: (DW_TAG_\w+)", v)
                    if m and "elements:" in v and tag and \
                       tag.group(1) in ("DW_TAG_structure_type", "DW_TAG_union_type"):
                        self._di[m.group(1)] = k
        if name not in self._di:
            return None
        out = []
        self._di_walk(self._di[name], 0, "", out, 0)
        return out

    def _di_strip(self, i):
        while i is not None:
            t = self.md.get(i, "")
            if "DICompositeType" in t:
                return i
            if "DIDerivedType" in t and ("DW_TAG_typedef" in t or "DW_TAG_const" in t
                                         or "DW_TAG_volatile" in t):
                i = self.mdget(i, "baseType")
                continue
            return None
        return None

    def _di_walk(self, cid, base, prefix, out, depth):
        el = self.mdget(cid, "elements")
        if el is None or depth > 4:
            return
        for m in re.findall(r"!(\d+)", self.md.get(el, "")):
            m = int(m)
            t = self.md.get(m, "")
            if "DW_TAG_member" not in t:
                continue
            nm = self.mdget(m, "name") or ""
            off = int(self.mdget(m, "offset") or 0) + base
            size = int(self.mdget(m, "size") or 0)
            bf = "DIFlagBitField" in t
            full = (prefix + "." + nm).strip(".") if nm else prefix
            sub = self._di_strip(self.mdget(m, "baseType"))
            if sub is not None and "DW_TAG_array" not in self.md[sub] and \
               "DW_TAG_enumeration" not in self.md[sub]:
                out.append((off, size, full, bf, True))
                self._di_walk(sub, off, full, out, depth + 1)
            else:
                out.append((off, size, full, bf, False))

    def enums(self):
        """{enumerator: value} from debug info."""
        if not hasattr(self, "_enums"):
            e = {}
            for v in self.md.values():
                if v.startswith("!DIEnumerator("):
                    m = re.search(r'name: "([^"]*)", value: (-?\d+)', v)
                    if m:
                        e[m.group(1)] = int(m.group(2))
            self._enums = e
        return self._enums

    def di_enum_range(self, struct, off):
        """(least, greatest) enumerator of an enum member at a byte offset, or None"""
        key = (struct, off)
        if not hasattr(self, "_enr"):
            self._enr = {}
        if key not in self._enr:
            self._enr[key] = None
            if self.di_struct(struct) is not None:
                self._enr[key] = self._di_enum_at(self._di[struct], off * 8, 0)
        return self._enr[key]

    def _di_enum_at(self, cid, off, depth):
        el = self.mdget(cid, "elements")
        if el is None or depth > 4:
            return None
        for m in re.findall(r"!(\d+)", self.md.get(el, "")):
            m = int(m)
            t = self.md.get(m, "")
            if "DW_TAG_member" not in t:
                continue
            o = int(self.mdget(m, "offset") or 0)
            size = int(self.mdget(m, "size") or 0)
            if not o <= off < o + size:
                continue
            sub = self._di_strip(self.mdget(m, "baseType"))
            if sub is None:
                continue
            if "DW_TAG_enumeration" in self.md[sub]:
                if o != off:
                    continue
                e = re.search(r"elements: !(\d+)", self.md[sub])
                vals = [int(re.search(r"value: (-?\d+)", self.md.get(int(x), "")).group(1))
                        for x in re.findall(r"!(\d+)", self.md.get(int(e.group(1)), ""))]
                return min(vals), max(vals)
            if "DW_TAG_array" not in self.md[sub]:
                r = self._di_enum_at(sub, off - o, depth + 1)
                if r is not None:
                    return r
        return None

    def enum_members(self, name):
        """enumerators of one enum"""
        for v in self.md.values():
            if "DW_TAG_enumeration_type" in v and re.search(r'name: "%s"' % re.escape(name), v):
                m = re.search(r"elements: !(\d+)", v)
                if not m:
                    continue
                out = {}
                for e in re.findall(r"!(\d+)", self.md.get(int(m.group(1)), "")):
                    k = re.search(r'name: "([^"]*)", value: (-?\d+)', self.md.get(int(e), ""))
                    if k:
                        out[k.group(1)] = int(k.group(2))
                return out
        return {}


class Program:
    def __init__(self, texts):
        self.tus = [TU(p, t) for p, t in texts.items()]
        self.ext = {}
        self.byname = {}
        for tu in self.tus:
            for f in tu.functions.values():
                if not f.internal:
                    self.ext[f.name] = f
                self.byname.setdefault(f.name, []).append(f)
        self.decl_attrs = {}
        for tu in self.tus:
            for n, g in tu.decls.items():
                if g is not None:
                    self.decl_attrs.setdefault(n, tu.attrgroups.get(g, ""))
        self.enums = {}
        for tu in self.tus:
            self.enums.update(tu.enums())

    def functions(self):
        for tu in self.tus:
            for f in tu.functions.values():
                yield f

    def fn(self, name, file=None):
        c = self.byname.get(name, [])
        if file is not None:
            c = [f for f in c if f.tu.short == file]
        if not c:
            return None
        return c[0]

    def need(self, name, file=None):
        f = self.fn(name, file)
        if f is None:
            raise AnalysisError("anchor function %s not found in the sources" % name)
        return f

    def resolve(self, tu, name):
        f = tu.functions.get(name)
        if f is not None:
            return f
        return self.ext.get(name)

    def noreturn(self, ins):
        """call instruction never returns"""
        if ins.extra and "noreturn" in ins.extra:
            return True
        if ins.callee[0] == "g":
            n = ins.callee[1]
            f = self.resolve(ins.fn.tu, n)
            a = f.attrs if f is not None else self.decl_attrs.get(n, "")
            return "noreturn" in a
        return False

    def gstr(self, tu, v):
        """C string for a constant pointer value, or None"""
        if v[0] == "g":
            g = tu.globals.get(v[1])
            if g and g[1] and g[1][0] == "str":
                return g[1][1].split(b"\0")[0].decode("latin-1")
            if g and g[1] and g[1][0] == "zero" :
                return ""
        return None


_prog = None


def load():
    global _prog
    if _prog is None:
        _prog = Program(compile_all())
    return _prog


_lists = None


def load_lists():
    """the program with every operation on lists turned into a call"""
    global _lists
    if _lists is None:
        _lists = Program(compile_all(flags=["-include", os.path.join(FALLBACK_INC, "list_shim.h")]))
    return _lists


_macros = {}


def macros(header):
    """object-like macros with integer values visible in a header of /repo"""
    if header not in _macros:
        p = os.path.join(REPO, header)
        r = subprocess.run(["clang", "-E", "-dM", "-I" + REPO, "-I" + FALLBACK_INC,
                            "-x", "c", p], capture_output=True, text=True)
        out = {}
        for l in r.stdout.split("\n"):
            m = re.match(r"#define (\w+) (0x[0-9a-fA-F]+|\d+)[uUlL]*$", l)
            if m:
                out[m.group(1)] = int(m.group(2), 0)
        _macros[header] = out
    return _macros[header]


def macro(header, name):
    m = macros(header)
    if name not in m:
        raise AnalysisError("macro %s not found in %s" % (name, header))
    return m[name]
