"""Path-sensitive dataflow (property simulation) over the IR of ir.py.

A state is (SSA environment, abstract memory, facts learned at branches,
property automaton state).  Values are constants, symbolic unknowns (one name
per program point and call context), addresses, or small terms over those.  No
constraint solver is involved: a branch is pruned only when the facts recorded
earlier on the same path about the very same value decide it.  States that
agree are merged, unknowns created again in a loop are renamed to an "old"
generation, and integers are widened, so every fixpoint is reached in finitely
many steps.

Calls are either followed (functions that can reach something the property
talks about), summarised by the property's own model, or skipped, in which case
everything the callee can write is forgotten.
"""
import sys
import time

from ir import AnalysisError

sys.setrecursionlimit(20000)

# libc functions that do not write through their pointer arguments
READONLY = {"warn", "warnx", "err", "errx", "strlen", "strcmp", "strncmp", "memcmp",
            "strchr", "strrchr", "memchr", "strstr", "printf", "fprintf", "open",
            "openat", "rename", "unlink", "execl", "execlp", "pledge", "write",
            "fputs", "puts", "regexec", "strcspn", "strspn", "__assert_fail",
            "isatty", "access"}

INV = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle",
       "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge",
        "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}

TOP = (None, None, frozenset())


def is_const(v):
    return v[0] == "i"


NEST = (tuple, frozenset)


def walk_syms(v, out):
    """collect ids of symbols in a nested tuple"""
    if not isinstance(v, NEST):
        return
    if len(v) == 2 and isinstance(v, tuple) and v[0] in ("s", "S"):
        out.add(v[1])
        return
    for x in v:
        if isinstance(x, NEST):
            walk_syms(x, out)


def contains(v, sid):
    if not isinstance(v, NEST):
        return False
    if len(v) == 2 and isinstance(v, tuple) and v[0] in ("s", "S") and v[1] == sid:
        return True
    for x in v:
        if isinstance(x, NEST) and contains(x, sid):
            return True
    return False


def subst(v, old, new):
    if isinstance(v, NEST):
        if len(v) == 2 and isinstance(v, tuple) and v[0] in ("s", "S") and v[1] == old:
            return (v[0], new)
        ch = False
        out = []
        for x in v:
            if isinstance(x, NEST):
                y = subst(x, old, new)
                ch = ch or y is not x
                out.append(y)
            else:
                out.append(x)
        return type(v)(out) if ch else v
    return v


def depth(v):
    if not isinstance(v, tuple):
        return 0
    if v[0] in ("b", "c"):
        return 1 + max(depth(x) for x in v[2:])
    return 0


class State:
    __slots__ = ("env", "mem", "facts", "auto", "trace")

    def __init__(self, env, mem, facts, auto, trace=None):
        self.env = env
        self.mem = mem
        self.facts = facts
        self.auto = auto
        self.trace = trace

    def copy(self):
        return State(dict(self.env), dict(self.mem), dict(self.facts),
                     self.auto, self.trace)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()),
                frozenset(self.facts.items()), self.auto)

    def note(self, text):
        self.trace = (text, self.trace)

    def trace_list(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        return out[::-1]


class Client:
    """Override what a property needs."""
    track_heap = True
    roots = ()
    max_states = 60000
    max_seconds = 600
    max_inline = 12
    merge_at = None     # join states of a block once this many agree on group()

    def group(self, st):
        return st.auto

    def relevant(self, fn):
        return False

    def keep(self, sid):
        """facts about this symbol outlive its last use"""
        return False

    def never_null(self, sid):
        """this symbol is a valid pointer"""
        return False

    def call(self, eng, ins, name, args, st, ctx):
        return None

    def store(self, eng, ins, val, ptr, st, ctx):
        pass

    def load(self, eng, ins, ptr, st, ctx):
        return None

    def branch(self, eng, ins, cond, taken, st, ctx):
        pass

    def arith(self, eng, ins, op, x, y, st):
        return None

    def gep(self, eng, ins, base, idx, st):
        return None

    def cmp(self, eng, ins, pred, x, y, st):
        return None

    def noreturn(self, eng, ins, name, st, ctx):
        pass

    def rec(self, fn):
        """how often a function may be followed recursively"""
        return 0

    def distinct(self, b):
        """this base aliases no other"""
        return False

    drop_dead = False

    def on_goto(self, eng, st):
        """st is about to enter a block"""

    def on_return(self, eng, fn, st):
        """a function returned; the value is in st.env["$r"]"""

    def memcpy_hook(self, eng, st, args):
        pass


class Engine:
    def __init__(self, prog, client):
        self.prog = prog
        self.client = client
        self.steps = 0
        self.t0 = time.time()
        self._live = {}
        self._loops = {}
        self._fnames = {}
        self.visited_fns = set()
        self.nstates = 0
        self.npaths = 0

    # ------------------------------------------------------------ liveness
    def live(self, fn):
        if fn in self._live:
            return self._live[fn]
        use = {}
        dfn = {}
        phiuse = {}
        for bn, b in fn.blocks.items():
            u = set()
            d = set()
            for ins in b.instrs:
                if ins.op == "phi":
                    for v, pb in ins.extra:
                        if v[0] == "l":
                            phiuse.setdefault((pb, bn), set()).add(v[1])
                    d.add(ins.res)
                    continue
                ops = list(ins.args)
                if ins.op == "getelementptr":
                    ops += ins.extra
                if ins.op == "call":
                    ops.append(ins.callee)
                for v in ops:
                    if v[0] == "l" and v[1] not in d:
                        u.add(v[1])
                if ins.res:
                    d.add(ins.res)
            use[bn] = u
            dfn[bn] = d
        livein = {bn: set(use[bn]) for bn in fn.blocks}
        ch = True
        while ch:
            ch = False
            for bn in reversed(fn.order):
                o = set()
                for s in fn.blocks[bn].succs:
                    o |= livein[s]
                    o |= phiuse.get((bn, s), set())
                # phi defs of succ are not live-in of succ after subtraction
                n = use[bn] | (o - dfn[bn])
                if n - livein[bn]:
                    livein[bn] |= n
                    ch = True
        # a phi result is defined at block entry: keep in env after phi eval
        res = {}
        for bn, b in fn.blocks.items():
            keep = set(livein[bn])
            for ins in b.instrs:
                if ins.op == "phi":
                    keep.add(ins.res)
            res[bn] = keep
        self._live[fn] = res
        return res

    def loops(self, fn):
        """set of blocks that lie on a cycle"""
        if fn in self._loops:
            return self._loops[fn]
        idx = {}
        low = {}
        st = []
        on = set()
        out = set()
        n = [0]

        def dfs(v):
            idx[v] = low[v] = n[0]
            n[0] += 1
            st.append(v)
            on.add(v)
            for w in fn.blocks[v].succs:
                if w not in idx:
                    dfs(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in fn.blocks[v].succs:
                    out.update(comp)
        dfs(fn.order[0])
        self._loops[fn] = out
        return out

    # -------------------------------------------------------------- fields
    def field_of(self, fn, v):
        """(named struct, byte offset within it) the pointer value designates
        when it is a chain of constant GEPs, else None.  Anonymous members are
        attributed to the nearest enclosing named struct, so that the same
        field has the same tag in every translation unit."""
        defs = self.defs(fn)
        off = 0
        n = 0
        while v[0] == "l" and v[1] in defs and n < 20:
            n += 1
            d = defs[v[1]]
            if d.op != "getelementptr":
                break
            t = d.ty
            o = fn.tu.gep_offset(t, d.extra)
            if o is None:
                # variable array index on the way: use element-relative offset
                ct = self.gep_struct_tail(fn, d)
                if ct is not None:
                    return (ct[0], ct[1] + off)
                return None
            off += o
            if isinstance(t, str) and t.startswith("%") and not self.anon(t):
                ct = self.gep_struct_tail(fn, d)
                if ct is not None and ct[0] != t[1:]:
                    return (ct[0], ct[1] + off - o)
                return (t[1:], off)
            v = d.args[0]
        return None

    @staticmethod
    def anon(t):
        return t.startswith(("%struct.anon", "%union.anon"))

    def gep_struct_tail(self, fn, d):
        """innermost named struct crossed by one GEP: (name, offset inside)"""
        cur = d.ty
        name = cur[1:] if isinstance(cur, str) and cur[0] == "%" and not self.anon(cur) else None
        off = 0
        tu = fn.tu
        for v in d.extra[1:]:
            t = tu.types.get(cur, cur) if isinstance(cur, str) else cur
            if isinstance(t, tuple) and t[0] == "st":
                o, cur = tu.field_off(t, v[1])
                off += o
            elif isinstance(t, tuple) and t[0] in ("arr", "vec"):
                cur = t[2]
                off = 0 if name is None else off + (v[1] * tu.sizeof(cur) if v[0] == "i" else 0)
            else:
                return None
            if isinstance(cur, str) and cur.startswith("%") and not self.anon(cur) and \
               v is not d.extra[-1]:
                name = cur[1:]
                off = 0
        return (name, off) if name else None

    def defs(self, fn):
        if not hasattr(fn, "_defs"):
            fn._defs = {i.res: i for i in fn.instrs() if i.res}
        return fn._defs

    def tag(self, fn, ptrval, ty):
        f = self.field_of(fn, ptrval)
        if f is not None:
            return f
        return ("*", str(ty))

    def root_of(self, fn, v):
        """the value a chain of GEPs/casts starts from"""
        defs = self.defs(fn)
        n = 0
        while v[0] == "l" and v[1] in defs and n < 30:
            d = defs[v[1]]
            if d.op in ("getelementptr", "bitcast"):
                v = d.args[0]
            else:
                break
            n += 1
        return v

    def summary(self, fn):
        """(field tags stored, params stored through directly, params that are
        the target of a block copy), transitively"""
        if not hasattr(self.prog, "_summ"):
            self._summaries()
        return self.prog._summ[fn]

    def mods(self, fn):
        return self.summary(fn)[0]

    def _summaries(self):
        prog = self.prog
        loc = {}
        for f in prog.functions():
            tags = set()
            ps = set()
            pm = set()
            pidx = {n: k for k, (n, _) in enumerate(f.params)}
            for i in f.instrs():
                if i.op == "store":
                    r = self.root_of(f, i.args[1])
                    if r[0] == "l" and r[1] in f.allocas:
                        continue
                    t = self.tag(f, i.args[1], i.ty)
                    tags.add(t)
                    if r[0] == "l" and r[1] in pidx and t[0] == "*":
                        ps.add(pidx[r[1]])
                elif i.op == "call" and i.callee[0] == "g" and \
                        i.callee[1].startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove",
                                                "memcpy", "memset", "memmove")):
                    r = self.root_of(f, i.args[0])
                    if r[0] == "l" and r[1] in pidx:
                        pm.add(pidx[r[1]])
                    elif not (r[0] == "l" and r[1] in f.allocas):
                        # block copy into heap: fields of the copied struct
                        t = self.block_struct(f, i.args[0])
                        if t:
                            tags.add((t, "*"))
            loc[f] = (tags, ps, pm)
        ch = True
        while ch:
            ch = False
            for f in prog.functions():
                tags, ps, pm = loc[f]
                n = (len(tags), len(ps), len(pm))
                pidx = {nm: k for k, (nm, _) in enumerate(f.params)}
                for c in f.calls():
                    for g in self.callees(c):
                        gt, gs, gm = loc[g]
                        tags |= gt
                        for j in gs | gm:
                            if j < len(c.args):
                                r = self.root_of(f, c.args[j])
                                if r[0] == "l" and r[1] in pidx:
                                    if j in gs:
                                        ps.add(pidx[r[1]])
                                    if j in gm:
                                        pm.add(pidx[r[1]])
                    if c.callee[0] == "g" and not self.callees(c) and \
                       not c.callee[1].startswith("llvm."):
                        for j, a in enumerate(c.args):
                            if c.callee[1] in READONLY:
                                break
                            r = self.root_of(f, a)
                            if r[0] == "l" and r[1] in pidx and \
                               f.params[pidx[r[1]]][1] == "ptr":
                                ps.add(pidx[r[1]])
                if (len(tags), len(ps), len(pm)) != n:
                    ch = True
        prog._summ = loc

    def block_struct(self, f, v):
        d = self.defs(f).get(v[1]) if v[0] == "l" else None
        if d is not None and d.op == "getelementptr":
            t = self.field_of(f, v)
            return t[0] if t else None
        return None

    def callees(self, ins):
        """functions of the program a call may enter (direct, or any function
        whose address is taken with matching arity for indirect calls)"""
        if ins.callee[0] == "g":
            f = self.prog.resolve(ins.fn.tu, ins.callee[1])
            return [f] if f is not None else []
        if ins.callee[0] == "asm":
            return []
        return self.indirect(len(ins.args), ins.ty)

    def indirect(self, n, ty):
        if not hasattr(self.prog, "_addrtaken"):
            taken = set()

            def scan(tu, v):
                if v is None:
                    return
                if v[0] == "g":
                    f = self.prog.resolve(tu, v[1])
                    if f is not None:
                        taken.add(f)
                elif v[0] == "agg":
                    for _, x in v[1]:
                        scan(tu, x)
                elif v[0] == "cgep":
                    scan(tu, v[2])
                elif v[0] == "cast":
                    scan(tu, v[2])
            for tu in self.prog.tus:
                for g in tu.globals.values():
                    scan(tu, g[1])
                for f in tu.functions.values():
                    for i in f.instrs():
                        for a in i.args:
                            scan(tu, a)
                        if i.op == "phi":
                            for a, _ in i.extra:
                                scan(tu, a)
            self.prog._addrtaken = taken
        return [f for f in self.prog._addrtaken
                if len(f.params) == n and (f.retty == ty)]

    # -------------------------------------------------------------- values
    def dom(self, st, v):
        if v[0] == "i":
            return (v[1], v[1], frozenset())
        return st.facts.get(v, TOP)

    def norm(self, st, v):
        """constant fold using facts"""
        k = v[0]
        if k == "i":
            return v
        f = st.facts.get(v)
        if f is not None and f[0] is not None and f[0] == f[1]:
            return ("i", f[0])
        if k == "b":
            x = self.norm(st, v[2])
            y = self.norm(st, v[3])
            if x is v[2] and y is v[3]:
                return v
            return self.binop(st, v[1], x, y)
        if k == "c":
            x = self.norm(st, v[2])
            y = self.norm(st, v[3])
            r = self.decide(st, v[1], x, y)
            if r is not None:
                return ("i", int(r))
            if x is v[2] and y is v[3]:
                return v
            return ("c", v[1], x, y)
        return v

    def binop(self, st, op, x, y):
        if x[0] == "i" and y[0] == "i":
            a, b = x[1], y[1]
            r = None
            if op == "add":
                r = a + b
            elif op == "sub":
                r = a - b
            elif op == "and":
                r = a & b
            elif op == "or":
                r = a | b
            elif op == "xor":
                r = a ^ b
            elif op == "shl" and 0 <= b < 64:
                r = a << b
            elif op in ("lshr", "ashr") and 0 <= b < 64 and a >= 0:
                r = a >> b
            elif op == "mul":
                r = a * b
            if r is not None:
                if op in ("add", "sub", "mul") and not -4 <= r <= 4:
                    return None
                return ("i", r)
            return None
        if op == "and" and (x == ("i", 0) or y == ("i", 0)):
            return ("i", 0)
        if op in ("or", "add", "sub", "xor", "shl", "lshr", "ashr") and y == ("i", 0):
            return x
        if op in ("or", "add", "xor") and x == ("i", 0):
            return y
        if op == "xor" and y == ("i", 1) and x[0] == "c":
            return ("c", INV[x[1]], x[2], x[3])
        if op == "and" and x == y:
            return x
        # (a & m1) & m2, (a | c) & m
        if op == "and" and y[0] == "i" and x[0] == "b" and x[3][0] == "i":
            if x[1] == "and":
                return self.binop(st, "and", x[2], ("i", x[3][1] & y[1]))
            if x[1] == "or":
                if x[3][1] & y[1] == 0:
                    return self.binop(st, "and", x[2], y)
                if y[1] >= 0 and x[3][1] & y[1] == y[1]:
                    return y
        if op == "and" and y[0] == "i" and x[0] == "b" and x[1] == "or" and \
           x[2][0] == "b" and x[2][1] == "and" and x[2][3][0] == "i" and \
           x[2][3][1] & y[1] == 0:
            return self.binop(st, "and", x[3], y)
        if op == "lshr" and y[0] == "i" and x[0] == "b" and x[1] == "and" and x[3][0] == "i":
            return ("b", "and", self.mk(st, "lshr", x[2], y), ("i", x[3][1] >> y[1])) \
                if depth(x) < 4 else None
        if x[0] == "i" and op in ("add", "and", "or", "xor", "mul"):
            x, y = y, x
        r = ("b", op, x, y)
        if depth(r) > 5:
            return None
        return r

    def mk(self, st, op, x, y):
        r = self.binop(st, op, x, y)
        return r if r is not None else ("s", ("opaque",))

    def nonnull(self, st, v):
        if v[0] == "p":
            b = v[1]
            if b[0] in ("A", "G"):
                return True
            if v[2] != 0:
                return True
            return self.nonnull(st, ("s", b[1]))
        if v[0] == "i":
            return v[1] != 0
        if v[0] == "s" and self.client.never_null(v[1]):
            return True
        d = st.facts.get(v)
        if d is not None:
            if 0 in d[2]:
                return True
            if d[0] is not None and d[0] > 0:
                return True
            if d[1] is not None and d[1] < 0:
                return True
        return False

    def decide(self, st, pred, x, y):
        """True/False/None"""
        if x[0] == "i" and y[0] == "i":
            a, b = x[1], y[1]
            if pred == "eq":
                return a == b
            if pred == "ne":
                return a != b
            if pred[0] == "u":
                M = (1 << 64)
                a %= M
                b %= M
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[1:]]
        if x[0] == "i":
            x, y = y, x
            pred = SWAP[pred]
        if x == y:
            if pred in ("eq", "sle", "sge", "ule", "uge"):
                return True
            return False
        # recorded fact on this very comparison
        f = st.facts.get(("c", pred, x, y))
        if f is not None and f[0] == f[1]:
            return bool(f[0])
        f = st.facts.get(("c", INV[pred], x, y))
        if f is not None and f[0] == f[1]:
            return not f[0]
        if y[0] == "i":
            c = y[1]
            if c == 0 and pred in ("eq", "ne") and self.nonnull(st, x):
                return pred == "ne"
            lo, hi, ex = st.facts.get(x, TOP)
            if x[0] == "b" and x[1] == "and" and x[3][0] == "i" and x[3][1] >= 0:
                lo = 0 if lo is None else max(lo, 0)
                hi = x[3][1] if hi is None else min(hi, x[3][1])
                if pred in ("eq", "ne") and c & ~x[3][1]:
                    return pred == "ne"
            if x[0] == "c":
                lo, hi = max(0, lo or 0), min(1, 1 if hi is None else hi)
            if pred in ("eq", "ne"):
                if c in ex or (lo is not None and c < lo) or (hi is not None and c > hi):
                    return pred == "ne"
                if lo is not None and lo == hi == c:
                    return pred == "eq"
                return None
            p = pred
            if p[0] == "u":
                if c == 0:
                    if p == "ugt":
                        return self.decide(st, "ne", x, y)
                    if p == "ule":
                        return self.decide(st, "eq", x, y)
                    if p == "uge":
                        return True
                    if p == "ult":
                        return False
                if lo is not None and lo >= 0 and hi is not None and c >= 0:
                    p = "s" + p[1:]
                else:
                    return None
            if p == "slt":
                if hi is not None and hi < c:
                    return True
                if lo is not None and lo >= c:
                    return False
            elif p == "sle":
                if hi is not None and hi <= c:
                    return True
                if lo is not None and lo > c:
                    return False
            elif p == "sgt":
                if lo is not None and lo > c:
                    return True
                if hi is not None and hi <= c:
                    return False
            elif p == "sge":
                if lo is not None and lo >= c:
                    return True
                if hi is not None and hi < c:
                    return False
            return None
        if pred in ("eq", "ne"):
            # distinct allocas / globals
            if x[0] == "p" and y[0] == "p" and x[1][0] in "AG" and y[1][0] in "AG":
                if x[1] != y[1] and x[2] is not None and y[2] is not None:
                    return pred == "ne"
        return None

    def assume(self, st, cond, val):
        """refine st (in place) with cond == val; False if infeasible"""
        cond = self.norm(st, cond)
        if cond[0] == "i":
            return bool(cond[1]) == val
        if cond[0] == "c":
            pred, x, y = cond[1:]
            if not val:
                pred = INV[pred]
            if x[0] == "i":
                x, y = y, x
                pred = SWAP[pred]
            # comparison of a boolean with 0/1
            if y[0] == "i" and x[0] == "c" and pred in ("eq", "ne") and y[1] in (0, 1):
                return self.assume(st, x, (y[1] == 1) == (pred == "eq"))
            r = self.decide(st, pred, x, y)
            if r is not None:
                return r
            if y[0] == "i":
                c = y[1]
                lo, hi, ex = st.facts.get(x, TOP)
                if pred == "eq":
                    lo = hi = c
                    ex = frozenset()
                elif pred == "ne":
                    if lo == c and isinstance(lo, int):
                        lo += 1
                    elif hi == c and isinstance(hi, int):
                        hi -= 1
                    else:
                        ex = ex | {c}
                elif pred == "slt":
                    hi = c - 1 if hi is None else min(hi, c - 1)
                elif pred == "sle":
                    hi = c if hi is None else min(hi, c)
                elif pred == "sgt":
                    lo = c + 1 if lo is None else max(lo, c + 1)
                elif pred == "sge":
                    lo = c if lo is None else max(lo, c)
                elif pred == "ugt" and c == 0:
                    ex = ex | {0}
                elif pred == "ule" and c == 0:
                    lo = hi = 0
                    ex = frozenset()
                else:
                    st.facts[("c", pred, x, y)] = (1, 1, frozenset())
                    return True
                if ex:
                    while lo is not None and lo in ex and (hi is None or lo <= hi):
                        lo += 1
                    while hi is not None and hi in ex and (lo is None or lo <= hi):
                        hi -= 1
                    if lo is not None and hi is not None:
                        ex = frozenset(e for e in ex if lo < e < hi)
                if lo is not None and hi is not None and lo > hi:
                    return False
                st.facts[x] = (lo, hi, ex)
                # x & m == m etc: propagate single-bit masks to nothing more
                return True
            st.facts[("c", pred, x, y)] = (1, 1, frozenset())
            return True
        # plain truth value
        if val:
            return self.assume(st, ("c", "ne", cond, ("i", 0)), True)
        return self.assume(st, ("c", "eq", cond, ("i", 0)), True)

    def val(self, st, fn, v):
        k = v[0]
        if k == "l":
            r = st.env.get(v[1])
            if r is None:
                return ("s", ("undef", fn.name, v[1]))
            return r
        if k == "i":
            return v
        if k in ("null", "zero"):
            return ("i", 0)
        if k == "g":
            f = self.prog.resolve(fn.tu, v[1])
            if f is not None:
                return ("p", ("G", f.tu.short if f.internal else "", v[1]), 0)
            g = fn.tu.globals.get(v[1])
            short = fn.tu.short if g and ("internal" in g[2] or "private" in g[2]) else ""
            return ("p", ("G", short, v[1]), 0)
        if k == "cgep":
            b = self.val(st, fn, v[2])
            o = fn.tu.gep_offset(v[1], v[3])
            return self.padd(b, o)
        if k == "cast":
            return self.val(st, fn, v[2])
        if k == "undef":
            return ("s", ("undef",))
        return ("s", ("const", str(v)[:60]))

    def padd(self, b, o):
        if b[0] == "p":
            if o is None or b[2] is None:
                return ("p", b[1], None)
            n = b[2] + o
            if b[1][0] == "S" and n == 0:
                return ("s", b[1][1])
            return ("p", b[1], n)
        if b[0] == "s":
            if o == 0:
                return b
            return ("p", ("S", b[1]), o)
        if b[0] == "i":
            if o == 0:
                return b
            return ("s", ("ptrconst", b[1], o))
        return ("s", ("ptr", b, o))

    def loc(self, v):
        """memory location key for pointer AV, or None"""
        if v[0] == "p":
            return (v[1], v[2])
        if v[0] == "s":
            return (("S", v[1]), 0)
        return None

    # ----------------------------------------------------- symbol creation
    def fresh(self, st, sid, inloop=True):
        """return ('s', sid), ageing an older generation still in use"""
        s = ("s", sid)
        if inloop and self.uses(st, sid):
            old = ("old", sid)
            # merge: forget facts about older generations
            self.forget_facts(st, old)
            if self.uses(st, old):
                self.forget_facts(st, sid)
            self.rename(st, sid, old)
        return s

    def uses(self, st, sid):
        for v in st.env.values():
            if contains(v, sid):
                return True
        for (b, o), v in st.mem.items():
            if contains(b, sid) or contains(v, sid):
                return True
        for k in st.facts:
            if contains(k, sid):
                return True
        return contains(st.auto, sid)

    def forget_facts(self, st, sid):
        for k in [k for k in st.facts if contains(k, sid)]:
            del st.facts[k]

    def rename(self, st, old, new):
        st.env = {k: subst(v, old, new) for k, v in st.env.items()}
        st.mem = {(subst(k[0], old, new), k[1]): subst(v, old, new)
                  for k, v in st.mem.items()}
        st.facts = {subst(k, old, new): v for k, v in st.facts.items()}
        st.auto = subst(st.auto, old, new)

    # --------------------------------------------------------------- memory
    def mload(self, st, ptr, tag, sid, inloop):
        l = self.loc(ptr)
        if l is None or l[1] is None:
            return self.fresh(st, sid, inloop)
        v = st.mem.get(l)
        if v is not None:
            return v[0]
        b = l[0]
        d = st.mem.get((b, ("*", tag))) or st.mem.get((b, ("*", (tag[0], "*")))) \
            or st.mem.get((b, "*"))
        if d is not None and d[0] is not None:
            v = d[0]
            if v[0] == "gen":
                v = ("s", ("g", v[1], l[1]))
            if v[0] != "i":
                st.mem[l] = (v, tag)
            return v
        if b[0] == "S" and not self.client.track_heap:
            return self.fresh(st, sid, inloop)
        if b[0] == "G":
            # constant initialisers are read by clients; treat as unknown
            pass
        s = self.fresh(st, sid, inloop)
        st.mem[l] = (s, tag)
        return s

    def mstore(self, st, ptr, val, tag):
        l = self.loc(ptr)
        if l is None:
            # unknown target: forget heap entries with the same tag
            self.forget_tags(st, {tag})
            return
        if l[1] is None:
            b = l[0]
            for k in [k for k in st.mem if k[0] == b]:
                del st.mem[k]
            if b[0] == "A":
                st.mem[(b, "*")] = (("gen", ("st",)), None)
            return
        b = l[0]
        if b[0] == "S" or b[0] == "G":
            # may alias other heap entries with the same field tag
            if not self.client.distinct(b):
                for k in [k for k, v in st.mem.items()
                          if k[0][0] in ("S",) and k != l and v[1] == tag and not self.client.distinct(k[0])]:
                    del st.mem[k]
            if b[0] == "S" and not self.client.track_heap:
                return
        if depth(val) > 4:
            val = ("s", ("deep", str(l)[:40]))
        st.mem[l] = (val, tag)

    def forget_tags(self, st, tags):
        if not tags:
            return
        wild = {t[0] for t in tags if t[1] == "*"}
        for k in [k for k, v in st.mem.items()
                  if k[0][0] in ("S", "G") and k[1] != "*" and
                  v[1] != "env" and
                  (v[1] in tags or v[1] is None or v[1][0] in wild)]:
            del st.mem[k]

    def havoc_base(self, st, b, gen):
        for k in [k for k in st.mem if k[0] == b]:
            del st.mem[k]
        if b[0] == "A":
            # a new generation: stale symbols of an earlier visit are renamed
            st.mem[(b, "*")] = (("gen", gen), None)

    def reach_allocas(self, st, args):
        """alloca bases reachable from argument values through memory"""
        seen = set()
        work = list(args)
        while work:
            v = work.pop()
            if v is None or v[0] != "p":
                continue
            b = v[1]
            if b[0] != "A" or b in seen:
                continue
            seen.add(b)
            for k, x in st.mem.items():
                if k[0] == b and x[0] is not None:
                    work.append(x[0])
        return seen

    # ------------------------------------------------------------ garbage
    def gc(self, st):
        syms = set(self.client.roots)
        for v in st.env.values():
            walk_syms(v, syms)
        walk_syms(st.auto, syms)
        if self.client.drop_dead:
            self.drop_allocas(st)
        ch = True
        keep = {}
        rest = dict(st.mem)
        while ch:
            ch = False
            for k in list(rest):
                b = k[0]
                ok = b[0] in ("A", "G") or (b[0] == "S" and b[1] in syms)
                if ok:
                    v = rest.pop(k)
                    keep[k] = v
                    if v[0] is not None:
                        walk_syms(v[0], syms)
                    ch = True
        st.mem = keep
        if st.facts:
            nf = {}
            for k, v in st.facts.items():
                s = set()
                walk_syms(k, s)
                if s <= syms or all(x in syms or self.client.keep(x) for x in s):
                    nf[k] = v
            st.facts = nf

    def drop_allocas(self, st):
        """forget local variables no value left refers to"""
        alive = set()
        by = {}
        for k, v in st.mem.items():
            by.setdefault(k[0], []).append(v[0])
        work = list(st.env.values()) + [v for b, vs in by.items() if b[0] != "A" for v in vs]
        work.append(st.auto)
        while work:
            v = work.pop()
            if isinstance(v, tuple):
                if len(v) == 4 and v[0] == "A" and v in by:
                    if v not in alive:
                        alive.add(v)
                        work += by[v]
                    continue
                work += [x for x in v if isinstance(x, (tuple, frozenset))]
            elif isinstance(v, frozenset):
                work += list(v)
        if any(b[0] == "A" and b not in alive for b in by):
            st.mem = {k: v for k, v in st.mem.items() if k[0][0] != "A" or k[0] in alive}

    # ---------------------------------------------------------------- run
    def run(self, fn, args, st, ctx=(), stack=()):
        """Explore fn from its entry.  Returns [(ret AV or None, State)] with
        mem/facts/auto of the caller's world."""
        self.visited_fns.add(fn)
        self._fnames[fn.name] = fn
        live = self.live(fn)
        loops = self.loops(fn)
        env = {}
        for (pn, _), a in zip(fn.params, args):
            env[pn] = a
        st = State(env, dict(st.mem), dict(st.facts), st.auto, st.trace)
        work = [(fn.order[0], None, st)]
        seen = {}
        groups = {}
        outs = []
        outkeys = set()
        while work:
            bn, prev, s = work.pop()
            if self.client.merge_at is not None:
                s = self.merge(fn, ctx, bn, s, groups)
                if s is None:
                    continue
            k = s.key()
            sb = seen.setdefault(bn, set())
            if k in sb:
                continue
            sb.add(k)
            self.nstates += 1
            if self.nstates % 64 == 0 and time.time() - self.t0 > self.client.max_seconds:
                raise AnalysisError("time budget exceeded in %s" % fn.name)
            if self.nstates > self.client.max_states:
                self.dump = (fn, seen)
                raise AnalysisError("state budget exceeded in %s" % fn.name)
            blk = fn.blocks[bn]
            states = [s]
            dead = False
            for ins in blk.instrs:
                if ins.op == "phi":
                    continue
                if ins.op in ("br", "switch", "ret", "unreachable"):
                    break
                nxt = []
                for q in states:
                    nxt += self.step(fn, ins, q, ctx, stack, bn in loops)
                states = nxt
                if not states:
                    break
            term = blk.instrs[-1]
            for q in states:
                if term.op == "ret":
                    rv = self.norm(q, self.val(q, fn, term.args[0])) if term.args else None
                    # drop this frame's allocas
                    fid = (ctx, fn.name)
                    q.env = {"$r": rv} if rv is not None else {}
                    q.mem = {k: v for k, v in q.mem.items()
                             if not (k[0][0] == "A" and k[0][1] == ctx and k[0][2] == fn.name)}
                    self.client.on_return(self, fn, q)
                    rv = q.env.get("$r")
                    kk = (rv, q.key())
                    if kk not in outkeys:
                        outkeys.add(kk)
                        outs.append((rv, q))
                        self.npaths += 1
                elif term.op == "unreachable":
                    pass
                elif term.op == "br":
                    if len(term.extra) == 1:
                        self.goto(fn, bn, term.extra[0], q, work, live)
                    else:
                        c = self.norm(q, self.val(q, fn, term.args[0]))
                        for val, tgt in ((True, term.extra[0]), (False, term.extra[1])):
                            r = q.copy()
                            if self.assume(r, c, val):
                                if c[0] != "i":
                                    r.note("%s: branch %s" % (term.where, "taken" if val else "not taken"))
                                if self.client.branch(self, term, c, val, r, ctx) is False:
                                    continue
                                self.goto(fn, bn, tgt, r, work, live)
                elif term.op == "switch":
                    c = self.norm(q, self.val(q, fn, term.args[0]))
                    dflt, cases = term.extra
                    rest = q.copy()
                    okrest = True
                    for cv, tgt in cases:
                        cmpv = ("c", "eq", c, ("i", cv))
                        r = rest.copy()
                        if self.assume(r, cmpv, True):
                            r.note("%s: case %d" % (term.where, cv))
                            self.client.branch(self, term, cmpv, True, r, ctx)
                            self.goto(fn, bn, tgt, r, work, live)
                        if not self.assume(rest, cmpv, False):
                            okrest = False
                            break
                    if okrest:
                        rest.note("%s: default" % term.where)
                        self.goto(fn, bn, dflt, rest, work, live)
        return outs

    def merge(self, fn, ctx, bn, s, groups):
        """join s with the states of its group once there are many of them;
        None when the join already covers it"""
        g = groups.setdefault((bn, self.client.group(s)), [0, None])
        g[0] += 1
        if g[0] <= self.client.merge_at:
            return s
        if g[1] is None:
            g[1] = s.copy()
            return s
        acc = g[1]
        j = self.join(fn, ctx, bn, acc, s)
        if j.key() == acc.key():
            return None
        g[1] = j.copy()
        return j

    def join(self, fn, ctx, bn, a, b):
        def sym(k):
            return ("s", ("j", ctx, fn.name, bn, k))
        # symbols of this join point name the joined value, not an earlier one
        env = {}
        for k in a.env.keys() | b.env.keys():
            x, y = a.env.get(k), b.env.get(k)
            if x is not None and x == y:
                env[k] = x
            elif x is not None and y is not None:
                env[k] = sym(k)
        mem = {}
        for k in a.mem.keys() | b.mem.keys():
            x, y = a.mem.get(k), b.mem.get(k)
            if x == y:
                mem[k] = x
            elif k[0][0] == "A" or (k[0][0] == "G" and k[0][1] == "env"):
                if isinstance(k[1], tuple) or k[1] == "*":
                    mem[k] = (("gen", ("j", ctx, fn.name, bn, k)), None)
                elif k[0][0] == "G":
                    mem[k] = (sym(k), "env")
                else:
                    mem[k] = (sym(k), (x or y)[1])
        facts = {}
        for k in a.facts.keys() & b.facts.keys():
            x, y = a.facts[k], b.facts[k]
            if x == y:
                facts[k] = x
        st = State(env, mem, facts, a.auto, b.trace)
        joined = {}
        for k, v in env.items():
            if v == sym(k):
                d = self.join_dom(self.dom(a, a.env[k]), self.dom(b, b.env[k]),
                                  self.nonnull(a, a.env[k]) and self.nonnull(b, b.env[k]))
                if d != TOP:
                    joined[v] = d
        # facts about values that were renamed by the join do not survive
        for k in list(st.facts):
            if self.mentions_join(k, ctx, fn.name, bn) and not (k in a.facts and a.facts[k] == b.facts.get(k)):
                del st.facts[k]
        st.facts.update(joined)
        self.gc(st)
        return st

    @staticmethod
    def join_dom(x, y, nonnull):
        lo = hi = None
        if isinstance(x[0], int) and isinstance(y[0], int):
            m = min(x[0], y[0])
            lo = 1 if m >= 1 else 0 if m == 0 else None
        if isinstance(x[1], int) and isinstance(y[1], int):
            m = max(x[1], y[1])
            hi = -1 if m <= -1 else 0 if m == 0 else 1 if m == 1 else None
        ex = x[2] & y[2]
        if nonnull and lo != 1 and hi != -1:
            ex = ex | {0}
        return (lo, hi, ex)

    def mentions_join(self, k, ctx, name, bn):
        s = set()
        walk_syms(k, s)
        return any(isinstance(x, tuple) and x and x[0] == "j" and x[1:4] == (ctx, name, bn) for x in s)

    def goto(self, fn, frm, to, st, work, live):
        st = st.copy()
        blk = fn.blocks[to]
        new = {}
        for ins in blk.instrs:
            if ins.op != "phi":
                break
            for v, pb in ins.extra:
                if pb == frm:
                    new[ins.res] = self.norm(st, self.val(st, fn, v))
                    break
        env = {k: v for k, v in st.env.items() if k in live[to]}
        env.update(new)
        st.env = env
        self.gc(st)
        self.client.on_goto(self, st)
        work.append((to, frm, st))

    def step(self, fn, ins, st, ctx, stack, inloop):
        op = ins.op
        val = self.val
        if op == "load":
            p = self.norm(st, val(st, fn, ins.args[0]))
            tag = self.tag(fn, ins.args[0], ins.ty)
            r = self.client.load(self, ins, p, st, ctx)
            if isinstance(r, list):
                # the client splits the state
                out = []
                for v, q in r:
                    q.env[ins.res] = v
                    out.append(q)
                return out
            if r is None:
                r = self.mload(st, p, tag, (ctx, fn.name, ins.res), inloop)
            st.env[ins.res] = r
            return [st]
        if op == "store":
            v = self.norm(st, val(st, fn, ins.args[0]))
            p = self.norm(st, val(st, fn, ins.args[1]))
            self.client.store(self, ins, v, p, st, ctx)
            self.mstore(st, p, v, self.tag(fn, ins.args[1], ins.ty))
            return [st]
        if op == "getelementptr":
            b = self.norm(st, val(st, fn, ins.args[0]))
            idx = [self.norm(st, val(st, fn, x)) for x in ins.extra]
            r = self.client.gep(self, ins, b, idx, st)
            if r is not None:
                st.env[ins.res] = r
                return [st]
            idx = [("i", x[1]) if x[0] == "i" else ("l", "?") for x in idx]
            o = fn.tu.gep_offset(ins.ty, idx)
            r = self.padd(b, o)
            if o is None:
                r = self.fresh(st, (ctx, fn.name, ins.res), inloop) if b[0] not in ("p",) or b[1][0] != "A" else ("p", b[1], None)
            st.env[ins.res] = r
            return [st]
        if op == "alloca":
            b = ("A", ctx, fn.name, ins.res)
            st.env[ins.res] = ("p", b, 0)
            return [st]
        if op == "icmp":
            x = self.norm(st, val(st, fn, ins.args[0]))
            y = self.norm(st, val(st, fn, ins.args[1]))
            r = self.client.cmp(self, ins, ins.extra, x, y, st)
            if r is None:
                r = self.mkcmp(st, ins.extra, x, y)
            st.env[ins.res] = r
            return [st]
        if op in ("zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            v = self.norm(st, val(st, fn, ins.args[0]))
            if op == "sext" and ins.extra == "i1":
                v = ("b", "sub", ("i", 0), v)
            elif op == "zext" and v[0] == "i" and v[1] < 0 and isinstance(ins.extra, str):
                v = ("i", v[1] & ((1 << int(ins.extra[1:])) - 1))
            st.env[ins.res] = v
            return [st]
        if op == "trunc":
            v = self.norm(st, val(st, fn, ins.args[0]))
            w = int(ins.ty[1:]) if isinstance(ins.ty, str) else 64
            if v[0] == "i":
                x = v[1] & ((1 << w) - 1)
                if w > 1 and x >> (w - 1):
                    x -= 1 << w
                v = ("i", x)
            elif w == 1:
                v = self.mk(st, "and", v, ("i", 1))
            # i64 -> i32 and the like: value identity is good enough
            st.env[ins.res] = v
            return [st]
        if op in ("add", "sub", "and", "or", "xor", "shl", "lshr", "ashr",
                  "mul", "udiv", "sdiv", "urem", "srem"):
            x = self.norm(st, val(st, fn, ins.args[0]))
            y = self.norm(st, val(st, fn, ins.args[1]))
            r = self.client.arith(self, ins, op, x, y, st)
            if r is not None:
                st.env[ins.res] = r
                return [st]
            r = self.binop(st, op, x, y)
            if r is not None and r[0] == "i" and inloop and op in ("add", "sub") and \
               self.induction(fn, ins) and not (-1 <= r[1] <= 16 and self.few_rounds(fn, ins)):
                # widen loop counters right away, keeping only their sign
                w = self.fresh(st, (ctx, fn.name, ins.res), inloop)
                d = r[1] - x[1]
                if d > 0:
                    st.facts[w] = (min(r[1], 1), None, frozenset())
                else:
                    st.facts[w] = (None, max(r[1], -1), frozenset())
                st.env[ins.res] = w
                return [st]
            if r is None or (inloop and op in ("add", "sub", "mul") and r[0] == "b"):
                sign = None
                if op == "add" and y[0] == "i" and x[0] != "i":
                    lo, hi, _ = self.dom(st, x)
                    if y[1] > 0 and isinstance(lo, int) and lo + y[1] > 0:
                        sign = (1, None, frozenset())
                    elif y[1] < 0 and isinstance(hi, int) and hi + y[1] < 0:
                        sign = (None, -1, frozenset())
                r = self.fresh(st, (ctx, fn.name, ins.res), inloop)
                if sign is not None:
                    st.facts[r] = sign
            st.env[ins.res] = r
            return [st]
        if op == "select":
            c = self.norm(st, val(st, fn, ins.args[0]))
            out = []
            for tv, a in ((True, ins.args[1]), (False, ins.args[2])):
                q = st.copy()
                if self.assume(q, c, tv):
                    q.env[ins.res] = self.norm(q, val(q, fn, a))
                    out.append(q)
            return out
        if op == "call":
            return self.call(fn, ins, st, ctx, stack, inloop)
        if ins.res:
            st.env[ins.res] = self.fresh(st, (ctx, fn.name, ins.res), inloop)
        return [st]

    def induction(self, fn, ins):
        """ins adds a constant to a phi that ins flows back into"""
        a = ins.args[0]
        if a[0] != "l" or ins.args[1][0] != "i":
            return False
        defs = self.defs(fn)
        seen = set()
        w = [a[1]]
        while w:
            n = w.pop()
            if n in seen:
                continue
            seen.add(n)
            if n == ins.res:
                return True
            d = defs.get(n)
            if d is None:
                continue
            if d.op == "phi":
                w += [v[1] for v, _ in d.extra if v[0] == "l"]
        return False

    def few_rounds(self, fn, ins):
        """the counter is compared with a small constant bound: follow each round"""
        names = {ins.res}
        a = ins.args[0]
        down = ins.args[1][1] < 0 if ins.op == "add" else ins.args[1][1] > 0
        if a[0] == "l":
            names.add(a[1])
        if down:
            d = self.defs(fn).get(a[1])
            return d is not None and d.op == "phi" and any(v[0] == "i" and 0 < v[1] <= 16 for v, _ in d.extra)
        for i in fn.instrs():
            if i.op == "icmp" and i.extra not in ("eq", "ne"):
                x, y = i.args
                for u, v in ((x, y), (y, x)):
                    if u[0] == "l" and u[1] in names and v[0] == "i" and 0 < v[1] <= 16:
                        return True
        return False

    def live_after(self, fn, ins):
        """SSA names used after ins"""
        c = getattr(fn, "_lafter", None)
        if c is None:
            c = fn._lafter = {}
            live = self.live(fn)
            for bn, b in fn.blocks.items():
                o = set()
                for s in b.succs:
                    o |= live[s]
                    for i in fn.blocks[s].instrs:
                        if i.op != "phi":
                            break
                        for v, pb in i.extra:
                            if pb == bn and v[0] == "l":
                                o.add(v[1])
                for i in reversed(b.instrs):
                    if i.op == "call":
                        c[i] = frozenset(o)
                    if i.op == "phi":
                        continue
                    ops = list(i.args)
                    if i.op == "getelementptr":
                        ops += i.extra
                    if i.op == "call":
                        ops.append(i.callee)
                    for v in ops:
                        if v[0] == "l":
                            o.add(v[1])
        return c[ins]

    def mkcmp(self, st, pred, x, y):
        r = self.decide(st, pred, x, y)
        if r is not None:
            return ("i", int(r))
        if x[0] == "i":
            x, y = y, x
            pred = SWAP[pred]
        if y == ("i", 0) and pred in ("eq", "ne") and x[0] == "c":
            return x if pred == "ne" else ("c", INV[x[1]], x[2], x[3])
        if y == ("i", 1) and pred in ("eq", "ne") and x[0] == "c":
            return x if pred == "eq" else ("c", INV[x[1]], x[2], x[3])
        return ("c", pred, x, y)

    def name_of(self, ins, st, fn):
        c = ins.callee
        if c[0] == "g":
            return c[1]
        if c[0] == "asm":
            return "<asm>"
        v = self.norm(st, self.val(st, fn, c))
        if v[0] == "p" and v[1][0] == "G":
            return v[1][2]
        return None

    def call(self, fn, ins, st, ctx, stack, inloop):
        name = self.name_of(ins, st, fn)
        args = [self.norm(st, self.val(st, fn, a)) if a[0] != "md" else ("s", ("md",))
                for a in ins.args]
        sid = (ctx, fn.name, ins.res or ("c%d" % id(ins)))
        site = (ctx, fn.name, ins.bb.name, ins.idx)
        if name is not None and name.startswith("llvm."):
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                self.client.memcpy_hook(self, st, args)
                self.memcpy(st, args, site)
                return [st]
            if name.startswith("llvm.memset"):
                self.memset(st, args, site)
                return [st]
            if name.startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg",
                                "llvm.stacksave", "llvm.stackrestore",
                                "llvm.va_", "llvm.trap")):
                if name == "llvm.trap":
                    return []
                return [st]
            if name.startswith("llvm.expect"):
                st.env[ins.res] = args[0]
                return [st]
            if ins.res:
                st.env[ins.res] = self.fresh(st, sid, inloop)
            return [st]
        target = None
        if name is not None:
            target = self.prog.resolve(fn.tu, name)
        r = self.client.call(self, ins, name, args, st, ctx)
        if self.prog.noreturn(ins):
            self.client.noreturn(self, ins, name, st, ctx)
            return []
        if r is None or r in ("inline", "skip"):
            if r is None:
                r = "skip"
                if target is not None and self.client.relevant(target):
                    r = "inline"
            if r == "inline":
                if target is None or (target in stack and stack.count(target) > self.client.rec(target)) or len(stack) >= self.client.max_inline:
                    r = "skip"
            if r == "inline":
                sub = ctx + ((fn.name, ins.bb.name, ins.idx),)
                saved = st.env
                # keep caller env alive for gc by parking it in memory
                la = self.live_after(fn, ins)
                park = {(("G", "env", sub), k): (v, "env") for k, v in saved.items()
                        if k in la}
                st2 = State({}, dict(st.mem), dict(st.facts), st.auto, st.trace)
                st2.mem.update(park)
                res = []
                for rv, q in self.run(target, args, st2, sub, stack + (fn,)):
                    env = {}
                    for k in list(q.mem):
                        if k[0] == ("G", "env", sub):
                            env[k[1]] = q.mem.pop(k)[0]
                    q = State(env, q.mem, q.facts, q.auto, q.trace)
                    if ins.res:
                        q.env[ins.res] = rv if rv is not None else ("s", sid)
                    self.gc2(q)
                    res.append(q)
                return res
            # skip
            self.skip(fn, ins, st, args, target, site, sid, inloop)
            return [st]
        # alternatives: dicts with ret, auto, mem, facts, havoc, rename
        out = []
        for alt in r:
            if not isinstance(alt, dict):
                alt = dict(zip(("ret", "auto", "mem"), alt))
            q = (alt.get("base") or st).copy()
            if alt.get("havoc", True):
                self.havoc_args(q, args, site, inloop, target)
                if target is not None:
                    self.forget_tags(q, self.mods(target))
            if alt.get("auto") is not None:
                q.auto = alt["auto"]
            rv = alt.get("ret")
            if ins.res:
                if rv is None or rv == ("s", "self"):
                    rv = self.fresh(q, sid, inloop)
                q.env[ins.res] = rv
                if alt.get("auto") is not None:
                    q.auto = subst(q.auto, "self", rv[1]) if rv[0] == "s" else q.auto
            for k, d in alt.get("facts", ()):
                if k == ("s", "self"):
                    k = rv
                if k[0] != "i":
                    q.facts[k] = d
            for p, v in alt.get("mem", ()) or ():
                if v == ("s", "self"):
                    v = rv
                self.mstore(q, p, v, ("*", "ptr"))
            for k, v in alt.get("rawmem", ()) or ():
                q.mem[k] = v
            if alt.get("note"):
                q.note("%s: %s" % (ins.where, alt["note"]))
            out.append(q)
        return out

    def gc2(self, st):
        self.gc(st)

    def havoc_args(self, st, args, site, inloop, target=None):
        """forget what the callee may write through its arguments"""
        direct = {}
        for j, a in enumerate(args):
            if a is not None and a[0] == "p" and a[1][0] == "A":
                direct.setdefault(a[1], []).append((j, a[2]))
        reach = self.reach_allocas(st, args)
        tags = None
        ps = pm = None
        if target is not None:
            tags, ps, pm = self.summary(target)
        for b in reach:
            gen = site + (b[3],)
            if target is None:
                self.age_gen(st, gen)
                self.havoc_base(st, b, gen)
                continue
            js = direct.get(b)
            scalar = self.alloca_scalar(b)
            full = False
            if js is None:
                full = scalar
            else:
                for j, off in js:
                    if j in pm or (j in ps and (scalar or off is None)):
                        full = True
                    elif j in ps:
                        l = (b, off)
                        self.age_gen(st, gen)
                        st.mem[l] = (("s", ("g", gen, off)), None)
            if full:
                self.age_gen(st, gen)
                self.havoc_base(st, b, gen)
                continue
            if scalar:
                continue
            self.forget_fields(st, b, tags, gen)

    def alloca_scalar(self, b):
        fn = self.fn_by_ctx(b)
        t = fn.allocas[b[3]].ty if fn is not None and b[3] in fn.allocas else None
        return t is None or (isinstance(t, str) and t[0] != "%")

    def fn_by_ctx(self, b):
        return self._fnames.get(b[2])

    def nested_structs(self, tu, t, out):
        if isinstance(t, str) and t.startswith("%"):
            if not self.anon(t):
                out.add(t[1:])
            u = tu.types.get(t)
            if u is not None and isinstance(u, tuple):
                for e in u[1] if u[0] == "st" else [u[2]]:
                    self.nested_structs(tu, e, out)
        elif isinstance(t, tuple):
            if t[0] == "st":
                for e in t[1]:
                    self.nested_structs(tu, e, out)
            elif t[0] in ("arr", "vec"):
                self.nested_structs(tu, t[2], out)

    def forget_fields(self, st, b, tags, gen):
        fn = self.fn_by_ctx(b)
        names = set()
        self.nested_structs(fn.tu, fn.allocas[b[3]].ty, names)
        rel = frozenset(t for t in tags if t[0] in names)
        if not rel:
            return
        wild = {t[0] for t in rel if t[1] == "*"}
        self.age_gen(st, gen)
        for k, v in list(st.mem.items()):
            if k[0] == b and not isinstance(k[1], tuple) and k[1] != "*":
                t = v[1]
                if t is None or t in rel or t[0] in wild:
                    del st.mem[k]
        for t in rel:
            st.mem[(b, ("*", t))] = (("gen", gen), None)

    def age_gen(self, st, gen):
        """symbols ("g", gen, off) that are still referenced become old"""
        syms = set()
        for v in st.env.values():
            walk_syms(v, syms)
        for (b, o), v in st.mem.items():
            walk_syms(b, syms)
            if v[0] is not None:
                walk_syms(v[0], syms)
        for k in st.facts:
            walk_syms(k, syms)
        walk_syms(st.auto, syms)
        for s in syms:
            if isinstance(s, tuple) and len(s) == 3 and s[0] == "g" and s[1] == gen:
                old = ("old", s)
                if old in syms:
                    self.forget_facts(st, old)
                    self.forget_facts(st, s)
                self.rename(st, s, old)
        for k, v in list(st.mem.items()):
            if v[0] is not None and v[0] == ("gen", gen):
                st.mem[k] = (("gen", ("old", gen)), None)

    def skip(self, fn, ins, st, args, target, site, sid, inloop):
        if target is None and ins.callee[0] == "g" and ins.callee[1] in READONLY:
            pass
        else:
            self.havoc_args(st, args, site, inloop, target)
        if target is not None:
            self.forget_tags(st, self.mods(target))
        elif ins.callee[0] not in ("g", "asm"):
            tags = set()
            for g in self.callees(ins):
                tags |= self.mods(g)
            self.forget_tags(st, tags)
        if ins.res:
            st.env[ins.res] = self.fresh(st, sid, inloop)

    def memcpy(self, st, args, site):
        d, s, n = args[0], args[1], args[2]
        ld, ls = self.loc(d), self.loc(s)
        if ld is None or ld[1] is None or ls is None or ls[1] is None or n[0] != "i":
            if ld is not None:
                self.havoc_base(st, ld[0], site + ("mc",))
            return
        n = n[1]
        for k in [k for k in st.mem if k[0] == ld[0] and
                  (isinstance(k[1], int) and ld[1] <= k[1] < ld[1] + n)]:
            del st.mem[k]
        new = {}
        for k, v in st.mem.items():
            if k[0] == ls[0] and isinstance(k[1], int) and ls[1] <= k[1] < ls[1] + n:
                new[(ld[0], ld[1] + k[1] - ls[1])] = v
        st.mem.update(new)
        sd = st.mem.get((ls[0], "*"))
        if ld[0][0] == "A":
            if sd is not None and ls[1] == ld[1]:
                st.mem[(ld[0], "*")] = sd
            else:
                st.mem[(ld[0], "*")] = (("gen", site + ("mc",)), None)

    def memset(self, st, args, site):
        d, v = args[0], args[1]
        ld = self.loc(d)
        if ld is None:
            return
        if ld[0][0] == "S" and len(args) > 2 and args[2][0] == "i" and isinstance(ld[1], int):
            for k in [k for k in st.mem if k[0] == ld[0] and isinstance(k[1], int) and
                      ld[1] <= k[1] < ld[1] + args[2][1]]:
                if v == ("i", 0):
                    st.mem[k] = (v, st.mem[k][1])
                else:
                    del st.mem[k]
            return
        for k in [k for k in st.mem if k[0] == ld[0]]:
            del st.mem[k]
        if v == ("i", 0) and ld[0][0] == "A":
            st.mem[(ld[0], "*")] = (("i", 0), None)
        elif ld[0][0] == "A":
            st.mem[(ld[0], "*")] = (("gen", site + ("ms",)), None)


def reaching(prog, eng, names):
    """functions that may (transitively) call one of the named functions"""
    rev = {}
    direct = set()
    for f in prog.functions():
        for c in f.calls():
            if c.callee[0] == "g" and c.callee[1] in names:
                direct.add(f)
            for g in eng.callees(c):
                rev.setdefault(g, set()).add(f)
    seen = set()
    st = list(direct)
    while st:
        f = st.pop()
        if f in seen:
            continue
        seen.add(f)
        st += rev.get(f, ())
    return seen
