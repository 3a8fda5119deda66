"""Symbolic interpreter for the Python subset used by the package.

It reads the package's current sources, so the text that is verified is the text that runs.
Values: Python numbers (floats as exact decimals), z3 scalars (mathematical reals and integers),
complex pairs, arrays as index functions with view semantics, objects, lists, strings.
Paths are explored by re-execution with decision lists; loops with symbolic bounds are replaced by
closed forms (loop invariants) that are derived from one symbolic iteration and then verified by
induction (initialisation and preservation obligations).
"""
import ast
import glob
import os
from fractions import Fraction

import z3

import solve as S
import terms as T_
from solve import (CNT, FIRST, Hyps, LAST, NTH, SUM, Univ, entails, fresh)
from terms import (B, Cx, I, R, RS, IS, Unsupported, T, conc, cx, deps, dsubst, isbool, isinf, isint, keep, num, ratio, s_add, s_and, s_cmp,
                   s_eq, s_ite, s_mul, s_neg, s_not, s_or, s_sub, simp, sym, vkey)

BOOL = z3.BoolSort()


# ----------------------------------------------------------------------------- control flow
class PyRaise(Exception):
    def __init__(self, name, msg=""):
        super().__init__(name, msg)
        self.name, self.msg = name, msg


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class PathDead(Exception):
    pass


EXC_PARENTS = {"ValueError": "Exception", "TypeError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception",
               "AssertionError": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "AttributeError": "Exception",
               "UnboundLocalError": "NameError", "NameError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
               "FloatingPointError": "ArithmeticError", "OverflowError": "ArithmeticError", "UserWarning": "Warning", "Warning": "Exception", "Exception": "BaseException"}


# ----------------------------------------------------------------------------- values
class Poison:
    """a value the verifier does not know (use is unsupported)"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Poison(%s)" % self.why


class Buf:
    __slots__ = ("fn", "shape", "dtype", "sel", "tag", "frozen", "owner")

    def __init__(self, shape, fn, dtype, sel=None):
        self.fn, self.shape, self.dtype, self.sel = T_.memo_clos(fn), tuple(shape), dtype, sel
        self.tag = None
        self.owner = None

    def state(self):
        return (self.fn, self.shape, self.dtype, self.sel, self.tag)

    def restore(self, s):
        self.fn, self.shape, self.dtype, self.sel, self.tag = s


class Arr:
    __slots__ = ("buf", "shape", "fwd", "inv")

    def __init__(self, buf, shape=None, fwd=None, inv=None):
        self.buf = buf
        self.shape = tuple(shape if shape is not None else buf.shape)
        self.fwd, self.inv = fwd, inv

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def sel(self):
        return self.buf.sel if self.fwd is None else None

    def content(self):
        """the current content as a pure index function"""
        fn, fwd = self.buf.fn, self.fwd
        if fwd is None:
            return fn
        return T_.memo_clos(lambda *ix: fn(*fwd(*ix)))

    def at(self, *ix):
        if self.fwd is not None:
            ix = self.fwd(*ix)
        return self.buf.fn(*ix)

    def __repr__(self):
        return "Arr%s%s" % (self.dtype, self.shape)


class PList:
    def __init__(self, items):
        self.items = list(items)

    def state(self):
        return list(self.items)

    def restore(self, s):
        self.items = list(s)


class SymList:
    """a list of symbolic length; not modified in place except by append (sel form)"""

    def __init__(self, arr):
        self.arr = arr

    def state(self):
        return self.arr

    def restore(self, s):
        self.arr = s


def freeze(v):
    """a container shared between calls (module level, class level, default argument): it may be read, not changed"""
    if isinstance(v, (PList, SymList, PDict)):
        v.frozen = True
        if isinstance(v, SymList):
            v.arr.buf.frozen = True
        for x in (v.items if isinstance(v, PList) else v.d.values() if isinstance(v, PDict) else ()):
            freeze(x)
    elif isinstance(v, Arr):
        v.buf.frozen = True
    elif isinstance(v, Inst):
        v.frozen = True
    elif isinstance(v, tuple):
        for x in v:
            freeze(x)
    return v


def thaw(o):
    if getattr(o, "frozen", False):
        raise Unsupported("a container shared between calls is changed")


class PDict:
    def __init__(self, d):
        self.d = dict(d)

    def state(self):
        return dict(self.d)

    def restore(self, s):
        self.d = dict(s)


class Inst:
    def __init__(self, cls):
        self.cls, self.attrs, self.havoc = cls, {}, {}

    def state(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = dict(s)


class Frame:
    def __init__(self, module, fname=""):
        self.vars, self.module, self.fname = {}, module, fname
        self.cls = None
        self.self_ = None
        self.parent = None

    def state(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = dict(s)


class FuncVal:
    def __init__(self, node, module, cls=None, closure=None):
        self.node, self.module, self.cls, self.closure = node, module, cls, closure
        self.name = getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        return "%s.%s" % (self.module.name.split(".")[-1], (self.cls.name + "." if self.cls else "") + self.name)


class Bound:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class ClassVal:
    def __init__(self, name, module, bases, methods, attrs):
        self.name, self.module, self.bases, self.methods, self.attrs = name, module, bases, methods, attrs

    def find(self, name):
        if name in self.methods:
            return self.methods[name]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.find(name)
                if r is not None:
                    return r
        return None

    def find_attr(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.find_attr(name)
                if r is not None:
                    return r
        return None


class ModuleVal:
    def __init__(self, name, tree, path):
        self.name, self.tree, self.path = name, tree, path
        self.env = None


class Ext:
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path


class ExtBound:
    """method of a library value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SymStr:
    """an unknown string: tests on it are boolean atoms"""

    def __init__(self, name, ops=()):
        self.name, self.ops = name, tuple(ops)

    def eq(self, s):
        # comparing after lower()/upper()/strip() chains
        nm = "str!%s!%s!%s" % (self.name, ".".join(self.ops), s)
        return keep(z3.Bool(nm))


class Opaque:
    def __init__(self, what):
        self.what = what


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class RangeVal:
    def __init__(self, start, n, step):
        self.start, self.n, self.step = start, n, step


class IterVal:
    """lazy iterable: length and item function"""

    def __init__(self, n, item):
        self.n, self.item = n, item


def isarr(v):
    return isinstance(v, Arr)


def isscal(v):
    return isinstance(v, (int, Fraction, float, bool, Cx)) or sym(v)


_ids = [0]


def number(v):
    return Fraction(repr(v)) if isinstance(v, float) and v == v and abs(v) != float("inf") else v


class Program:
    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        root = os.path.join(repo, "deltares_wave_toolbox")
        for p in sorted(glob.glob(root + "/**/*.py", recursive=True)):
            rel = os.path.relpath(p, repo)[:-3].replace(os.sep, ".")
            if rel.endswith(".__init__"):
                rel = rel[:-9]
            self.modules[rel] = ModuleVal(rel, ast.parse(open(p).read()), p)
        self.defs_ = None

    def defs(self):
        """the library functions given by definition"""
        if self.defs_ is None:
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "npdefs.py")
            self.defs_ = ModuleVal("npdefs", ast.parse(open(p).read()), p)
        return self.defs_


class Path:
    """result of one explored path"""

    def __init__(self, hyps, kind, value, extra=None):
        self.hyps, self.kind, self.value, self.extra = hyps, kind, value, extra


class Interp:
    MAXUNROLL = 64

    def __init__(self, program, contracts=None):
        self.prog = program
        self.contracts = contracts or {}
        self.hyps = Hyps()
        self.dec = []
        self.pos = 0
        self.alts = None
        self.heap = []
        self.depth = 0
        self.obls = []          # obligations raised while executing: (name, hyps, goal)
        self.used = {}          # functions executed: qual -> 'inlined' | 'contract'
        self.assumed = set()    # library contracts used
        self.npaths = 0
        self.loopno = 0
        self.loopconst = {}     # constants of loop analyses, per loop execution
        self.loopobls = {}      # loop invariants: name -> discharged
        self.verified = {}
        self.loopcache = {}
        self.ctx = ()
        self.pc = []
        self.denoms = []
        self.inline_only = set()
        import nplib
        self.lib = nplib.Lib(self)

    # ------------------------------------------------------------------ exploration
    def explore(self, run, limit=400):
        """all paths of run(); returns a list of Path"""
        save = (self.dec, self.pos, self.alts, self.hyps, self.heap, self.loopno, self.pc)
        base = self.hyps
        calls0 = list(self.lib.calls)
        heap0 = self.heap
        snap = [(o, o.state()) for o in heap0]
        out = []
        stack = [[]]
        try:
            while stack:
                d = stack.pop()
                self.dec, self.pos, self.alts, self.hyps = d, 0, [], base
                self.loopno, self.pc = save[5], []
                self.lib.calls = list(calls0)
                for o, s in snap:
                    o.restore(s)
                self.heap = list(heap0)
                try:
                    v = run()
                    out.append(Path(self.hyps, "return", v))
                except PyRaise as e:
                    out.append(Path(self.hyps, "raise", e))
                except ReturnSig as e:
                    out.append(Path(self.hyps, "ret", e.value))
                except BreakSig:
                    out.append(Path(self.hyps, "break", None))
                except ContinueSig:
                    out.append(Path(self.hyps, "continue", None))
                except PathDead:
                    pass
                self.npaths += 1
                if len(out) > limit:
                    raise Unsupported("more than %d paths" % limit)
                stack += self.alts
        finally:
            self.dec, self.pos, self.alts, self.hyps, self.heap, self.loopno, self.pc = save
            self.lib.calls = calls0
            for o, s in snap:
                o.restore(s)
        return out

    def decide(self, c):
        """truth value of a condition on this path"""
        if isinstance(c, SymStr):
            raise Unsupported("truth of a string")
        c = simp(c) if sym(c) else c
        if not sym(c):
            if isinstance(c, float):
                return bool(c)
            return bool(c)
        c = B(c)
        if self.pos < len(self.dec):
            v, forced = self.dec[self.pos]
            self.pos += 1
            if not forced:
                self.branch(c, v)
            return v
        if entails(self.hyps, c):
            v, forced = True, True
        elif entails(self.hyps, s_not(c)):
            v, forced = False, True
        else:
            v, forced = True, False
            if self.alts is None:
                raise Unsupported("undetermined condition outside of an exploration: %s" % str(c)[:200])
            self.alts.append(self.dec[:self.pos] + [(False, False)])
        self.dec = self.dec[:self.pos] + [(v, forced)]
        self.pos += 1
        if not forced:
            self.branch(c, v)
        return v

    def branch(self, c, v):
        d = c if v else simp(z3.Not(c))
        self.hyps = self.hyps.plus(d)
        self.pc = self.pc + [d]

    def known(self, c):
        """is c provable here (no branching)"""
        c = simp(c) if sym(c) else c
        if not sym(c):
            return bool(c)
        return entails(self.hyps, c)

    def assume(self, c):
        c = simp(c) if sym(c) else c
        if c is True:
            return
        if c is False:
            raise PathDead()
        self.hyps = self.hyps.plus(c)

    def reg(self, o):
        self.heap.append(o)
        return o

    # ------------------------------------------------------------------ arrays
    def new_arr(self, shape, fn, dtype, sel=None):
        b = Buf(shape, fn, dtype, sel)
        self.reg(b)
        return Arr(b)

    def sel_arr(self, n, p, g, dtype):
        """the values g(i) at the indices 0 <= i < n where p(i), in order"""
        p, g = T_.memo_clos(p), T_.memo_clos(g)
        c = CNT(n, p)
        return self.new_arr((c,), lambda r: g(NTH(r, p)), dtype, sel=(n, p, g))

    # ------------------------------------------------------------------ modules and names
    def module_env(self, m):
        if m.env is None:
            m.env = {}
            for st in m.tree.body:
                self.module_stmt(m, st)
        return m.env

    def module_stmt(self, m, st):
        env = m.env
        if isinstance(st, ast.Import):
            for a in st.names:
                tgt = a.name if a.asname else a.name.split(".")[0]
                env[a.asname or a.name.split(".")[0]] = self.import_(tgt)
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                if st.module == "__future__":
                    continue
                full = (st.module or "") + "." + a.name
                if st.level:
                    pkg = m.name.split(".")
                    if not m.path.endswith("__init__.py"):
                        pkg = pkg[:-1]
                    pkg = pkg[:len(pkg) - st.level + 1]
                    full = ".".join(pkg + ([st.module] if st.module else []) + [a.name])
                if full in self.prog.modules:
                    env[a.asname or a.name] = self.prog.modules[full]
                elif full.rsplit(".", 1)[0] in self.prog.modules:
                    env[a.asname or a.name] = ("lazy", self.prog.modules[full.rsplit(".", 1)[0]], a.name)
                else:
                    env[a.asname or a.name] = Ext(full)
        elif isinstance(st, ast.FunctionDef):
            env[st.name] = FuncVal(st, m)
            if st.decorator_list:
                env[st.name] = Poison("decorated function %s" % st.name)
        elif isinstance(st, ast.ClassDef):
            env[st.name] = ("class", st)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            tg = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in tg:
                if isinstance(t, ast.Name):
                    env[t.id] = ("lazyexpr", st.value)
                else:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            env[n.id] = Poison("module level assignment")
        elif isinstance(st, (ast.Expr, ast.Pass)):
            pass
        elif isinstance(st, ast.If):
            # e.g. TYPE_CHECKING
            for s in st.body + st.orelse:
                self.module_stmt(m, s)
        else:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    env[n.id] = Poison("module level statement")

    def import_(self, name):
        if name in self.prog.modules:
            return self.prog.modules[name]
        return Ext(name)

    def module_get(self, m, name):
        env = self.module_env(m)
        if name not in env:
            full = m.name + "." + name
            if full in self.prog.modules:
                return self.prog.modules[full]
            raise KeyError(name)
        v = env[name]
        if isinstance(v, tuple) and v and v[0] == "lazy":
            return self.module_get(v[1], v[2])
        if isinstance(v, tuple) and v and v[0] == "lazyexpr":
            fr = Frame(m, "<module>")
            return freeze(self.eval(v[1], fr))  # evaluated afresh at every use, so it must not be changed
        if isinstance(v, tuple) and v and v[0] == "class":
            env[name] = self.make_class(v[1], m)
            return env[name]
        return v

    def make_class(self, st, m):
        fr = Frame(m, "<class>")
        bases = [self.eval(b, fr) for b in st.bases]
        methods, attrs = {}, {}
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                kinds = [d.id for d in s.decorator_list if isinstance(d, ast.Name)]
                f = FuncVal(s, m)
                f.kind = kinds[0] if kinds else "method"
                if len(kinds) != len(s.decorator_list) or any(k not in ("staticmethod", "classmethod", "property") for k in kinds):
                    f = Poison("decorated method %s" % s.name)
                methods[s.name] = f
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                attrs[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                attrs[s.target.id] = s.value
        c = ClassVal(st.name, m, bases, methods, attrs)
        for f in methods.values():
            if isinstance(f, FuncVal):
                f.cls = c
        return c

    BUILTINS = {"len", "abs", "min", "max", "sum", "range", "int", "float", "bool", "str", "isinstance", "enumerate", "zip", "round", "list", "tuple",
                "all", "any", "print", "hasattr", "getattr", "type", "sorted", "reversed", "map", "filter", "complex", "pow", "divmod", "repr", "setattr", "dict", "id", "slice", "callable", "set", "iter", "next"}

    def name(self, nm, fr):
        f = fr
        while f is not None:
            if nm in f.vars:
                v = f.vars[nm]
                if isinstance(v, Poison):
                    raise Unsupported("value of %s: %s" % (nm, v.why))
                return v
            if f.parent is None and nm in getattr(f, "locals", ()):
                raise PyRaise("UnboundLocalError", nm)
            f = f.parent
        try:
            v = self.module_get(fr.module, nm)
            if isinstance(v, Poison):
                raise Unsupported("value of %s: %s" % (nm, v.why))
            return v
        except KeyError:
            pass
        if nm in self.BUILTINS:
            return Ext("builtins." + nm)
        if nm == "super":
            return Ext("builtins.super")
        if nm in EXC_PARENTS or nm in ("UserWarning", "RuntimeWarning", "DeprecationWarning", "FutureWarning"):
            return Ext("builtins." + nm)
        if nm in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[nm]
        raise PyRaise("NameError", nm)

    # ------------------------------------------------------------------ calls
    def func(self, dotted):
        """module function by short dotted name, e.g. core_time.sort_wave_params or series.Series"""
        mod, nm = dotted.rsplit(".", 1)
        for full, m in self.prog.modules.items():
            if full == mod or full.endswith("." + mod):
                try:
                    return self.module_get(m, nm)
                except KeyError:
                    raise Unsupported("%s does not exist" % dotted)
        raise Unsupported("module %s does not exist" % mod)

    def call(self, f, args=(), kw=None):
        kw = kw or {}
        if isinstance(f, FuncVal):
            return self.call_func(f, list(args), kw)
        if isinstance(f, Bound):
            return self.call_func(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, ClassVal):
            o = self.reg(Inst(f))
            init = f.find("__init__")
            if init is not None:
                self.call_func(init, [o] + list(args), kw)
            return o
        if isinstance(f, Ext):
            return self.lib.call(f.path, list(args), kw)
        if isinstance(f, ExtBound):
            return self.lib.method(f.obj, f.name, list(args), kw)
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        raise Unsupported("call of %r" % (f,))

    def call_func(self, f, args, kw):
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        q = f.qual
        if q in self.contracts and q not in self.inline_only:
            c = self.contracts[q]
            b = self.bind(f, args, kw)
            r = c(self, b)
            if r is not NotImplemented:
                self.used[q] = "contract"
                return r
        self.used.setdefault(q, "inlined")
        self.depth += 1
        if self.depth > 30:
            self.depth -= 1
            raise Unsupported("recursion")
        try:
            fr = Frame(f.module, f.name)
            self.reg(fr)
            fr.cls = f.cls
            fr.parent = f.closure
            fr.vars.update(self.bind(f, args, kw))
            if f.cls and getattr(f, "kind", "method") == "method" and args:
                fr.self_ = args[0]
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            fr.locals = local_names(f.node)
            try:
                self.block(f.node.body, fr)
            except ReturnSig as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names):
            if not a.vararg:
                raise PyRaise("TypeError", "too many arguments")
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in out and k in names:
                raise PyRaise("TypeError", "multiple values for %s" % k)
            if k in names or k in kwonly:
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise("TypeError", "unexpected argument %s" % k)
        if a.kwarg:
            out[a.kwarg.arg] = self.reg(PDict(extra))
        fr = Frame(f.module, f.name)
        fr.parent = f.closure
        for n, d in zip(reversed(names), reversed(a.defaults)):
            if n not in out:
                out[n] = freeze(self.eval(d, fr))
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in out and d is not None:
                out[n] = freeze(self.eval(d, fr))
        for n in names + kwonly:
            if n not in out:
                raise PyRaise("TypeError", "missing argument %s" % n)
        return out

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        if S.DEADLINE[0] and S.time.time() > S.DEADLINE[0]:
            raise S.OutOfTime()
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(s).__name__, s.lineno))
        m(s, fr)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Global(self, s, fr):
        raise Unsupported("global statement")

    def st_Import(self, s, fr):
        for a in s.names:
            fr.vars[a.asname or a.name.split(".")[0]] = self.import_(a.name if a.asname else a.name.split(".")[0])

    def st_ImportFrom(self, s, fr):
        for a in s.names:
            full = (s.module or "") + "." + a.name
            if full in self.prog.modules:
                fr.vars[a.asname or a.name] = self.prog.modules[full]
            elif s.module in self.prog.modules:
                fr.vars[a.asname or a.name] = self.module_get(self.prog.modules[s.module], a.name)
            else:
                fr.vars[a.asname or a.name] = Ext(full)

    def st_FunctionDef(self, s, fr):
        fr.vars[s.name] = FuncVal(s, fr.module, None, fr) if not s.decorator_list else Poison("decorator")

    def st_Return(self, s, fr):
        raise ReturnSig(self.eval(s.value, fr) if s.value is not None else None)

    def st_Raise(self, s, fr):
        if s.exc is None:
            raise Unsupported("re-raise")
        e = s.exc
        name = None
        if isinstance(e, ast.Call):
            f = self.eval(e.func, fr)
        else:
            f = self.eval(e, fr)
        if isinstance(f, Ext):
            name = f.path.split(".")[-1]
        elif isinstance(f, ClassVal):
            name = f.name
        raise PyRaise(name or "Exception")

    def st_Assert(self, s, fr):
        if not self.decide(self.truth(self.eval(s.test, fr))):
            raise PyRaise("AssertionError")

    def st_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr)
            v = self.eval(s.value, fr)
            if isarr(old):
                self.lib.inplace(old, type(s.op).__name__, v)
                return
            if isinstance(old, PList) and isinstance(s.op, ast.Add):
                old.items += self.lib.concrete_items(v)
                return
            fr.vars[t.id] = self.binop(type(s.op).__name__, old, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            v = self.eval(s.value, fr)
            if isarr(old):
                self.lib.inplace(old, type(s.op).__name__, v)
                return
            self.setattr(o, t.attr, self.binop(type(s.op).__name__, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            ix = self.index(t.slice, fr)
            old = self.lib.getitem(o, ix)
            v = self.eval(s.value, fr)
            self.lib.setitem(o, ix, self.binop(type(s.op).__name__, old, v))
        else:
            raise Unsupported("augmented assignment")

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute) and isinstance(fr.vars.get(getattr(t.value, "id", None)), Inst) and not fr.vars[t.value.id].havoc:
                o = fr.vars[t.value.id]
                thaw(o)
                if o.attrs.pop(t.attr, self) is self:
                    raise PyRaise("AttributeError", t.attr)
            else:
                raise Unsupported("del")

    def st_If(self, s, fr):
        if self.decide(self.truth(self.eval(s.test, fr))):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def st_Break(self, s, fr):
        raise BreakSig()

    def st_Continue(self, s, fr):
        raise ContinueSig()

    def st_With(self, s, fr):
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            if not (isinstance(v, Opaque) and v.what in ("errstate", "catch_warnings")):
                raise Unsupported("with statement")
            if it.optional_vars is not None:
                raise Unsupported("with ... as")
        self.block(s.body, fr)

    def st_Try(self, s, fr):
        if s.finalbody:
            try:
                self.st_Try(ast.Try(s.body, s.handlers, s.orelse, []), fr)
            except (PyRaise, ReturnSig, BreakSig, ContinueSig):
                self.block(s.finalbody, fr)
                raise
            self.block(s.finalbody, fr)
            return
        try:
            self.block(s.body, fr)
        except PyRaise as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ["BaseException"]
                else:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    for t in ts:
                        v = self.eval(t, fr)
                        names.append(v.path.split(".")[-1] if isinstance(v, Ext) else v.name if isinstance(v, ClassVal) else "?")
                n = e.name
                while n is not None:
                    if n in names:
                        if h.name:
                            fr.vars[h.name] = Opaque("exception")
                        self.block(h.body, fr)
                        return
                    n = EXC_PARENTS.get(n)
            raise
        self.block(s.orelse, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.lib.unpack(v, len(t.elts), [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.lib.setitem(o, self.index(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            thaw(o)
            o.attrs[name] = v
            return
        if isinstance(o, FuncVal) or isinstance(o, ClassVal) or isinstance(o, ModuleVal):
            raise Unsupported("attribute store on a function, class or module")
        raise Unsupported("attribute store on %r" % (o,))

    # ------------------------------------------------------------------ loops
    def st_For(self, s, fr):
        it = self.eval(s.iter, fr)
        n, item = self.lib.iterate(it)
        cn = simp(n) if sym(n) else n
        if not sym(cn) and cn <= self.MAXUNROLL:
            broke = False
            for i in range(int(cn)):
                self.assign(s.target, item(i), fr)
                try:
                    self.block(s.body, fr)
                except ContinueSig:
                    continue
                except BreakSig:
                    broke = True
                    break
            if not broke:
                self.block(s.orelse, fr)
            return
        import loops
        loops.for_loop(self, s, fr, n, item)

    def st_While(self, s, fr):
        # a loop whose condition stays concrete is unrolled
        import loops
        loops.while_loop(self, s, fr)

    # ------------------------------------------------------------------ expressions
    def truth(self, v):
        if isscal(v):
            if isinstance(v, Cx):
                return s_or(s_not(s_eq(v.re, 0)), s_not(s_eq(v.im, 0)))
            if isinstance(v, bool) or isinstance(v, float):
                return bool(v)
            if sym(v) and v.sort() == BOOL:
                return v
            return s_not(s_eq(v, 0))
        if v is None:
            return False
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, PList):
            return bool(v.items)
        if isinstance(v, PDict):
            return bool(v.d)
        if isinstance(v, SymList):
            return s_cmp(">", v.arr.shape[0], 0)
        if isarr(v):
            if v.ndim == 0:
                return self.truth(v.at())
            size = self.lib.size(v)
            if self.decide(s_eq(size, 1)):
                return self.truth(v.at(*[0] * v.ndim))
            if self.decide(s_eq(size, 0)):
                return False
            raise PyRaise("ValueError", "truth value of an array")
        if isinstance(v, (Inst, FuncVal, ClassVal, ModuleVal, Ext, Bound, Opaque)):
            return True
        raise Unsupported("truth of %r" % (v,))

    def eval(self, e, fr):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def ex_Constant(self, e, fr):
        v = e.value
        if isinstance(v, complex):
            return Cx(number(v.real), number(v.imag))
        if isinstance(v, float):
            return number(v)
        if v is Ellipsis:
            return Ellipsis
        return v

    def ex_JoinedStr(self, e, fr):
        return "<formatted>"

    def ex_Name(self, e, fr):
        return self.name(e.id, fr)

    def ex_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.lib.concrete_items(self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def ex_List(self, e, fr):
        return self.reg(PList(self.ex_Tuple(e, fr)))

    def ex_Dict(self, e, fr):
        return self.reg(PDict({self.eval(k, fr): self.eval(v, fr) for k, v in zip(e.keys, e.values)}))

    def ex_Set(self, e, fr):
        return tuple(self.ex_Tuple(e, fr))

    def ex_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def getattr(self, o, name):
        if isinstance(o, ModuleVal):
            try:
                v = self.module_get(o, name)
            except KeyError:
                raise PyRaise("AttributeError", name)
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if isinstance(o, Ext):
            return self.lib.extattr(o, name)
        if isinstance(o, Inst):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported("attribute %s: %s" % (name, v.why))
                return v
            if name in o.havoc:
                # left by an unknown history: some value, or (if so declared) what the constructor gave, or nothing
                present, val, first = o.havoc[name]
                if self.decide(present):
                    return val
                if first is not None:
                    return first[0]
            f = o.cls.find(name)
            if f is not None:
                if isinstance(f, Poison):
                    raise Unsupported(f.why)
                k = getattr(f, "kind", "method")
                if k == "staticmethod":
                    return f
                if k == "classmethod":
                    return Bound(o.cls, f)
                if k == "property":
                    return self.call_func(f, [o], {})
                return Bound(o, f)
            a = o.cls.find_attr(name)
            if a is not None:
                return freeze(self.eval(a, Frame(o.cls.module)))
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            raise PyRaise("AttributeError", name)
        if isinstance(o, ClassVal):
            f = o.find(name)
            if f is not None:
                return Bound(o, f) if getattr(f, "kind", "") == "classmethod" else f
            a = o.find_attr(name)
            if a is not None:
                return freeze(self.eval(a, Frame(o.module)))
            if name == "__name__":
                return o.name
            raise PyRaise("AttributeError", name)
        if isinstance(o, SuperVal):
            for b in o.cls.bases:
                if isinstance(b, ClassVal):
                    f = b.find(name)
                    if f is not None:
                        return Bound(o.obj, f)
            raise PyRaise("AttributeError", name)
        return self.lib.attr(o, name)

    def ex_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.vars:
            f = fr
            while f is not None and f.self_ is None:
                f = f.parent
            if f is None:
                raise Unsupported("super()")
            return SuperVal(f.cls, f.self_)
        f = self.eval(e.func, fr)
        if isinstance(f, Ext) and f.path == "builtins.next" and e.args and isinstance(e.args[0], ast.GeneratorExp) and not e.keywords:
            return self.call(self.module_get(self.prog.defs(), "first_of"), [self.eval(a, fr) for a in e.args])
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.lib.concrete_items(self.eval(a.value, fr))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if not isinstance(v, PDict):
                    raise Unsupported("** argument")
                kw.update(v.d)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def ex_Lambda(self, e, fr):
        return FuncVal(e, fr.module, None, fr)

    def ex_IfExp(self, e, fr):
        return self.eval(e.body if self.decide(self.truth(self.eval(e.test, fr))) else e.orelse, fr)

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        last = None
        for i, x in enumerate(e.values):
            last = self.eval(x, fr)
            if i == len(e.values) - 1:
                return last
            t = self.decide(self.truth(last))
            if isand and not t:
                return last if not sym(last) else False
            if not isand and t:
                return last if not sym(last) or last.sort() != BOOL else True
        return last

    def ex_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        k = type(e.op).__name__
        if k == "Not":
            return s_not(self.truth(v))
        return self.lib.unary(k, v)

    def ex_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(op, a, b)

    CMP = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}

    def ex_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            v = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            if k < len(e.ops) - 1:
                if not self.decide(self.truth(v)):
                    return False
            res = v
            left = right
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            if a is None or b is None:
                r = a is b
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isbool(a) and isbool(b):
                r = s_eq(a, b)
            elif isinstance(a, (Inst, Arr)) or isinstance(b, (Inst, Arr)):
                r = a is b
                if not r and isarr(a) and isarr(b) and a.buf is b.buf:
                    raise Unsupported("identity of views")
            elif isinstance(a, str) and isinstance(b, str):
                r = a == b
            else:
                r = a is b
            return r if op == "Is" else s_not(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else s_not(r)
        return self.lib.compare(self.CMP[op], a, b)

    def contains(self, coll, x):
        if isinstance(coll, PList):
            coll = tuple(coll.items)
        if isinstance(coll, PDict):
            return self.lib.dkey(coll, x) is not None
        if isinstance(coll, str):
            if isinstance(x, str):
                return x in coll
            raise Unsupported("in string")
        if isinstance(coll, tuple):
            return s_or(*[self.truth(self.lib.compare("==", x, c)) for c in coll])
        raise Unsupported("in")

    def ex_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(o, (Ext, ClassVal)):
            return Opaque("type")
        return self.lib.getitem(o, self.index(e.slice, fr))

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return Slice(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def ex_Slice(self, e, fr):
        return self.index(e, fr)

    def ex_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        fr.vars[e.target.id] = v
        return v

    def comp(self, e, fr, elt):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        n, item = self.lib.iterate(self.eval(g.iter, fr))
        cn = simp(n) if sym(n) else n
        sub = Frame(fr.module, fr.fname)
        sub.parent = fr
        sub.cls, sub.self_ = fr.cls, fr.self_
        self.reg(sub)
        if not sym(cn) and cn <= self.MAXUNROLL:
            out = []
            for i in range(int(cn)):
                self.assign(g.target, item(i), sub)
                if all(self.decide(self.truth(self.eval(c, sub))) for c in g.ifs):
                    out.append(self.eval(elt, sub))
            return self.reg(PList(out))
        import loops
        return loops.comprehension(self, g, elt, sub, n, item)

    def map_over(self, f, coll):
        """[f(x) for x in coll], by the rules of a comprehension"""
        if not hasattr(self, "_map_ast"):
            self._map_ast = ast.parse("[f(x) for x in xs]", mode="eval").body
        m = next((x.module for x in (f, getattr(f, "fn", None)) if hasattr(x, "module")), None)
        fr = Frame(m, "map")
        self.reg(fr)
        self.assign(ast.Name("f", ast.Store()), f, fr)
        self.assign(ast.Name("xs", ast.Store()), coll, fr)
        return self.comp(self._map_ast, fr, self._map_ast.elt)

    def ex_ListComp(self, e, fr):
        return self.comp(e, fr, e.elt)

    def ex_GeneratorExp(self, e, fr):
        return self.comp(e, fr, e.elt)

    def ex_Starred(self, e, fr):
        raise Unsupported("starred expression")


_ln = {}


def local_names(node):
    r = _ln.get(id(node))
    if r is None:
        out = set()
        glob_ = set()

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    out.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    out.add(c.id)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    for a in c.names:
                        out.add(a.asname or a.name.split(".")[0])
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    glob_.update(c.names)
                walk(c)
        walk(node)
        r = frozenset(out - glob_)
        _ln[id(node)] = (r, node)
        return r
    return r[0]
