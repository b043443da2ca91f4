"""Symbolic interpreter of the real Python source (CPython AST of /repo's files).

Nothing is transcribed: each run parses the current files of /repo and executes
their statements symbolically; loops with symbolic trip counts are summarised in
loops.py, numpy calls are mapped onto the contracts in npmodel.py.
"""
import ast
import builtins
import functools
import os
import types as _types
import z3
from .values import *
from .values import norm_bool
from . import ops as O
from . import prover as P
from . import arrays as A
from .arrays import Arr, Masked
from .state import ctx, Infeasible

REPO = os.environ.get('VERIF_REPO', '/repo')


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Poison:
    """value of a variable that the verifier does not track any further"""
    def __init__(self, why):
        self.why = why


class Unbound:
    pass


UNBOUND = Unbound()


class CarryProbe:
    """placeholder for a scalar at the start of a loop iteration"""
    def __init__(self, frame, name):
        self.frame, self.name = frame, name


class StrSym(str):
    """string built from symbolic values; content unknown"""


# ---------------------------------------------------------------- environment
class Env:
    def __init__(self, module, parent=None):
        self.vars = {}
        self.module, self.parent = module, parent

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, CarryProbe):
                    v.frame.need_carry(v.name)
                if isinstance(v, Poison):
                    raise Unsupported('variable %s: %s' % (name, v.why))
                if v is not UNBOUND:
                    return v
                raise SymRaise('UnboundLocalError', name)
            e = e.parent
        return self.module.get(name)

    def assign(self, name, v):
        self.vars[name] = v


class Marker:
    """decorators & other inert things"""
    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)


class PyFunc:
    def __init__(self, node, env, module, qual):
        self.node, self.env, self.module, self.qual = node, env, module, qual
        self.jit = self.parallel = False
        self.defaults, self.kwdefaults = [], {}
        self.attrs = {}
        self.bound = None
        self.__name__ = self.qualname = getattr(node, 'name', '<lambda>')

    def __call__(self, *args, **kw):
        return INTERP.call_pyfunc(self, args, kw)

    def bind(self, obj):
        f = PyFunc(self.node, self.env, self.module, self.qual)
        f.__dict__.update(self.__dict__)
        f.bound = obj
        return f

    def __repr__(self):
        return 'PyFunc(%s)' % self.qual


class PyClass:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.__name__ = name

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, PyClass):
                out += [c for c in b.mro() if c not in out]
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def __call__(self, *args, **kw):
        obj = PyObj(self)
        init = self.find('__init__')
        if init is not None:
            init.bind(obj)(*args, **kw)
        return obj

    def __repr__(self):
        return '<class %s>' % self.name


class PyObj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.birth = len(ctx.frames)

    def __call__(self, *args, **kw):
        f = self.cls.find('__call__')
        if f is None:
            raise SymRaise('TypeError', 'not callable')
        return f.bind(self)(*args, **kw)

    def __repr__(self):
        return '<%s object>' % self.cls.name


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class SymRange:
    def __init__(self, a, b, step, par=False):
        self.a, self.b, self.step, self.par = a, b, step, par


class SymSeq:
    """list of symbolic length with elements fn(i)"""
    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class Zip:
    def __init__(self, parts):
        self.parts = parts


class Enum:
    def __init__(self, it, start):
        self.it, self.start = it, start


# ---------------------------------------------------------------- modules
class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.vars = {'__name__': name, '__file__': path}
        self.binders = {}
        self.running = set()
        for st in self.tree.body:
            for n in bound_names(st):
                self.binders.setdefault(n, []).append(st)

    def get(self, name):
        if name in self.vars:
            return self.vars[name]
        if name in self.binders and name not in self.running:
            self.running.add(name)
            try:
                env = Env(self)
                env.vars = self.vars
                for st in self.binders[name]:
                    INTERP.exec_stmt(st, env)
            finally:
                self.running.discard(name)
            if name in self.vars:
                return self.vars[name]
        if name in BUILTINS:
            return BUILTINS[name]
        raise SymRaise('NameError', "name '%s' is not defined" % name)

    def has(self, name):
        return name in self.vars or name in self.binders


def bound_names(st):
    out = set()
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return {st.name}
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name == '*':
                    continue
                out.add((a.asname or a.name.split('.')[0]))
    return out


PURE = (ast.Name, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp,
        ast.Load, ast.cmpop, ast.boolop, ast.unaryop, ast.operator)


def is_pure(node):
    for n in ast.walk(node):
        if not isinstance(n, PURE):
            return False
        if isinstance(n, ast.BinOp) and not isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            return False
    return True


def has_z3(k):
    return is_z3(k) or isinstance(k, tuple) and any(has_z3(x) for x in k)


def key_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = b_and(r, key_eq(x, y))
            if r is False:
                return False
        return r
    if is_z3(a) or is_z3(b):
        if isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)) or a is None or b is None:
            return False
        return O.eq(a, b)
    try:
        return bool(a == b)
    except TypeError:
        return a is b


def stored_key(d, key):
    """the key of a container equal to `key` (values of symbolic keys are told apart by cases)"""
    for k in list(d):
        if has_z3(k) or has_z3(key):
            c = norm_bool(key_eq(k, key))
            if c is True or (c is not False and ctx.branch(c)):
                return k
    return key


class Interp:
    def __init__(self):
        self.reset()

    def reset(self):
        self.modules = {}
        self.stubs = {}         # qualified name -> python callable (contract)
        self.calls = {}         # functions actually interpreted: qual -> count
        self.environ = {'SSQ_PARALLEL': '0', 'SSQ_GPU': '0'}
        self.max_unroll = 40
        self.depth = 0
        self.mutable_new = {}   # ids of containers created inside symbolic loops
        self.call_hook = None

    def fresh_run(self):
        """new modules state for a fresh exploration path"""
        for m in self.modules.values():
            m.vars = {'__name__': m.name, '__file__': m.path}
        self.depth = 0
        self.mutable_new = {}

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name not in self.modules:
            rel = name.split('.')
            p = os.path.join(REPO, *rel)
            if os.path.isdir(p):
                path = os.path.join(p, '__init__.py')
            else:
                path = p + '.py'
            if not os.path.exists(path):
                raise SymRaise('ImportError', name)
            self.modules[name] = Module(name, path)
        return self.modules[name]

    def func(self, dotted):
        """'ssqueezepy.algos:phase_cwt_cpu' -> PyFunc"""
        m, q = dotted.split(':')
        v = self.module(m).get(q.split('.')[0])
        for part in q.split('.')[1:]:
            v = self.getattr(v, part)
        return v

    def defines(self, m, q):
        """the source of module m (or one it imports names from) defines q"""
        path = os.path.join(REPO, *m.split('.'))
        for f in (path + '.py', os.path.join(path, '__init__.py')):
            if os.path.exists(f):
                last = q.split('.')[-1]
                return any(getattr(n, 'name', None) == last or getattr(n, 'id', None) == last
                           or getattr(n, 'asname', None) == last
                           for n in ast.walk(ast.parse(open(f).read())))
        return False

    def import_from(self, module, level, modname):
        """resolve `from <..modname> import` -> Module or model object"""
        if level:
            base = module.name.split('.')
            is_pkg = module.path.endswith('__init__.py')
            up = level - (1 if is_pkg else 0)
            if up:
                base = base[:-up]
            full = '.'.join(base + ([modname] if modname else []))
            return full
        return modname

    def is_repo_module(self, full):
        p = os.path.join(REPO, *full.split('.'))
        return full.split('.')[0] == 'ssqueezepy' and (
            os.path.isdir(p) or os.path.exists(p + '.py'))

    # ---------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        prev = ctx.node
        ctx.node = st
        try:
            m(st, env)
        finally:
            ctx.node = prev

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Import(self, st, env):
        for a in st.names:
            v = self.import_module(a.name)
            if a.asname:
                env.assign(a.asname, v)
            else:
                env.assign(a.name.split('.')[0],
                           self.import_module(a.name.split('.')[0]))

    def import_module(self, name):
        if self.is_repo_module(name):
            return self.module(name)
        from . import npmodel
        return npmodel.external(name)

    def x_ImportFrom(self, st, env):
        full = self.import_from(env.module, st.level, st.module)
        for a in st.names:
            nm = a.asname or a.name
            if self.is_repo_module(full):
                if a.name == '*':
                    raise Unsupported('import *')
                sub = full + '.' + a.name
                m = self.module(full)
                if m.has(a.name) and not (m is env.module):
                    v = m.get(a.name)
                elif self.is_repo_module(sub):
                    v = self.module(sub)
                else:
                    v = self.star_lookup(m, a.name)
                env.assign(nm, v)
            else:
                from . import npmodel
                mod = npmodel.external(full)
                if a.name == '*':
                    raise Unsupported('import *')
                env.assign(nm, self.getattr(mod, a.name))

    def star_lookup(self, m, name):
        """name imported through `from .x import *` in module m"""
        for st in ast.walk(m.tree):
            if isinstance(st, ast.ImportFrom) and any(a.name == '*' for a in st.names):
                full = self.import_from(m, st.level, st.module)
                if self.is_repo_module(full):
                    mm = self.module(full)
                    if mm.has(name):
                        return mm.get(name)
        raise SymRaise('ImportError', 'cannot import name %s from %s' % (name, m.name))

    def x_FunctionDef(self, st, env):
        f = self.make_func(st, env, st.name)
        for d in reversed(st.decorator_list):
            f = self.decorate(f, d, env)
        env.assign(st.name, f)

    def make_func(self, node, env, name):
        module = env.module
        qual = module.name + ':' + name
        if env.parent is not None or env.vars is not module.vars:
            qual = module.name + ':' + getattr(env, 'qual', '') + name
        cl = env
        while cl is not None and getattr(cl, 'is_class', False):
            cl = cl.parent
        f = PyFunc(node, cl if cl is not None and cl.vars is not module.vars else None,
                   module, qual)
        a = node.args
        f.defaults = [self.eval(d, env) for d in a.defaults]
        f.kwdefaults = {k.arg: (self.eval(d, env) if d is not None else UNBOUND)
                        for k, d in zip(a.kwonlyargs, a.kw_defaults)}
        own = getattr(node, 'name', '<lambda>')
        if getattr(env, 'is_class', False):
            f.qualname = getattr(env, 'qual', '') + own
        else:
            up = getattr(env, 'func', None)
            f.qualname = up.qualname + '.<locals>.' + own if up is not None else own
        return f

    def decorate(self, f, d, env):
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            prop = env.vars[d.value.id]
            return Prop(prop.fget, f)
        v = self.eval(d, env)
        if isinstance(v, Marker):
            if v.name == 'jit':
                f.jit = True
                f.parallel = getattr(v, 'parallel', False)
                return f
            if v.name == 'property':
                return Prop(f)
            if v.name in ('classmethod', 'staticmethod'):
                f.kind = v.name
                f.attrs['kind'] = v.name
                return f
            if v.name == 'identity':
                return f
        return self.call(v, [f], {})

    def x_ClassDef(self, st, env):
        cenv = Env(env.module, env if env.vars is not env.module.vars else None)
        cenv.qual = st.name + '.'
        cenv.is_class = True
        bases = [self.eval(b, env) for b in st.bases]
        self.exec_block(st.body, cenv)
        env.assign(st.name, PyClass(st.name, bases, cenv.vars, env.module))

    def x_Return(self, st, env):
        raise Return(self.eval(st.value, env) if st.value else None)

    def x_Break(self, st, env):
        raise Break()

    def x_Continue(self, st, env):
        raise Continue()

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                self.check_mutable(o)
                del o[self.eval(t.slice, env)]
            else:
                raise Unsupported('del')

    def x_Global(self, st, env):
        raise Unsupported('global')

    def x_Nonlocal(self, st, env):
        raise Unsupported('nonlocal')

    def x_Assert(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if not ctx.branch(c):
            raise SymRaise('AssertionError', 'assert at line %d' % st.lineno, st)

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(env, 'handling', None)
            if cur is None:
                raise Unsupported('bare raise')
            raise cur
        node = st.exc
        name = None
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            name = node.func.id
        elif isinstance(node, ast.Name):
            name = node.id
        if name is not None:
            try:                        # the class may be held in a variable
                v = self.eval(node.func if isinstance(node, ast.Call) else node, env)
                if isinstance(v, type) and issubclass(v, BaseException):
                    name = v.__name__
                elif isinstance(v, SymRaise):
                    raise v
            except SymRaise as ex:
                if ex.cls != 'NameError':
                    raise
        raise SymRaise(name or 'Exception', 'line %d' % st.lineno, st)

    def x_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except SymRaise as e:
                for h in st.handlers:
                    if self.matches(e, h.type, env):
                        if h.name:
                            env.assign(h.name, Marker('exc', msg=e.msg))
                        prev = getattr(env, 'handling', None)
                        env.handling = e
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            env.handling = prev
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (SymRaise, Return, Break, Continue):
            self.exec_block(st.finalbody, env)
            raise
        else:
            self.exec_block(st.finalbody, env)

    def matches(self, e, typ, env):
        if typ is None:
            return True
        names = [n.id for n in (typ.elts if isinstance(typ, ast.Tuple) else [typ])
                 if isinstance(n, ast.Name)]
        cls = getattr(builtins, e.cls, Exception)
        for n in names:
            h = getattr(builtins, n, None)
            if h is not None and isinstance(cls, type) and issubclass(cls, h):
                return True
            if n == e.cls:
                return True
        return False

    def x_With(self, st, env):
        for it in st.items:
            cm = self.eval(it.context_expr, env)
            if hasattr(cm, 'read'):        # an open file
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, cm, env)
            elif isinstance(cm, Marker) and cm.name == 'nullcontext':
                pass
            else:
                raise Unsupported('with %r' % (cm,))
        self.exec_block(st.body, env)

    def x_If(self, st, env):
        c = self.truth(self.eval(st.test, env))
        if ctx.branch(c):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_While(self, st, env):
        n = 0
        while True:
            c = self.truth(self.eval(st.test, env))
            if not ctx.branch(c):
                break
            n += 1
            if n > self.max_unroll:
                raise Unsupported('while loop without a bound')
            try:
                self.exec_block(st.body, env)
            except Break:
                return
            except Continue:
                pass
        self.exec_block(st.orelse, env)

    def x_For(self, st, env):
        it = self.eval(st.iter, env)
        from . import loops
        items = loops.concrete_items(it, self.max_unroll)
        if items is not None:
            for v in items:
                self.assign(st.target, v, env)
                try:
                    self.exec_block(st.body, env)
                except Break:
                    return
                except Continue:
                    continue
            self.exec_block(st.orelse, env)
            return
        loops.symbolic_for(self, st, it, env)
        self.exec_block(st.orelse, env)

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.assign(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, list(vals[i:len(vals) - after]), env)
                if after:
                    for e, x in zip(t.elts[i + 1:], vals[-after:]):
                        self.assign(e, x, env)
                return
            if len(vals) != len(t.elts):
                raise SymRaise('ValueError', 'unpack %d values into %d' % (
                    len(vals), len(t.elts)))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, Arr):
            n = v.shape[0]
            if not isinstance(n, int):
                raise Unsupported('unpacking array of symbolic length')
            return [A.getitem(v, i) for i in range(n)]
        if isinstance(v, (dict, set)) or hasattr(v, '__iter__') and not is_z3(v):
            return list(v)
        raise Unsupported('unpack %r' % (v,))

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = env.lookup(t.id)
            rhs = self.eval(st.value, env)
            if isinstance(cur, Arr) and cur.ndim > 0:
                self.inplace(cur, st.op, rhs)
                env.assign(t.id, cur)
            elif isinstance(cur, list) and isinstance(st.op, ast.Add):
                self.check_mutable(cur)
                cur.extend(rhs)
            else:
                env.assign(t.id, self.binop(st.op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            key = self.eval_index(t.slice, env)
            cur = self.getitem(o, key)
            rhs = self.eval(st.value, env)
            if isinstance(cur, Arr) and cur.ndim > 0:
                kind = A.index_view(o, key)[0] if isinstance(o, Arr) else 'obj'
                if kind == 'fancy':
                    self.setitem(o, key, self.binop(st.op, cur, rhs))
                else:
                    self.inplace(cur, st.op, rhs)
            else:
                self.setitem(o, key, self.binop(st.op, cur, rhs))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            rhs = self.eval(st.value, env)
            if isinstance(cur, Arr) and cur.ndim > 0:
                self.inplace(cur, st.op, rhs)
            else:
                self.setattr(o, t.attr, self.binop(st.op, cur, rhs))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, arr, op, rhs):
        r = self.binop(op, arr, rhs)
        if isinstance(r, Arr) and r.dtype.kind == 'c' and arr.dtype.kind != 'c':
            raise SymRaise('TypeError', 'in-place cast complex to real')
        if isinstance(r, Arr) and r.dtype.kind == 'f' and arr.dtype.kind in 'ib':
            raise SymRaise('TypeError', 'in-place cast float to int')
        A.setitem(arr, Ellipsis, r)

    # --------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return env.lookup(e.id)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.new(list(self.elts(e.elts, env)))

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.unpack(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env))
            else:
                d[self.eval(k, env)] = self.eval(v, env)
        return self.new(d)

    def new(self, obj):
        if ctx.frames:
            self.mutable_new[id(obj)] = obj
        return obj

    def check_mutable(self, obj):
        if ctx.frames and id(obj) not in self.mutable_new and not (
                isinstance(obj, PyObj) and obj.birth >= len(ctx.frames)):
            raise Unsupported('container mutated inside a symbolic loop')

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        c = norm_bool(c)
        if not isinstance(c, bool) and is_pure(e.body) and is_pure(e.orelse):
            c = ctx.simplify_cond(c)
            if not isinstance(c, bool):
                a, b = self.eval(e.body, env), self.eval(e.orelse, env)
                if is_scalar(a) and is_scalar(b):
                    return ite(c, a, b)
        if ctx.branch(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        vals = e.values
        v = self.eval(vals[0], env)
        for nxt in vals[1:]:
            c = self.truth(v)
            c = norm_bool(c)
            if not isinstance(c, bool):
                c = ctx.simplify_cond(c)
            if isinstance(c, bool):
                if c != isand:
                    return v
                v = self.eval(nxt, env)
                continue
            if is_pure(nxt):
                w = self.eval(nxt, env)
                if is_scalar(w) and is_boollike(w) and is_boollike(v):
                    v = b_and(c, w) if isand else b_or(c, w)
                    continue
            if ctx.branch(c) != isand:
                # short circuit: value with known truth
                return v if not is_boollike(v) else (not isand)
            v = self.eval(nxt, env)
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return b_not(norm_bool(self.truth(v)))
        if isinstance(e.op, ast.USub):
            return A.elementwise(O.neg, [v], arr_dtype(v)) if isarr(v) else O.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isarr(v):
                return A.elementwise(lambda a: b_not(a), [v], A.BOOL)
            return b_not(v) if is_boollike(v) and not isinstance(v, bool) else ~v
        raise Unsupported('unary op')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        k = type(op).__name__
        if isarr(a) or isarr(b):
            return self.arr_binop(k, a, b)
        if isinstance(a, (str, bytes)) and k == 'Mod':
            return fmt_percent(a, b)
        if isinstance(a, str) or isinstance(b, str):
            if k == 'Add':
                return StrSym(a + b) if isinstance(a, StrSym) or isinstance(
                    b, StrSym) else a + b
            if k == 'Mult':
                return a * b
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if k == 'Add':
                if type(a) is not type(b):
                    raise SymRaise('TypeError', 'concatenation')
                return self.new(a + b) if isinstance(a, list) else a + b
            if k == 'Mult':
                if not (isinstance(a, int) or isinstance(b, int)):
                    l, r = (a, b) if isinstance(a, list) else (b, a)
                    if isinstance(l, list) and len(l) == 1 and is_intlike(r):
                        return SymSeq(r, lambda i, v=l[0]: v)
                    raise Unsupported('repetition of symbolic length')
                return a * b
        if isinstance(a, (set, dict)) or a is None or b is None or \
                isinstance(a, (PyObj, PyFunc)) or isinstance(b, (PyObj, PyFunc)):
            if isinstance(a, set) and isinstance(b, set):
                return {'Sub': a - b, 'BitOr': a | b, 'BitAnd': a & b}[k]
            raise SymRaise('TypeError', 'unsupported operand types')
        fn = BINOPS.get(k)
        if fn is None:
            raise Unsupported('operator %s' % k)
        if not (is_scalar(a) and is_scalar(b)):
            if is_native_ok(a) and is_native_ok(b):
                return NATIVE_BINOPS[k](a, b)
            raise Unsupported('operands %r %r' % (a, b))
        return fn(a, b)

    def arr_binop(self, k, a, b):
        if isinstance(a, (list, tuple)):
            a = self.np_asarray(a)
        if isinstance(b, (list, tuple)):
            b = self.np_asarray(b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise SymRaise('TypeError', 'unsupported operand types')
        da = arr_dtype(a) if isarr(a) else None
        db = arr_dtype(b) if isarr(b) else None
        if da is not None and db is not None:
            za = isinstance(a, Arr) and a.ndim == 0
            zb_ = isinstance(b, Arr) and b.ndim == 0
            dt = A.result_dtype(da, db)
        elif da is not None:
            dt = A.promote_scalar(da, b)
        else:
            dt = A.promote_scalar(db, a)
        if k == 'Div':
            if dt.kind in 'ib':
                dt = A.F64
            fn = lambda x, y: O.div(x, y, 'np')
        elif k in ('BitAnd', 'BitOr', 'BitXor'):
            if dt.kind != 'b':
                raise Unsupported('bitwise on integers')
            fn = {'BitAnd': lambda x, y: b_and(x, y),
                  'BitOr': lambda x, y: b_or(x, y),
                  'BitXor': lambda x, y: O.ne(x, y)}[k]
        elif k in BINOPS:
            fn = BINOPS[k]
            if dt.kind == 'b' and k in ('Add', 'Sub', 'Mult'):
                dt = A.BOOL
                if k == 'Sub':
                    raise SymRaise('TypeError', 'boolean subtract')
                fn = (lambda x, y: b_or(x, y)) if k == 'Add' else \
                     (lambda x, y: b_and(x, y))
            if k == 'FloorDiv':
                fn = lambda x, y: quiet_call(O.floordiv, x, y)
            if k == 'Mod':
                fn = lambda x, y: quiet_call(O.mod, x, y)
        else:
            raise Unsupported('array operator %s' % k)
        return A.elementwise(fn, [a, b], dt)

    def np_asarray(self, v):
        from . import npmodel
        return npmodel.asarray(v)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, rn in zip(e.ops, e.comparators):
            right = self.eval(rn, env)
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                if isarr(res) or isarr(c):
                    raise Unsupported('chained array comparison')
                res = b_and(norm_bool(self.truth(res)), norm_bool(self.truth(c)))
            left = right
            if res is False and len(e.ops) > 1:
                return False
        return res

    def compare(self, op, a, b):
        k = type(op).__name__
        if k == 'Is':
            return self.is_(a, b)
        if k == 'IsNot':
            return b_not(self.is_(a, b))
        if k == 'In':
            return self.contains(b, a)
        if k == 'NotIn':
            return b_not(self.contains(b, a))
        fn = {'Eq': O.eq, 'NotEq': O.ne, 'Lt': O.lt, 'LtE': O.le, 'Gt': O.gt,
              'GtE': O.ge}[k]
        if isarr(a) or isarr(b):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return k == 'NotEq'
            if isinstance(a, (list, tuple)):
                a = self.np_asarray(a)
            if isinstance(b, (list, tuple)):
                b = self.np_asarray(b)
            return A.elementwise(fn, [a, b], A.BOOL)
        if k in ('Eq', 'NotEq'):
            if is_scalar(a) and is_scalar(b):
                return fn(a, b)
            if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
                r = O.eq(a, b) if type(a) == type(b) else False
                return r if k == 'Eq' else b_not(r)
            if isinstance(a, StrSym) or isinstance(b, StrSym):
                raise Unsupported('comparison of symbolic strings')
            if is_scalar(a) != is_scalar(b):
                return k == 'NotEq'
            r = (a == b)
            return r if k == 'Eq' else not r
        if is_scalar(a) and is_scalar(b):
            return fn(a, b)
        if is_native_ok(a) and is_native_ok(b):
            try:
                return {'Lt': lambda: a < b, 'LtE': lambda: a <= b,
                        'Gt': lambda: a > b, 'GtE': lambda: a >= b}[k]()
            except TypeError as ex:
                raise SymRaise('TypeError', str(ex))
        raise SymRaise('TypeError', 'comparison of %r and %r' % (a, b))

    def is_(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if (is_z3(a) and z3.is_bool(a)) or (is_z3(b) and z3.is_bool(b)):
                return O.eq(a, b)
            return a is b
        if isinstance(a, (str, int, float)) and isinstance(b, (str, int, float)):
            return type(a) == type(b) and a == b
        return a is b

    def contains(self, c, x):
        if isinstance(c, str):
            if isinstance(c, StrSym) or isinstance(x, StrSym):
                raise Unsupported('membership in symbolic string')
            return isinstance(x, str) and x in c
        if isinstance(c, dict) or isinstance(c, (set, frozenset)):
            try:
                return stored_key(c, x) in c
            except TypeError as ex:
                raise SymRaise('TypeError', str(ex))
        if isinstance(c, (list, tuple)) or (not isarr(c) and hasattr(c, '__iter__')):
            r = False
            for y in c:
                if isarr(y) or isarr(x):
                    if y is x:
                        return True
                    if isarr(y) != isarr(x) and (y is None or isinstance(y, str) or
                                                 x is None or isinstance(x, str)):
                        continue
                    raise Unsupported('membership among arrays')
                if (y is None) != (x is None):
                    continue
                if y is None:
                    return True
                r = b_or(r, self.compare(ast.Eq(), y, x))
                if r is True:
                    return True
            return r
        raise Unsupported('membership in %r' % (c,))

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, StrSym):
            return True
        if isinstance(v, (str, list, tuple, dict, set, frozenset)):
            return len(v) > 0
        if isinstance(v, Arr):
            if v.ndim == 0:
                return O.truth(v.at())
            sz = 1
            for n in v.shape:
                if not (isinstance(n, int) and n == 1):
                    raise SymRaise('ValueError', 'truth value of an array')
            return O.truth(v.at(*([0] * v.ndim)))
        if is_scalar(v):
            return O.truth(v)
        if isinstance(v, (PyFunc, PyClass, PyObj, Module, Marker)) or callable(v):
            return True
        if hasattr(v, '__len__'):
            return len(v) > 0
        raise Unsupported('truth of %r' % (v,))

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, o, name, default=UNBOUND):
        try:
            return self._getattr(o, name)
        except SymRaise as ex:
            if default is not UNBOUND and ex.cls == 'AttributeError':
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, PyObj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported('attribute %s: %s' % (name, v.why))
                return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            v = o.cls.find(name)
            if v is not None:
                if isinstance(v, Prop):
                    return v.fget.bind(o)()
                if isinstance(v, PyFunc):
                    k = v.attrs.get('kind')
                    if k == 'staticmethod':
                        return v
                    if k == 'classmethod':
                        return v.bind(o.cls)
                    return v.bind(o)
                return v
            g = o.cls.find('__getattr__')
            if g is not None:
                return g.bind(o)(name)
            raise SymRaise('AttributeError', name)
        if isinstance(o, PyClass):
            if name == '__name__':
                return o.name
            v = o.find(name)
            if v is None:
                raise SymRaise('AttributeError', name)
            if isinstance(v, PyFunc) and v.attrs.get('kind') == 'classmethod':
                return v.bind(o)
            return v
        if isinstance(o, Super):
            for c in o.cls.mro()[1:]:
                if name in c.ns:
                    v = c.ns[name]
                    return v.bind(o.obj) if isinstance(v, PyFunc) else v
            raise SymRaise('AttributeError', name)
        if isinstance(o, PyFunc):
            if name in o.attrs:
                return o.attrs[name]
            if name in ('__name__', '__qualname__'):
                return o.__name__ if name == '__name__' else o.qualname
            if name == '__self__' and o.bound is not None:
                return o.bound
            raise SymRaise('AttributeError', name)
        if isinstance(o, Module):
            if not o.has(name):
                sub = o.name + '.' + name
                if self.is_repo_module(sub):
                    return self.module(sub)
            return o.get(name)
        if isinstance(o, (Arr, Masked)) or (is_scalar(o) and not isinstance(
                o, (str, bool)) ):
            from . import npmodel
            return npmodel.arr_attr(o, name)
        if isinstance(o, Marker):
            if hasattr(o, name):
                return getattr(o, name)
            raise SymRaise('AttributeError', name)
        try:
            v = getattr(o, name)
        except AttributeError as ex:
            raise SymRaise('AttributeError', str(ex))
        if isinstance(o, (list, dict, set)) and name in MUTATORS:
            return functools.partial(self.mutate, o, name)
        return v

    def mutate(self, o, name, *args, **kw):
        self.check_mutable(o)
        try:
            return getattr(o, name)(*args, **kw)
        except (KeyError, IndexError, ValueError, TypeError) as ex:
            raise SymRaise(type(ex).__name__, str(ex))

    def setattr(self, o, name, v):
        if isinstance(o, PyObj):
            p = o.cls.find(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    raise SymRaise('AttributeError', "can't set " + name)
                p.fset.bind(o)(v)
                return
            self.check_mutable(o)
            o.attrs[name] = v
        elif isinstance(o, PyFunc):
            o.attrs[name] = v
        elif getattr(o, 'settable', False):
            o.__dict__[name] = v
        else:
            raise Unsupported('attribute assignment on %r' % (o,))

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, env) if x is not None else None
                           for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def getitem(self, o, key):
        if isinstance(o, Arr):
            return A.getitem(o, key)
        if isinstance(o, (dict,)):
            try:
                return o[stored_key(o, key)]
            except (KeyError, TypeError) as ex:
                raise SymRaise(type(ex).__name__, str(ex))
        if isinstance(o, (list, tuple, str)):
            if isinstance(key, slice):
                if any(is_z3(x) for x in (key.start, key.stop, key.step)):
                    raise Unsupported('symbolic slice of a list')
                return o[key]
            if is_z3(key):
                k = unz3(z3.simplify(key))
                if is_z3(k):
                    ctx.oblige('index-in-bounds', b_and(O.le(-len(o), k),
                                                        O.lt(k, len(o))))
                    if all(is_scalar(x) for x in o) and ctx.entails(k >= 0):
                        return A.pick(o, k)
                    raise Unsupported('symbolic index into a list')
                key = k
            if isinstance(key, Arr) and key.ndim == 0:
                key = key.at()
            try:
                return o[key]
            except (IndexError, TypeError) as ex:
                raise SymRaise(type(ex).__name__, str(ex))
        if isinstance(o, SymSeq):
            return o.fn(A.norm_index(key, o.n))
        if is_scalar(o):
            if key == () or key is Ellipsis:
                return o
            from . import npmodel
            return A.getitem(npmodel.asarray(o), key)
        if isinstance(o, PyObj):
            f = o.cls.find('__getitem__')
            if f:
                return f.bind(o)(key)
        if hasattr(o, '__getitem__'):
            try:
                return o[key]
            except (KeyError, IndexError, TypeError) as ex:
                raise SymRaise(type(ex).__name__, str(ex))
        raise SymRaise('TypeError', 'not subscriptable: %r' % (o,))

    def setitem(self, o, key, v):
        if isinstance(o, Arr):
            A.setitem(o, key, v)
        elif isinstance(o, (dict, list)):
            self.check_mutable(o)
            try:
                o[stored_key(o, key) if isinstance(o, dict) else key] = v
            except (IndexError, TypeError) as ex:
                raise SymRaise(type(ex).__name__, str(ex))
        elif hasattr(o, '__setitem__') and not is_scalar(o):
            o[key] = v
        else:
            raise SymRaise('TypeError', 'item assignment on %r' % (o,))

    def e_JoinedStr(self, e, env):
        out, sym = '', False
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.eval(v.value, env)
                if isinstance(x, (str, int, float, bool)) and not isinstance(x, StrSym):
                    if v.format_spec is not None:
                        out += '<num>'
                        sym = True
                    else:
                        out += str(x)
                else:
                    out += '<sym>'
                    sym = True
        return StrSym(out) if sym else out

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    # ---- comprehensions
    def e_ListComp(self, e, env):
        r = self.comp(e.generators, env, lambda en: self.eval(e.elt, en))
        return self.new(r) if isinstance(r, list) else r

    def e_GeneratorExp(self, e, env):
        return self.comp(e.generators, env, lambda en: self.eval(e.elt, en))

    def e_SetComp(self, e, env):
        return set(self.comp(e.generators, env, lambda en: self.eval(e.elt, en)))

    def e_DictComp(self, e, env):
        return dict(self.comp(e.generators, env, lambda en: (
            self.eval(e.key, en), self.eval(e.value, en))))

    def comp(self, gens, env, fn):
        out = []
        from . import loops

        def rec(i, en):
            if i == len(gens):
                out.append(fn(en))
                return
            g = gens[i]
            it = self.eval(g.iter, en)
            items = loops.concrete_items(it, 400)
            if items is None:
                if len(gens) == 1 and not g.ifs:
                    raise _SymComp(it, g, en)
                raise Unsupported('comprehension over a symbolic range')
            for v in items:
                self.assign(g.target, v, en)
                if all(ctx.branch(self.truth(self.eval(c, en))) for c in g.ifs):
                    rec(i + 1, en)
        en = Env(env.module, env)
        try:
            rec(0, en)
        except _SymComp as sc:
            s = sc
            n, bind = loops.iteration(s.it)

            def elem(i):
                en2 = Env(env.module, env)
                self.assign(s.g.target, bind(i), en2)
                return fn(en2)
            # evaluate once with an arbitrary index: collects obligations
            t = P.bindvar('lc')
            npc = len(ctx.pc)
            ctx.pc.append(zb(b_and(O.le(0, t), O.lt(t, n))))
            elem(t)
            del ctx.pc[npc:]
            return SymSeq(n, elem)
        return out

    # ---- calls
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            obj = env.lookup('self')
            cls = env
            return Super(obj, obj.cls)
        f = self.eval(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, env))
            else:
                kw[k.arg] = self.eval(k.value, env)
        if f is BUILTINS['locals']:
            return dict(env.vars)
        return self.call(f, args, kw, env)

    def call(self, f, args, kw, env=None):
        if isinstance(f, (PyFunc, PyClass, PyObj)):
            return f(*args, **kw)
        if getattr(f, 'pyvc_env', False):
            return f(env, *args, **kw)
        if callable(f):
            if getattr(f, 'pyvc', False) or isinstance(f, (functools.partial,)) \
                    or _is_model(f):
                return f(*args, **kw)
            try:
                return f(*args, **kw)
            except (KeyError, ValueError, IndexError) as ex:
                raise SymRaise(type(ex).__name__, str(ex))
        raise SymRaise('TypeError', '%r is not callable' % (f,))

    def call_pyfunc(self, f, args, kw):
        args = list(args)
        stub = self.stubs.get(f.qual)
        if f.bound is not None:
            args = [f.bound] + args
        if stub is not None:
            return stub(*args, **kw)
        env = Env(f.module, f.env)
        env.qual = f.__name__ + '.'
        self.bind_args(f, args, dict(kw), env)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env)
        self.calls[f.qual] = self.calls.get(f.qual, 0) + 1
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion depth')
        prev, prevn = ctx.func, ctx.node
        ctx.func = f.qual
        env.func = f
        try:
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                raise Unsupported('generator function')
            self.exec_block(f.node.body, env)
        except Return as r:
            return r.v
        finally:
            ctx.func, ctx.node = prev, prevn
            self.depth -= 1
        return None

    def bind_args(self, f, args, kw, env):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(f.defaults)
        if len(args) > len(names):
            if a.vararg is None:
                raise SymRaise('TypeError', '%s takes %d positional arguments' % (
                    f.__name__, len(names)))
        for n, v in zip(names, args):
            env.vars[n] = v
        if a.vararg is not None:
            env.vars[a.vararg.arg] = tuple(args[len(names):])
        for i, n in enumerate(names[len(args):], len(args)):
            if n in kw:
                env.vars[n] = kw.pop(n)
            elif i >= len(names) - nd:
                env.vars[n] = f.defaults[i - (len(names) - nd)]
            else:
                raise SymRaise('TypeError', '%s missing argument %s' % (f.__name__, n))
        for x in a.kwonlyargs:
            if x.arg in kw:
                env.vars[x.arg] = kw.pop(x.arg)
            else:
                v = f.kwdefaults[x.arg]
                if v is UNBOUND:
                    raise SymRaise('TypeError', 'missing keyword argument ' + x.arg)
                env.vars[x.arg] = v
        if a.kwarg is not None:
            env.vars[a.kwarg.arg] = kw
        elif kw:
            raise SymRaise('TypeError', '%s got unexpected keyword %s' % (
                f.__name__, sorted(kw)))


class _SymComp(Exception):
    def __init__(self, it, g, env):
        self.it, self.g, self.env = it, g, env


MUTATORS = {'append', 'extend', 'insert', 'pop', 'update', 'remove', 'clear',
            'setdefault', 'popitem', 'add', 'sort', 'reverse'}


def _is_model(f):
    m = getattr(f, '__module__', '') or ''
    return m.startswith('pyvc') or m.startswith('specs')


def quiet_call(f, *a):
    ctx.quiet += 1
    try:
        return f(*a)
    finally:
        ctx.quiet -= 1


def isarr(v):
    return isinstance(v, (Arr, Masked))


def arr_dtype(v):
    return v.dtype


def is_scalar(v):
    return isinstance(v, (bool, int, float, complex, Ext, Cx)) or is_z3(v)


def is_native_ok(v):
    return isinstance(v, (str, bytes, list, tuple, set, frozenset, dict, int, float))


BINOPS = {'Add': O.add, 'Sub': O.sub, 'Mult': O.mul,
          'Div': lambda a, b: O.div(a, b, 'py'),
          'FloorDiv': O.floordiv, 'Mod': O.mod, 'Pow': O.pow_,
          'BitAnd': lambda a, b: b_and(a, b) if is_boollike(a) else a & b,
          'BitOr': lambda a, b: b_or(a, b) if is_boollike(a) else a | b}
import operator as _op
NATIVE_BINOPS = {'Add': _op.add, 'Sub': _op.sub, 'Mult': _op.mul, 'Mod': _op.mod,
                 'BitOr': _op.or_, 'BitAnd': _op.and_, 'Div': _op.truediv,
                 'FloorDiv': _op.floordiv, 'Pow': _op.pow}


def fmt_percent(a, b):
    bs = b if isinstance(b, tuple) else (b,)
    if all(isinstance(x, (str, int, float)) and not isinstance(x, StrSym) for x in bs):
        try:
            return a % b
        except (TypeError, ValueError) as ex:
            raise SymRaise(type(ex).__name__, str(ex))
    return StrSym(a)


# ---------------------------------------------------------------- builtins
def _b_len(x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise SymRaise('TypeError', 'len() of unsized object')
        return x.shape[0]
    if isinstance(x, SymSeq):
        return x.n
    if isinstance(x, PyObj):
        f = x.cls.find('__len__')
        if f:
            return f.bind(x)()
    if hasattr(x, '__len__'):
        return len(x)
    raise SymRaise('TypeError', 'object has no len()')


def _unwrap0(x):
    if isinstance(x, Arr) and (x.ndim == 0 or all(
            isinstance(n, int) and n == 1 for n in x.shape)):
        return x.at(*([0] * x.ndim))
    return x


def _b_int(x=0, *a):
    x = _unwrap0(x)
    if isinstance(x, str):
        try:
            return int(x, *a)
        except ValueError as ex:
            raise SymRaise('ValueError', str(ex))
    if isinstance(x, float) and not math_isfinite(x):
        raise SymRaise('OverflowError' if x == x else 'ValueError', 'int of non-finite')
    if x is None or isinstance(x, (list, tuple, dict)) or isarr(x):
        raise SymRaise('TypeError', 'int()')
    return O.trunc_(x)


def math_isfinite(x):
    import math
    return math.isfinite(x)


def _b_float(x=0.0):
    x = _unwrap0(x)
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError as ex:
            raise SymRaise('ValueError', str(ex))
    if x is None or isinstance(x, (list, tuple, dict)) or isarr(x):
        raise SymRaise('TypeError', 'float()')
    return O.to_float(x)


def _b_bool(x=False):
    return norm_bool(INTERP.truth(x))


def _b_abs(x):
    if isarr(x):
        dt = x.dtype
        if dt.kind == 'c':
            dt = A.F32 if dt.bits == 64 else A.F64
        return A.elementwise(O.fabs, [x], dt)
    return O.fabs(x)


def _minmax(name, f2):
    def g(*args, **kw):
        key = kw.get('key')
        if len(args) == 1:
            args = args[0]
            if isinstance(args, Arr):
                from . import npmodel
                if args.ndim != 1:
                    raise Unsupported('%s of nd array' % name)
                return getattr(npmodel, 'a' + name)(args)
            args = list(args)
            if not args and 'default' in kw:
                return kw['default']
        if not args:
            raise SymRaise('ValueError', 'empty sequence')
        if key is not None:
            if all(is_conc(x) or isinstance(x, str) for x in args):
                return getattr(builtins, name)(args, key=key)
            raise Unsupported('min/max with key')
        args = [_unwrap0(x) for x in args]
        if all(isinstance(x, str) for x in args):
            return getattr(builtins, name)(args)
        r = args[0]
        for x in args[1:]:
            r = f2(r, x)
        return r
    return g


def _b_round(x, nd=None):
    x = _unwrap0(x)
    if nd is not None and nd != 0:
        if is_conc(x) and is_conc(nd):
            return round(x, nd)
        raise Unsupported('round to digits')
    return O.round_even(x)


def _b_range(*a):
    a = [_unwrap0(x) for x in a]
    for x in a:
        if not is_intlike(x):
            raise SymRaise('TypeError', 'range() of non-integer')
    if all(isinstance(x, int) for x in a):
        return range(*a)
    a = [unz3(z3.simplify(x)) if is_z3(x) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    return SymRange(lo, hi, step)


PRANGES = [0]                        # how many parallel loops were reached


def _b_prange(*a):
    r = _b_range(*a)
    PRANGES[0] += 1
    if isinstance(r, range):
        return SymRange(r.start, r.stop, r.step, True)
    r.par = True
    return r


def _b_isinstance(x, t):
    if isinstance(t, (tuple, list)):
        r = False
        for k in t:
            r = r or _b_isinstance(x, k)
        return r
    if isinstance(t, PyClass):
        return isinstance(x, PyObj) and t in x.cls.mro()
    if isinstance(t, Marker):
        from . import npmodel
        return npmodel.isinstance_marker(x, t)
    if t is int:
        return (isinstance(x, (int, bool)) or (is_z3(x) and x.is_int())) if not \
            (is_z3(x) and not isinstance(x, z3.ArithRef)) else z3.is_bool(x)
    if t is float:
        return isinstance(x, (float, Ext)) or (is_z3(x) and x.is_real() if isinstance(
            x, z3.ArithRef) else isinstance(x, (float, Ext)))
    if t is bool:
        return isinstance(x, bool) or (is_z3(x) and z3.is_bool(x))
    if t is complex:
        return isinstance(x, (complex, Cx))
    if t is type(None):
        return x is None
    if t is _b_range:
        return isinstance(x, (range, SymRange))
    if t is _b_type or t is type:
        from . import npmodel
        return isinstance(x, (PyClass, type, A.DType)) and not (
            isinstance(x, A.DType) and getattr(x, 'is_instance', False))
    if isinstance(t, type):
        if t in (_types.FunctionType, _types.LambdaType):
            return isinstance(x, PyFunc)
        if isinstance(x, (PyObj, PyFunc, PyClass, Arr, Cx, Ext)) or is_z3(x):
            return t is object
        return isinstance(x, t)
    raise Unsupported('isinstance %r' % (t,))


def _b_type(x):
    if isinstance(x, PyObj):
        return x.cls
    if isinstance(x, Arr):
        from . import npmodel
        return npmodel.NDARRAY
    if is_z3(x):
        return bool if z3.is_bool(x) else (int if x.is_int() else float)
    if isinstance(x, Ext):
        return float
    if isinstance(x, Cx):
        return complex
    if isinstance(x, PyFunc):
        return _types.FunctionType
    return type(x)


def _b_sum(it, start=0):
    if isinstance(it, Arr):
        from . import npmodel
        return npmodel.np_sum(it, axis=0)
    r = start
    for x in INTERP.unpack(it):
        r = INTERP.binop(ast.Add(), r, x)
    return r


def _b_all(it):
    if isinstance(it, Arr):
        from . import npmodel
        return npmodel.np_all(it)
    r = True
    for x in INTERP.unpack(it):
        r = b_and(r, norm_bool(INTERP.truth(x)))
        if r is False:
            return False
    return r


def _b_any(it):
    if isinstance(it, Arr):
        from . import npmodel
        return npmodel.np_any(it)
    r = False
    for x in INTERP.unpack(it):
        r = b_or(r, norm_bool(INTERP.truth(x)))
        if r is True:
            return True
    return r


def _b_enumerate(it, start=0):
    from . import loops
    items = loops.concrete_items(it, 400)
    if items is not None:
        return list(enumerate(items, start))
    return Enum(it, start)


def _b_zip(*its):
    from . import loops
    lists = [loops.concrete_items(i, 400) for i in its]
    if all(l is not None for l in lists):
        return list(zip(*lists))
    return Zip(its)


def _b_callable(x):
    return isinstance(x, (PyFunc, PyClass)) or (isinstance(x, PyObj) and x.cls.find(
        '__call__') is not None) or (callable(x) and not isinstance(x, PyObj))


def _b_getattr(o, name, *d):
    return INTERP.getattr(o, name, *d)


def _b_hasattr(o, name):
    m = object()
    return INTERP.getattr(o, name, m) is not m


def _b_list(it=()):
    if isinstance(it, (SymSeq, SymRange)):
        from . import loops
        items = loops.concrete_items(it, 400)
        return it if items is None else list(items)
    return INTERP.new(list(INTERP.unpack(it)))


def _b_tuple(it=()):
    return tuple(INTERP.unpack(it))


def _b_str(x=''):
    if isinstance(x, (str, int, float, bool, A.DType)) or x is None:
        return str(x)
    return StrSym('<sym>')


def _b_sorted(it, **kw):
    l = INTERP.unpack(it)
    if all(is_conc(x) or isinstance(x, str) for x in l):
        return sorted(l, **kw)
    raise Unsupported('sorted')


def _b_reversed(it):
    from . import loops
    if isinstance(it, (range,)):
        return list(reversed(it))
    if isinstance(it, SymRange):
        n = loops.range_len(it)
        last = O.add(it.a, O.mul(O.sub(n, 1), it.step))
        return SymRange(last, O.sub(it.a, 1) if isinstance(it.step, int) and
                        it.step > 0 else O.add(it.a, 1), O.neg(it.step), it.par)
    return list(reversed(INTERP.unpack(it)))


def _b_map(f, *its):
    return [INTERP.call(f, list(a), {}) for a in zip(*[INTERP.unpack(i) for i in its])]


def _b_slice(*a):
    return slice(*a)


def _b_divmod(a, b):
    return (O.floordiv(a, b), O.mod(a, b))


def _b_pow(a, b):
    return INTERP.binop(ast.Pow(), a, b)


def _b_setattr(o, n, v):
    INTERP.setattr(o, n, v)


def _b_open(p, mode='r', *a, **k):
    if mode not in ('r', 'rt'):
        raise Unsupported('open for writing')
    return builtins.open(p, mode)


def _b_id(x):
    return id(x)


def _b_dict(*a, **k):
    return INTERP.new(dict(*a, **k))


BUILTINS = {
    'len': _b_len, 'int': int, 'float': float, 'bool': bool, 'abs': _b_abs,
    'complex': complex,
    'min': _minmax('min', O.min2), 'max': _minmax('max', O.max2),
    'round': _b_round, 'range': _b_range, 'isinstance': _b_isinstance,
    'type': _b_type, 'sum': _b_sum, 'all': _b_all, 'any': _b_any,
    'enumerate': _b_enumerate, 'zip': _b_zip, 'callable': _b_callable,
    'getattr': _b_getattr, 'hasattr': _b_hasattr, 'setattr': _b_setattr,
    'list': list, 'tuple': tuple, 'str': str, 'dict': dict, 'set': set,
    'sorted': _b_sorted, 'reversed': _b_reversed, 'map': _b_map, 'slice': _b_slice,
    'print': lambda *a, **k: None, 'divmod': _b_divmod, 'pow': _b_pow,
    'open': _b_open, 'id': _b_id, 'object': object, 'None': None,
    'property': Marker('property'), 'classmethod': Marker('classmethod'),
    'staticmethod': Marker('staticmethod'), 'locals': Marker('locals'),
    'NotImplementedError': NotImplementedError, 'Exception': Exception,
    'ValueError': ValueError, 'TypeError': TypeError, 'KeyError': KeyError,
    'IndexError': IndexError, 'AttributeError': AttributeError,
    'RuntimeError': RuntimeError, 'ImportError': ImportError,
    'AssertionError': AssertionError, 'OSError': OSError, 'Ellipsis': Ellipsis,
    'FileNotFoundError': FileNotFoundError, 'iter': lambda x: x,
    'frozenset': frozenset, 'repr': _b_str, 'hash': hash,
}

# types double as constructors
CTOR = {int: _b_int, float: _b_float, bool: _b_bool, list: _b_list, tuple: _b_tuple,
        str: _b_str, dict: _b_dict}

_orig_call = Interp.call


def _call(self, f, args, kw, env=None):
    try:
        c = CTOR.get(f)
    except TypeError:
        c = None
    if c is not None:
        return c(*args, **kw)
    return _orig_call(self, f, args, kw, env)


Interp.call = _call
INTERP = Interp()
