"""Abstract interpreter for the Python subset (and then some) used by gempakio.

It never executes repository code: it walks the parsed syntax trees, joining
the abstract states of the branches of every conditional and summarising loops
by havoc + linear induction.  Unknown constructs become opaque terms ('unk'),
which clients treat as "undecided".
"""
import ast
import os
import struct as _struct
import sys

from .terms import *
from .heap import *
from .heap import _sid

sys.setrecursionlimit(200000)

UNROLL = 400
MAXDEPTH = 60


class Dead(Exception):
    """current path ends (raise)"""


class GiveUp(Exception):
    """analysis budget exhausted"""


class Frame:
    __slots__ = ('env', 'module', 'fn', 'cls', 'selfv', 'depth', 'qual')

    def __init__(self, env, module, fn, cls, depth, qual):
        self.env, self.module, self.fn, self.cls, self.depth, self.qual = env, module, fn, cls, depth, qual
        self.selfv = None


BUILTINS = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else object)} if False else set(dir(__import__('builtins')))


_METHODS = {m for t in (str, bytes, list, dict, tuple, set, int, float) for m in dir(t)}


def opaque_attr(v):
    """An attribute of a value nothing is known about: it may be anything, None and false included."""
    while isinstance(v, BExt) and v.name not in _METHODS:
        v = v.recv
        if isinstance(v, T):
            return v.op in ('sym', 'elemof', 'unk', 'attr', 'item', 'arg')
    return False


class Interp:
    copies = False                       # a copy of an array is another object

    def __init__(self, repo='/repo/src', package='gempakio', byteorder='little', assume_rd=None, assume_cond=None, budget=3_000_000):
        self.repo, self.package, self.byteorder = repo, package, byteorder
        self.reads = []                  # (content, offset, code, site) of every value read
        self.assume_rd = assume_rd or (lambda data, off, code: None)
        self.assume_cond = assume_cond or (lambda c, st: None)
        self.addr = 0
        self.modules = {}
        self.modcode = {}
        self.loopn = 0
        self.permids = {}
        self.nocopy = set()              # conversions that may share memory with what they convert
        self.tagbase = 0
        self.trace_may = False
        self.fault = None
        self.faultn = 0
        self.faultlog = []
        self.loopfix = 'L'
        self.freshn = 0
        self.sinks = [[]]
        self.frames = []
        self.loops = []
        self.budget = budget
        self.site = ('?', 0, '?')
        self.unknown = {}
        self.called = {}
        self.base = State()
        from . import ext
        self.ext = ext.ExtModel(self)
        self.trusted_overrides = {}

    # ------------------------------------------------------------ utilities
    def alloc(self):
        self.addr += 1
        return self.addr

    def new(self, st, obj):
        return st.new(obj, self.alloc())

    def newlist(self, st, vals=(), t='list'):
        return self.new(st, HSeq(t, [('v', v) for v in vals]))

    def newdict(self, st, items=()):
        return self.new(st, HDict([('kv', k, v) for k, v in items]))

    def fresh(self, kind='?'):
        self.freshn += 1
        return T('fresh', C(self.freshn), kind)

    def unk(self, what, *args):
        key = (what, self.site)
        self.unknown[key] = self.unknown.get(key, 0) + 1
        return T('unk', what, *[a for a in args if isinstance(a, V)])

    def where(self):
        return f'{self.site[0]}:{self.site[1]} ({self.site[2]})'

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src)
        self.modcode[name] = (path, src, tree)
        st = self.base
        env = self.new(st, HEnv({'__name__': C(name)}, None, name))
        self.modules[name] = env
        fr = Frame(env, name, None, None, 0, name)
        self.frames.append(fr)
        outs = self.block(st, tree.body, fr)
        self.frames.pop()
        assert 'fall' in outs, f'module {name} does not complete'
        self.base = outs['fall'][0]
        return env

    def is_repo_mod(self, name):
        if not name or name.split('.')[0] != self.package:
            return False
        p = os.path.join(self.repo, *name.split('.'))
        return os.path.isdir(p) or os.path.exists(p + '.py')

    def get(self, name, mod):
        """module level value"""
        self.load(mod)
        return self.base.get(self.modules[mod]).d[name]

    # ------------------------------------------------------------ outcomes
    @staticmethod
    def joinout(outs, kind, st, val):
        if st is None:
            return
        if kind in outs:
            s0, v0 = outs[kind]
            pcs = (s0.pcs or (s0.pc,)) + (st.pcs or (st.pc,))
            if val is v0 or (val is None and v0 is None):
                outs[kind] = (merge(s0, st), val)
            else:
                c, _ = sel_cond(s0.pc, st.pc)
                outs[kind] = (merge(s0, st), ite(c, v0, val))
            outs[kind][0].pcs = pcs if kind in ('break', 'return') else None
        else:
            outs[kind] = (st, val)

    def block(self, st, stmts, fr):
        outs = {}
        cur = st
        for s in stmts:
            if cur is None:
                break
            o = self.stmt(cur, s, fr)
            cur = None
            for k, (s2, v) in o.items():
                if k == 'fall':
                    cur = s2
                else:
                    self.joinout(outs, k, s2, v)
        if cur is not None:
            outs['fall'] = (cur, None)
        return outs

    def stmt(self, st, node, fr):
        self.budget -= 1
        if self.budget < 0:
            raise GiveUp()
        self.site = (fr.module, getattr(node, 'lineno', 0), fr.qual)
        try:
            m = getattr(self, 's_' + type(node).__name__, None)
            if m is None:
                self.unk('stmt:' + type(node).__name__)
                return {'fall': (st, None)}
            return m(st, node, fr)
        except Dead:
            return {}

    FALL = staticmethod(lambda st: {'fall': (st, None)})

    # ------------------------------------------------------------ statements
    def s_Expr(self, st, n, fr):
        if isinstance(n.value, ast.Constant):
            return {'fall': (st, None)}
        self.ev(st, n.value, fr)
        return {'fall': (st, None)}

    def s_Pass(self, st, n, fr):
        return {'fall': (st, None)}

    def s_Import(self, st, n, fr):
        for a in n.names:
            if self.is_repo_mod(a.name):
                self.load(a.name)
                st.heap.update({k: v for k, v in self.base.heap.items() if k not in st.heap})
                v = ModV(a.name if a.asname else a.name.split('.')[0])
            else:
                v = Ext(self.ext.modname(a.name if a.asname else a.name.split('.')[0]))
            self.setvar(st, fr, (a.asname or a.name.split('.')[0]), v)
        return {'fall': (st, None)}

    def s_ImportFrom(self, st, n, fr):
        mod = n.module or ''
        if n.level:
            base = fr.module.split('.')
            path, _, _ = self.modcode[fr.module]
            if not path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (n.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in n.names:
            if self.is_repo_mod(mod):
                env = self.load(mod)
                if st is not self.base:
                    st.heap.update({k: v for k, v in self.base.heap.items() if k not in st.heap})
                if a.name == '*':
                    for k, v in list(st.get(env).d.items()):
                        if not k.startswith('_'):
                            self.setvar(st, fr, k, v)
                    continue
                d = self.base.get(env).d if env.a not in st.heap else st.get(env).d
                if a.name in d:
                    v = d[a.name]
                elif self.is_repo_mod(mod + '.' + a.name):
                    self.load(mod + '.' + a.name)
                    v = ModV(mod + '.' + a.name)
                else:
                    v = self.unk('import ' + a.name)
            else:
                v = self.ext.module_attr(mod, a.name)
            self.setvar(st, fr, a.asname or a.name, v)
        return {'fall': (st, None)}

    def s_FunctionDef(self, st, n, fr):
        f = self.mkfn(st, n, fr)
        for d in reversed(n.decorator_list):
            dv = self.ev(st, d, fr) if not (isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter')) else None
            if dv is None:
                base = self.ev(st, d.value, fr)
                if isinstance(base, Wrap) and base.kind == 'property':
                    f = Wrap('property', base.fn, f) if d.attr == 'setter' else Wrap('property', f, base.setter)
                else:
                    f = self.unk('decorator')
            elif isinstance(dv, Ext) and dv.path in ('builtins.property', 'functools.cached_property'):
                f = Wrap('property', f)
            elif isinstance(dv, Ext) and dv.path == 'builtins.staticmethod':
                f = Wrap('static', f)
            elif isinstance(dv, Ext) and dv.path == 'builtins.classmethod':
                f = Wrap('class', f)
            elif isinstance(dv, Ext) and dv.path in ('functools.lru_cache', 'functools.cache', 'functools.wraps', 'typing.overload', 'abc.abstractmethod', 'numba.jit', 'numba.njit'):
                pass
            elif isinstance(dv, T) and any(isinstance(x, Ext) and x.path == 'functools.lru_cache' for x in dv.args):
                pass
            elif isinstance(dv, Ext) and dv.path == 'contextlib.contextmanager':
                f = Wrap('ctxmgr', f)
            else:
                f = self.call(st, dv, [f], {}, n)
        self.setvar(st, fr, n.name, f)
        return {'fall': (st, None)}

    s_AsyncFunctionDef = s_FunctionDef

    def mkfn(self, st, n, fr):
        a = n.args
        defaults = [self.ev(st, d, fr) for d in a.defaults]
        kwd = [self.ev(st, d, fr) if d is not None else None for d in a.kw_defaults]
        name = getattr(n, 'name', '<lambda>')
        q = (fr.qual + '.' + name) if fr.qual != fr.module else name
        return Fn(n, fr.module, fr.env, q, defaults, kwd, None)

    def s_ClassDef(self, st, n, fr):
        bases = [self.ev(st, b, fr) for b in n.bases]
        env = self.new(st, HEnv({}, fr.env, 'class ' + n.name))
        cfr = Frame(env, fr.module, None, None, fr.depth + 1, (fr.qual + '.' + n.name) if fr.qual != fr.module else n.name)
        outs = self.block(st, n.body, cfr)
        st2 = outs['fall'][0]
        ns = dict(st2.get(env).d)
        cls = Cls(n.name, fr.module, [b for b in bases if isinstance(b, (Cls, Ext))], ns, n)
        for b in bases:
            if isinstance(b, NTCls):     # class X(namedtuple(...))
                cls.bases.append(Ext('nt:' + b.name))
                cls.ntbase = b
        for k, v in ns.items():
            f = v.fn if isinstance(v, Wrap) else v
            if isinstance(f, Fn) and f.cls is None:
                f.cls = cls
            if isinstance(v, Wrap) and isinstance(v.setter, Fn) and v.setter.cls is None:
                v.setter.cls = cls
        if cls.is_enum:
            auto = 0
            for k, v in list(ns.items()):
                if k.startswith('_') or isinstance(v, (Fn, Wrap)):
                    continue
                if isinstance(v, C):
                    val = v.v
                elif isinstance(v, T) and 'enum.auto' in repr(v):
                    val = auto + 1
                else:
                    continue
                if isinstance(val, int):
                    auto = val
                mem = next((m for m in cls.members.values() if m.value == val), None) or EnumM(cls, k, val)
                cls.members[k] = mem
                ns[k] = mem
        fields = []
        for b in reversed(cls.mro()[1:]):
            if isinstance(b, Cls) and getattr(b, 'dcfields', None):
                for f in b.dcfields:
                    if f[0] not in [x[0] for x in fields]:
                        fields.append(f)
        dc = False
        for d in n.decorator_list:
            dv = self.ev(st2, d, fr)
            p = dv.path if isinstance(dv, Ext) else ''
            if p == 'dataclasses.dataclass' or 'dataclasses.dataclass' in repr(dv):
                dc = True
        if dc:
            for s in n.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    fields.append((s.target.id, ns.get(s.target.id)))
            cls.dcfields = fields
            cls.dataclass = True
        elif isinstance(cls, Cls) and any(isinstance(b, Ext) and b.path == 'typing.NamedTuple' for b in bases):
            fl = [(s.target.id, ns.get(s.target.id)) for s in n.body if isinstance(s, ast.AnnAssign)]
            nt = NTCls(n.name, [f for f, _ in fl], tuple(d for _, d in fl if d is not None))
            self.setvar(st2, fr, n.name, nt)
            return {'fall': (st2, None)}
        self.setvar(st2, fr, n.name, cls)
        return {'fall': (st2, None)}

    def s_Return(self, st, n, fr):
        v = self.ev(st, n.value, fr) if n.value is not None else NONE
        return {'return': (st, v)}

    def s_Assign(self, st, n, fr):
        v = self.ev(st, n.value, fr)
        for t in n.targets:
            self.assign(st, t, v, fr)
        return {'fall': (st, None)}

    def s_AnnAssign(self, st, n, fr):
        if n.value is not None:
            self.assign(st, n.target, self.ev(st, n.value, fr), fr)
        return {'fall': (st, None)}

    def s_AugAssign(self, st, n, fr):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.ev(st, ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            r = self.ev(st, n.value, fr)
            self.setvar(st, fr, t.id, self.augop(st, n.op, cur, r, n))
        elif isinstance(t, ast.Attribute):
            o = self.ev(st, t.value, fr)
            cur = self.getattr(st, o, t.attr, t)
            r = self.ev(st, n.value, fr)
            self.setattr(st, o, t.attr, self.augop(st, n.op, cur, r, n), t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(st, t.value, fr)
            k = self.ev(st, t.slice, fr)
            cur = self.getitem(st, o, k, t)
            r = self.ev(st, n.value, fr)
            self.store_sub(st, t, o, k, self.augop(st, n.op, cur, r, n), fr)
        return {'fall': (st, None)}

    def augop(self, st, op, cur, r, node):
        if isinstance(op, ast.Add) and isinstance(cur, Ref) and st.get(cur).kind == 'seq' and st.get(cur).t == 'bytearray':
            self.ext.seq_method(st, cur, st.get(cur), 'extend', [r], {})
            return cur
        if isinstance(op, ast.Add) and isinstance(cur, Ref) and st.get(cur).kind == 'seq' and st.get(cur).t == 'list':
            self.ext.list_extend(st, cur, r)
            return cur
        if isinstance(op, (ast.BitOr,)) and isinstance(cur, Ref) and st.get(cur).kind in ('dict',):
            self.ext.dict_update(st, cur, r)
            return cur
        if isinstance(cur, T) and cur.op not in ('lin',) and not is_num(cur) and not is_str(cur):
            st.emit('mut', cur, 'augassign', self.site)
        return self.binop(st, op, cur, r, node)

    def s_Delete(self, st, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.mut(fr.env).d[t.id] = UNDEF
            elif isinstance(t, ast.Subscript):
                o = self.ev(st, t.value, fr)
                k = self.ev(st, t.slice, fr)
                self.call_method(st, o, '__delitem__', [k], {}, t)
            elif isinstance(t, ast.Attribute):
                o = self.ev(st, t.value, fr)
                if isinstance(o, Ref) and st.get(o).kind == 'obj':
                    st.mut(o).d.pop(t.attr, None)
        return {'fall': (st, None)}

    def s_Global(self, st, n, fr):
        env = st.mut(fr.env)
        for x in n.names:
            env.d['global ' + x] = TRUE
        return {'fall': (st, None)}

    s_Nonlocal = s_Global

    def s_Assert(self, st, n, fr):
        c = self.cond(st, n.test, fr)
        st.facts = assume(st.facts, c)
        return {'fall': (st, None)}

    def s_Raise(self, st, n, fr):
        exc = self.ev(st, n.exc, fr) if n.exc is not None else T('reraise')
        if n.cause is not None:
            self.ev(st, n.cause, fr)
        self.do_raise(st, exc)

    def do_raise(self, st, exc):
        if isinstance(exc, (Ext, Cls)):
            exc = T('exc', exc.path.split('.')[-1] if isinstance(exc, Ext) else exc.name)
        st.emit('raise', exc, self.site)
        self.sinks[-1].append((st, exc, self.site))
        raise Dead()

    def s_Break(self, st, n, fr):
        return {'break': (st, None)}

    def s_Continue(self, st, n, fr):
        return {'continue': (st, None)}

    def s_If(self, st, n, fr):
        c = self.cond(st, n.test, fr)
        return self.fork_on(st, c, lambda s: self.block(s, n.body, fr), lambda s: self.block(s, n.orelse, fr))

    def fork_on(self, st, c, ft, ff):
        d = self.decide(st, c)
        if isinstance(d, C):
            return ft(st) if d.v else ff(st)
        # split disjunction/conjunction on the simplified condition
        s2 = st.fork()
        st.assume(d, True)
        s2.assume(d, False)
        try:
            oa = ft(st)
        except Dead:
            oa = {}
        try:
            ob = ff(s2)
        except Dead:
            ob = {}
        outs = {}
        for o in (oa, ob):
            for k, (s, v) in o.items():
                self.joinout(outs, k, s, v)
        return outs

    def decide(self, st, c):
        d = simp_cond(c, st.facts)
        if not isinstance(d, C):
            def m(x):
                if isinstance(x, T) and x.op in ('ge0', 'gt0', 'eq0', 'eq', 'in', 'truth', 'isinst', 'is_none', 'hasattr', 'is'):
                    r = self.assume_cond(x, st)
                    if r is not None:
                        return C(bool(r))
                return None
            d = simp_cond(subst(d, m), st.facts)
        return d

    def s_Match(self, st, n, fr):
        subj = self.ev(st, n.subject, fr)
        return self.match_cases(st, subj, n.cases, fr)

    def match_cases(self, st, subj, cases, fr):
        if not cases:
            return {'fall': (st, None)}
        case = cases[0]
        binds = []
        c = self.pat(st, subj, case.pattern, fr, binds)

        def yes(s):
            for nm, v in binds:
                self.setvar(s, fr, nm, v)
            if case.guard is not None:
                g = self.cond(s, case.guard, fr)
                return self.fork_on(s, g, lambda x: self.block(x, case.body, fr), lambda x: self.match_cases(x, subj, cases[1:], fr))
            return self.block(s, case.body, fr)
        return self.fork_on(st, c, yes, lambda s: self.match_cases(s, subj, cases[1:], fr))

    def pat(self, st, subj, p, fr, binds):
        if isinstance(p, ast.MatchValue):
            return self.equal(st, subj, self.ev(st, p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(st, subj, C(p.value))
        if isinstance(p, ast.MatchOr):
            return disj(*[self.pat(st, subj, q, fr, binds) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE
            if p.pattern is not None:
                c = self.pat(st, subj, p.pattern, fr, binds)
            if p.name:
                binds.append((p.name, subj))
            return c
        if isinstance(p, ast.MatchSequence):
            items = self.tuple_items(st, subj)
            if items is not None and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(items) != len(p.patterns):
                    return FALSE
                return conj(*[self.pat(st, i, q, fr, binds) for i, q in zip(items, p.patterns)])
        return self.unk('pattern ' + type(p).__name__)

    def s_With(self, st, n, fr):
        mgrs = []
        for it in n.items:
            cm = self.ev(st, it.context_expr, fr)
            v = self.enter(st, cm, n)
            if it.optional_vars is not None:
                self.assign(st, it.optional_vars, v, fr)
            mgrs.append(cm)
        self.sinks.append([])
        try:
            outs = self.block(st, n.body, fr)
        finally:
            raised = self.sinks.pop()
        res = {}
        for k, (s, v) in outs.items():
            try:
                for cm in reversed(mgrs):
                    self.exit(s, cm, n)
            except Dead:
                continue
            res[k] = (s, v)
        for (s, exc, site) in raised:
            for cm in reversed(mgrs):
                try:
                    self.exit(s, cm, n)
                except Dead:
                    pass
            self.sinks[-1].append((s, exc, site))
        return res

    def enter(self, st, cm, node):
        if isinstance(cm, Ref) and st.get(cm).kind == 'obj' and isinstance(st.get(cm).cls, Cls):
            f, _ = st.get(cm).cls.lookup('__enter__')
            if f is not None:
                return self.call(st, BM(cm, f), [], {}, node)
        return cm

    def exit(self, st, cm, node):
        if isinstance(cm, Ref) and st.get(cm).kind == 'obj':
            o = st.get(cm)
            if isinstance(o.cls, Cls):
                f, _ = o.cls.lookup('__exit__')
                if f is not None:
                    self.call(st, BM(cm, f), [NONE, NONE, NONE], {}, node)
                    return
            st.emit('close', cm, self.site)
        elif isinstance(cm, T):
            st.emit('close', cm, self.site)

    def s_Try(self, st, n, fr):
        pre = st.fork()
        self.sinks.append([])
        try:
            outs = self.block(st, n.body, fr)
        finally:
            raised = self.sinks.pop()
        exid = T('excpt', C(self.fresh_id()))
        if n.handlers:
            # body completes normally
            for k, (s, v) in outs.items():
                s.pc = s.pc[:len(pre.pc)] + ((exid, False),) + s.pc[len(pre.pc):] if s.pc[:len(pre.pc)] == pre.pc else s.pc + ((exid, False),)
        res = {}
        if 'fall' in outs and n.orelse:
            o = self.block(outs.pop('fall')[0], n.orelse, fr)
            for k, (s, v) in o.items():
                self.joinout(outs, k, s, v)
        for k, (s, v) in outs.items():
            self.joinout(res, k, s, v)
        unhandled = []
        starts = {}
        for (s, exc, site) in raised:
            hit = None
            for i, h in enumerate(n.handlers):
                if self.handler_matches(s, h, exc, fr):
                    hit = i
                    break
            if hit is None:
                unhandled.append((s, exc, site))
            else:
                starts.setdefault(hit, []).append((s, exc))
        for i, h in enumerate(n.handlers):
            s = None
            exc = T('exc', self.handler_name(h))
            for (s1, e1) in starts.get(i, []):
                s = merge(s, s1) if s is not None else s1
                exc = e1
            # implicit exceptions raised by operations inside the body
            if not self.explicit_only(n.body, fr):
                imp = pre.fork()
                imp.pc = imp.pc + ((exid, True), (T('handler', exid, C(i)), True))
                s = merge(s, imp) if s is not None else imp
            if s is None:
                continue
            if h.name:
                self.setvar(s, fr, h.name, exc)
            try:
                s.emit('handler', self.handler_name(h), self.site)
                o = self.block(s, h.body, fr)
            except Dead:
                o = {}
            for k, (s2, v) in o.items():
                self.joinout(res, k, s2, v)
        if n.finalbody:
            final = {}
            for k, (s, v) in res.items():
                o = self.block(s, n.finalbody, fr)
                for k2, (s2, v2) in o.items():
                    if k2 == 'fall':
                        self.joinout(final, k, s2, v)
                    else:
                        self.joinout(final, k2, s2, v2)
            for (s, exc, site) in unhandled:
                o = self.block(s, n.finalbody, fr)
                for k2, (s2, v2) in o.items():
                    if k2 == 'fall':
                        self.sinks[-1].append((s2, exc, site))
                    else:
                        self.joinout(final, k2, s2, v2)
            return final
        self.sinks[-1].extend(unhandled)
        return res

    def explicit_only(self, body, fr):
        return False

    def handler_name(self, h):
        if h.type is None:
            return 'BaseException'
        return ast.unparse(h.type)

    def handler_matches(self, st, h, exc, fr):
        if h.type is None:
            return True
        names = [ast.unparse(e).split('.')[-1] for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        if 'Exception' in names or 'BaseException' in names:
            return True
        nm = exc.args[0] if isinstance(exc, T) and exc.op == 'exc' else None
        if nm is None:
            return True
        import builtins
        ec = getattr(builtins, nm, None)
        for x in names:
            hc = getattr(builtins, x, None)
            if x == nm:
                return True
            if isinstance(ec, type) and isinstance(hc, type) and issubclass(ec, hc):
                return True
        return False

    def fresh_id(self):
        self.freshn += 1
        return self.freshn

    # ------------------------------------------------------------ loops
    def s_For(self, st, n, fr):
        it = self.ev(st, n.iter, fr)

        def body(s, v):
            try:
                self.assign(s, n.target, v, fr)
            except Dead:
                return {}
            return self.block(s, n.body, fr)
        outs = self.iterate(st, it, body, n)
        return self.loop_else(outs, n, fr)

    def loop_else(self, outs, n, fr):
        res = {}
        if 'fall' in outs:
            s, v = outs.pop('fall')
            if n.orelse:
                for k, (s2, v2) in self.block(s, n.orelse, fr).items():
                    self.joinout(res, k, s2, v2)
            else:
                self.joinout(res, 'fall', s, None)
        for k, (s, v) in outs.items():
            self.joinout(res, 'fall' if k == 'break' else k, s, None if k == 'break' else v)
        return res

    def iterate(self, st, it, body, node):
        """run `body(state, element)` over iterable; returns outcomes incl. break"""
        outs = {}
        chunks = self.ext.chunks(st, it)
        if chunks is None:
            # lift over ite of iterables
            it2 = self.resolve(st, it)
            if isinstance(it2, T) and it2.op == 'ite':
                d = self.decide(st, it2.args[0])
                r = self.fork_on(st, d, lambda s: self.iterate(s, it2.args[1], body, node), lambda s: self.iterate(s, it2.args[2], body, node))
                return r
            chunks = [('sym', T('len', it2), lambda i, it2=it2: T('elemof', it2, i))]
        cur = st
        for ch in chunks:
            if cur is None:
                break
            if ch[0] == 'v':
                o = body(cur, ch[1])
                cur = None
                for k, (s, v) in o.items():
                    if k in ('fall', 'continue'):
                        cur = merge(cur, s) if cur is not None else s
                    else:
                        self.joinout(outs, k, s, v)
            elif ch[0] == 'sym':
                _, count, elem = ch
                o = self.sym_loop(cur, count, lambda s, i: body(s, self.ext.instance(s, elem, i)), node)
                cur = None
                for k, (s, v) in o.items():
                    if k == 'fall':
                        cur = s
                    else:
                        self.joinout(outs, k, s, v)
            elif ch[0] == 'nest':
                # nested repetition: outer symbolic loop over inner chunks
                _, count, mk, cond = ch
                lid = self.loopn + 1

                def outer(s, i):
                    inner, c = mk(i)
                    if hasattr(mk, 'ix'):
                        inner = self.ext.instances(s, inner, mk.ix, i)

                    def run(s):
                        o = self.run_chunks(s, inner, body, node)
                        return o
                    if c is TRUE or c == TRUE:
                        o = run(s)
                    else:
                        o = self.fork_on(s, c, run, lambda s: {'fall': (s, None)})
                    return o
                o = self.sym_loop(cur, count, outer, node)
                cur = None
                for k, (s, v) in o.items():
                    if k == 'fall':
                        cur = s
                    else:
                        self.joinout(outs, k, s, v)
            elif ch[0] == 'alt':
                _, c, a, b = ch
                o = self.fork_on(cur, c, lambda s: self.run_chunks(s, a, body, node), lambda s: self.run_chunks(s, b, body, node))
                cur = None
                for k, (s, v) in o.items():
                    if k == 'fall':
                        cur = s
                    else:
                        self.joinout(outs, k, s, v)
        if cur is not None:
            self.joinout(outs, 'fall', cur, None)
        return outs

    def run_chunks(self, st, chunks, body, node):
        class _I(V):
            pass
        it = _I()
        it.chunks = chunks
        return self.iterate(st, it, body, node)

    def s_While(self, st, n, fr):
        outs = {}
        cur = st
        for _ in range(UNROLL):
            probe = cur.fork()
            self.sinks.append([])
            try:
                c = self.decide(probe, self.cond(probe, n.test, fr))
            except Dead:
                c = None
            finally:
                self.sinks.pop()
            if not isinstance(c, C):
                break
            self.cond(cur, n.test, fr)
            if not c.v:
                outs['fall'] = (cur, None)
                return self.loop_else(outs, n, fr)
            if isinstance(n.test, ast.Constant):
                # while True: treat symbolically unless it exits in one go
                break
            o = self.block(cur, n.body, fr)
            cur = None
            for k, (s, v) in o.items():
                if k in ('fall', 'continue'):
                    cur = merge(cur, s) if cur is not None else s
                else:
                    self.joinout(outs, k, s, v)
            if cur is None:
                return self.loop_else(outs, n, fr)

        def body(s, i):
            c = self.cond(s, n.test, fr)
            return self.fork_on(s, c, lambda s: self.block(s, n.body, fr), lambda s: {'wexit': (s, None)})
        counter = isinstance(n.test, ast.Compare) and not any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'min', 'max')) for x in ast.walk(n.test))
        o = self.sym_loop(cur, None, body, n, close=counter)
        for k, (s, v) in o.items():
            if k == 'fall':
                c = self.decide(s, self.cond(s, n.test, fr))
                if isinstance(c, C) and c.v:
                    continue
                if not isinstance(c, C):
                    s.facts = assume(s.facts, c, False)
            self.joinout(outs, k, s, v)
        return self.loop_else(outs, n, fr)

    def locval(self, st, loc):
        a, k = loc
        o = st.heap[a]
        if k is None:
            return o.segs
        return o.d.get(k, UNDEF)

    def setloc(self, st, loc, v):
        a, k = loc
        o = st.mut(Ref(a))
        if k is None:
            o.segs = v
        else:
            o.d[k] = v

    def locname(self, st, loc):
        a, k = loc
        o = st.heap[a]
        if o.kind == 'env':
            return f'{o.name}:{k}'
        if o.kind == 'obj':
            cn = o.cls.name if isinstance(o.cls, Cls) else getattr(o.cls, 'path', '?')
            return f'{cn}.{k}'
        return f'{o.kind}#{a}'

    def diff(self, start, end, upto):
        locs = []
        for a, o in end.heap.items():
            if a > upto:
                continue
            p = start.heap.get(a)
            if p is o or p is None:
                continue
            if o.kind in ('obj', 'env'):
                for k in o.d:
                    v0, v1 = p.d.get(k, UNDEF), o.d[k]
                    if v0 is not v1 and not (type(v0) is type(v1) and v0 == v1):
                        locs.append((a, k))
            elif o.segs != p.segs:
                locs.append((a, None))
        return locs

    def sym_loop(self, st, count, body, node, close=True):
        self.loopn += 1
        lid = f'{self.loopfix}{self.loopn}'
        LC = C(lid)
        idx = T('idx', LC)
        n = count if count is not None else T('iters', LC)
        mods, closed, tried = [], {}, set()
        nopre = set()
        grown = {}
        base = st

        def growing(loc):
            """a name whose container may be replaced by a longer one in each iteration"""
            if loc[1] is None or loc in nopre:
                return None
            init = self.locval(base, loc)
            if isinstance(init, Ref) and init.a in base.heap and (init.a, None) not in mods:
                o = base.get(init)
                if o.kind in ('seq', 'dict') and isinstance(o.segs, tuple):
                    return o
            return None

        def glead(loc):
            return base.get(self.locval(base, loc)).segs + (('sym', T('phi', LC, self.locname(base, loc), '?')),)

        def gpost(s2, v, ld):
            """what an iteration added to the container"""
            if isinstance(v, Ref):
                o = s2.heap.get(v.a)
                if o is None or not isinstance(getattr(o, 'segs', None), tuple) or o.segs[:len(ld)] != ld:
                    return None
                return o.segs[len(ld):]
            if isinstance(v, T) and v.op == 'ite':
                a, b = gpost(s2, v.args[1], ld), gpost(s2, v.args[2], ld)
                if a is None or b is None:
                    return None
                return a if a == b else (('alt', v.args[0], a, b),)
            return None

        def lead(loc):
            """a sequence that only grows: what it had before the loop, then what earlier iterations added"""
            init = self.locval(base, loc)
            ph = ('sym', T('phi', LC, self.locname(base, loc), '?'))
            return (() if loc in nopre or not isinstance(init, tuple) else init) + (ph,)
        upto = self.addr
        marker = T('inloop', LC)
        nloops = len(self.loops)
        for _pass in range(12):
            del self.loops[nloops:]
            s = base.fork()
            s.pc = s.pc + ((marker, True),)
            if count is not None:
                f = sub(sub(n, idx), C(1))
                s.facts = assume(s.facts, ge0(f)) if is_int(n) else s.facts
            ev0 = s.events
            phis = {}
            for loc in mods:
                init = self.locval(base, loc)
                nm = self.locname(base, loc)
                if loc in closed:
                    self.setloc(s, loc, add(init, mul(closed[loc], idx)))
                elif loc[1] is None:
                    self.setloc(s, loc, lead(loc))
                elif growing(loc) is not None:
                    o = growing(loc)
                    grown[loc] = self.new(s, HSeq(o.t, glead(loc)) if o.kind == 'seq' else HDict(glead(loc)))
                    self.setloc(s, loc, grown[loc])
                else:
                    kind = 'int' if is_int(init) else 'num' if is_num(init) else '?'
                    if isinstance(init, C) and isinstance(init.v, bool):
                        kind = '?'
                    phis[loc] = T('phi', LC, nm, kind)
                    self.setloc(s, loc, phis[loc])
            start = s.fork()
            self.sinks.append([])
            outs = body(s, idx)
            raised = self.sinks.pop()
            end = None
            for k in ('fall', 'continue'):
                if k in outs:
                    end = merge(end, outs[k][0]) if end is not None else outs[k][0]
            new = []
            for k, (s2, v) in outs.items():
                if k in ('fall', 'continue'):
                    for loc in self.diff(start, s2, upto):
                        if loc not in mods and loc not in new:
                            new.append(loc)
            if new:
                if close and end is not None:
                    # guess an arithmetic progression; the induction check below removes wrong guesses
                    for loc in new:
                        if loc[1] is None:
                            continue
                        init, post = self.locval(base, loc), self.locval(end, loc)
                        if isinstance(init, V) and isinstance(post, V) and not isinstance(init, Undef) and is_num(init) and is_num(post) \
                                and not (isinstance(init, C) and isinstance(init.v, bool)) and not (isinstance(post, C) and isinstance(post.v, bool)):
                            d = sub(post, init)
                            if self.invariant(d, LC) and d != C(0):
                                closed[loc] = d
                mods += new
                continue
            prog = False
            if end is not None and close:
                for loc in list(mods):
                    if loc in closed or loc in tried or loc[1] is None or loc not in phis:
                        continue
                    init, post = self.locval(base, loc), self.locval(end, loc)
                    if isinstance(init, V) and is_num(init) and isinstance(post, V) and not isinstance(init, Undef) and not (isinstance(init, C) and isinstance(init.v, bool)) and is_num(post):
                        d = sub(post, phis[loc])
                        if self.invariant(d, LC):
                            closed[loc] = d
                            prog = True
                            continue
                    tried.add(loc)
            if prog:
                continue
            # verify closed forms
            bad = False
            for loc in mods:
                if loc[1] is None and loc not in nopre and len(lead(loc)) > 1:
                    for s2, v in [(end, None)] * (end is not None) + [v for k, v in outs.items() if k not in ('fall', 'continue')]:
                        post = self.locval(s2, loc)
                        ld = lead(loc)
                        if not isinstance(post, tuple) or post[:len(ld)] != ld:
                            nopre.add(loc)
                            bad = True
                            break
            for loc in mods:
                if growing(loc) is not None and loc not in closed:
                    for s2, v in [(end, None)] * (end is not None) + [v for k, v in outs.items() if k not in ('fall', 'continue')]:
                        if gpost(s2, self.locval(s2, loc), glead(loc)) is None:
                            nopre.add(loc)
                            bad = True
                            break
            for loc, d in list(closed.items()):
                if end is None:
                    continue
                init, post = self.locval(base, loc), self.locval(end, loc)
                want = add(init, mul(d, add(idx, C(1))))
                if post != want:
                    del closed[loc]
                    tried.add(loc)
                    bad = True
            if bad:
                continue
            break
        self.loops.append(dict(id=lid, node=node, start=start, outs=outs, end=end, count=n, base=base, phis=phis, closed=closed, mods=mods, site=self.site))
        self.sinks[-1].extend(raised)
        # exit state
        ex = base.fork()
        evs = ex.events
        for k, (s2, v) in outs.items():
            evs = merge_events(evs, s2.events) if evs is not s2.events else evs
            for a, o in s2.heap.items():
                if a not in ex.heap:
                    ex.heap[a] = o
        if end is not None:
            for a, o in end.heap.items():
                if a > upto:
                    ex.heap[a] = o
        ex.events = evs
        nonempty = gt0(n) if is_num(n) else T('truth', n)
        if end is not None:
            for loc in mods:
                init, post = self.locval(base, loc), self.locval(end, loc)
                nm = self.locname(base, loc)
                if loc in closed:
                    v = add(init, mul(closed[loc], n))
                elif loc[1] is None:
                    ld = lead(loc)
                    if post and post[:len(ld)] == ld:
                        rest = post[len(ld):]
                        v = init + ((('rep', lid, n, rest, TRUE),) if rest else ())
                    else:
                        v = (('sym', T('exit', LC, nm)),)
                elif growing(loc) is not None:
                    rest = gpost(end, post, glead(loc))
                    segs = base.get(init).segs + ((('rep', lid, n, rest, TRUE),) if rest else ())
                    v = self.new(ex, HSeq(base.get(init).t, segs) if base.get(init).kind == 'seq' else HDict(segs))
                else:
                    if isinstance(post, (C, EnumM)) or (isinstance(post, V) and self.invariant(post, LC)):
                        v = ite(nonempty, post, init)
                    elif isinstance(post, Ref):
                        v = ite(nonempty, post, init) if isinstance(init, Undef) else post if False else ite(nonempty, post, init)
                    elif isinstance(post, Tup):
                        v = ite(nonempty, subst(post, {}), init)
                    else:
                        kind = 'int' if (is_int(init) or isinstance(init, Undef)) and isinstance(post, V) and is_int(post) else 'num' if isinstance(post, V) and is_num(post) else '?'
                        v = T('phi', C(lid + 'x'), nm, kind)
                        if isinstance(init, Undef):
                            v = ite(nonempty, v, UNDEF)
                self.setloc(ex, loc, v)
        res = {}
        # while exits evaluated by caller through cond on exit state
        res['fall'] = (ex, None)
        for k, (s2, v) in outs.items():
            if k in ('break', 'return'):
                for src in [end] + [o2[0] for o2 in outs.values()]:
                    if src is not None and src is not s2:
                        for a, o in src.heap.items():
                            if a > upto and a not in s2.heap:
                                s2.heap[a] = o
                # lists grown by completed iterations
                for loc in mods:
                    if growing(loc) is not None and loc not in closed and loc[0] in s2.heap:
                        ld = glead(loc)
                        cur = gpost(s2, self.locval(s2, loc), ld)
                        rest = gpost(end, self.locval(end, loc), ld) if end is not None else ()
                        if cur is not None and rest is not None:
                            o = base.get(self.locval(base, loc))
                            segs = o.segs + ((('rep', lid, T('iters', LC), rest, TRUE),) if rest else ()) + cur
                            self.setloc(s2, loc, self.new(s2, HSeq(o.t, segs) if o.kind == 'seq' else HDict(segs)))
                        continue
                    if loc[1] is None and loc not in closed and loc[0] in s2.heap:
                        ld = lead(loc)
                        cur = self.locval(s2, loc)
                        if cur and cur[:len(ld)] == ld:
                            post = self.locval(end, loc) if end is not None else cur[:len(ld)]
                            if post and post[:len(ld)] == ld:
                                rest = post[len(ld):]
                                self.setloc(s2, loc, self.locval(base, loc) + ((('rep', lid, T('iters', LC), rest, TRUE),) if rest else ()) + cur[len(ld):])
                res[k] = (s2, v)
        return res

    def invariant(self, v, LC):
        for x in subterms(v):
            if isinstance(x, T):
                if x.op in ('idx', 'phi', 'iters', 'pick') and x.args[0] == LC:
                    return False
                if x.op in ('fresh', 'wide'):
                    return False
            elif isinstance(x, Ref):
                return False
        return True

    # ------------------------------------------------------------ assignment
    def setvar(self, st, fr, name, v):
        env = st.get(fr.env)
        if env.d.get('global ' + name) is TRUE:
            p = env.parent
            while p is not None:
                e = st.get(p)
                if name in e.d or e.parent is None:
                    st.mut(p).d[name] = v
                    return
                p = e.parent
        st.mut(fr.env).d[name] = v

    def assign(self, st, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(st, fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(st, t.value, fr)
            self.setattr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(st, t.value, fr)
            k = self.ev(st, t.slice, fr)
            self.store_sub(st, t, o, k, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(st, v, len(t.elts), bool(stars), stars[0] if stars else None)
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    self.assign(st, e.value, x, fr)
                else:
                    self.assign(st, e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v, fr)

    def unpack(self, st, v, n, star, si):
        v = self.resolve(st, v)
        if isinstance(v, T) and v.op == 'ite':
            a = self.unpack(st, v.args[1], n, star, si)
            b = self.unpack(st, v.args[2], n, star, si)
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        items = self.tuple_items(st, v)
        if items is not None:
            if not star:
                if len(items) == n:
                    return items
                if len(items) != n:
                    st.emit('bad_unpack', v, C(n), self.site)
                    return (list(items) + [T('elemof', v if isinstance(v, T) else T('seq', *items), C(i)) for i in range(len(items), n)])[:n]
            else:
                after = n - si - 1
                if len(items) >= n - 1:
                    mid = items[si:len(items) - after]
                    return list(items[:si]) + [self.newlist(st, mid)] + list(items[len(items) - after:] if after else [])
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == 'seq' and len(o.segs) == 1 and o.segs[0][0] == 'rep' and not star and o.segs[0][4] == TRUE \
                    and len(o.segs[0][3]) == 1 and o.segs[0][3][0][0] == 'v' and not isinstance(o.segs[0][2], C):
                # it has n items, or this line raises
                _, lid, cnt, inner, _ = o.segs[0]
                return [subst(inner[0][1], {T('idx', C(lid)): C(i)}) for i in range(n)]
            v = T('content', v)
        if self.trace_may:
            self.ext.may(st, 'unpacking', [v])
        return [self.ext.elem(st, v, C(i)) for i in range(n)]

    def tuple_items(self, st, v):
        """concrete list of items of a sequence value, or None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, C) and isinstance(v.v, (tuple, str, bytes, list)):
            return [C(x) for x in v.v]
        if isinstance(v, C) and isinstance(v.v, range) and len(v.v) <= UNROLL:
            return [C(x) for x in v.v]
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == 'seq' and all(s[0] == 'v' for s in o.segs):
                return [s[1] for s in o.segs]
            if o.kind == 'dict':
                es = self.ext.dict_concrete(st, v)
                if es is not None:
                    return list(es)
        if isinstance(v, T) and v.op in ('asarray', 'astype') and isinstance(v.args[0], T):
            a = v.args[0]
            if a.op in ('list', 'tuple') and all(isinstance(x, T) and x.op not in ('rep', 'spread', 'star', 'altseg', 'list', 'tuple') or isinstance(x, C) for x in a.args):
                got = list(a.args)
            else:
                got = self.tuple_items(st, a) if a.op in ('asarray', 'astype') else None
            return got if got is None or v.op == 'asarray' else [T('astype', x, *v.args[1:]) for x in got]
        return None

    def store_sub(self, st, t, o, k, v, fr):
        o = self.resolve(st, o)
        if isinstance(o, T) and o.op == 'ite' and any(isinstance(x, Ref) for x in o.args[1:]):
            c = self.decide(st, o.args[0])

            def mk(x):
                def f(s):
                    self.store_sub(s, t, x, k, v, fr)
                    return {'fall': (s, None)}
                return f
            outs = self.fork_on(st.fork(), c, mk(o.args[1]), mk(o.args[2]))
            if 'fall' not in outs:
                raise Dead()
            self.become(st, outs['fall'][0])
            return
        if isinstance(o, Ref):
            ob = st.get(o)
            if ob.kind == 'obj':
                if isinstance(ob.cls, Cls):
                    f, _ = ob.cls.lookup('__setitem__')
                    if f is not None:
                        self.call(st, BM(o, f), [k, v], {}, t)
                        return
                st.emit('mut', o, 'setitem', self.site)
                return
            self.ext.setitem(st, o, k, v)
            return
        st.emit('mut', o, 'setitem', self.site, k, v)
        # value semantics for arrays: rebind the holder
        nv = T('setitem', o, k if isinstance(k, V) else C(None), v) if isinstance(o, V) else o
        tv = t.value
        if isinstance(tv, ast.Name):
            self.setvar_any(st, fr, tv.id, nv)
        elif isinstance(tv, ast.Attribute):
            ob = self.ev(st, tv.value, fr)
            if isinstance(ob, Ref) and st.get(ob).kind == 'obj':
                st.mut(ob).d[tv.attr] = nv
        elif isinstance(tv, ast.Subscript):
            ob = self.ev(st, tv.value, fr)
            kk = self.ev(st, tv.slice, fr)
            if isinstance(ob, Ref):
                self.ext.setitem(st, ob, kk, nv)

    def setvar_any(self, st, fr, name, v):
        p = fr.env
        while p is not None:
            e = st.get(p)
            if name in e.d:
                st.mut(p).d[name] = v
                return
            p = e.parent
        self.setvar(st, fr, name, v)

    def become(self, st, other):
        st.heap, st.pc, st.facts, st.events = other.heap, other.pc, other.facts, other.events
        _sid[0] += 1
        st.id = _sid[0]
        _sid[0] += 1
        other.id = _sid[0]

    # ------------------------------------------------------------ conditions
    def cond(self, st, node, fr):
        return self.truth(st, self.ev(st, node, fr))

    def truth(self, st, v):
        if isinstance(v, C):
            return C(bool(v.v))
        if isinstance(v, EnumM):
            return C(bool(v.value))
        if isinstance(v, Tup):
            return C(bool(v.items))
        if opaque_attr(v):
            return T('truth', v)
        if isinstance(v, (Fn, BM, Cls, Ext, Partial, NTCls, BExt, ModV)):
            return TRUE
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind in ('seq', 'dict'):
                n = self.ext.length(st, v)
                return gt0(n) if is_num(n) else T('truth', n)
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                for nm in ('__bool__', '__len__'):
                    f, _ = o.cls.lookup(nm)
                    if f is not None:
                        return self.truth(st, self.call(st, BM(v, f), [], {}, None))
            return TRUE
        if isinstance(v, T):
            if v.op in ('and', 'or', 'not', 'ge0', 'gt0', 'eq0', 'eq', 'in', 'isinst', 'is_none', 'is', 'truth', 'hasattr', 'inloop', 'excpt', 'any', 'all'):
                return v
            if v.op == 'ite':
                return ite(v.args[0], self.truth(st, v.args[1]), self.truth(st, v.args[2]))
            if v.op in ('len', 'count', 'card', 'iters'):
                return ge0(sub(v, C(1)))
            if is_num(v):
                return neg_c(eq(v, C(0)))
            if v.op == 'bool':
                return self.truth(st, v.args[0])
            return T('truth', v)
        if isinstance(v, Undef):
            return T('truth', self.unk('undef'))
        return T('truth', v)

    def equal(self, st, a, b):
        a, b = self.resolve(st, a), self.resolve(st, b)
        if isinstance(a, T) and a.op == 'enum':
            a = a.args[1]
        if isinstance(b, T) and b.op == 'enum':
            b = b.args[1]
        if isinstance(a, T) and a.op == 'ite' and not isinstance(b, T):
            return ite(a.args[0], self.equal(st, a.args[1], b), self.equal(st, a.args[2], b))
        if isinstance(b, T) and b.op == 'ite' and not isinstance(a, T):
            return self.equal(st, b, a)
        ia, ib = (self.tuple_items(st, x) if isinstance(x, (Ref, Tup)) else None for x in (a, b))
        if ia is not None and ib is not None and isinstance(a, type(b)):
            if len(ia) != len(ib):
                return FALSE
            return conj(*[self.equal(st, x, y) for x, y in zip(ia, ib)])
        if isinstance(a, (Fn, Cls, Ext, BM, NTCls, ModV)) and isinstance(b, (Fn, Cls, Ext, BM, NTCls, ModV)):
            return C(a is b or a == b)
        if isinstance(a, Ref) and st.get(a).kind == 'seq':
            if isinstance(b, (C, Tup)):
                return FALSE
        if isinstance(b, Ref) and st.get(b).kind == 'seq':
            if isinstance(a, (C, Tup)):
                return FALSE
        return eq(a, b)

    def is_(self, st, a, b):
        a, b = self.resolve(st, a), self.resolve(st, b)
        if isinstance(b, C) and b.v is None:
            if isinstance(a, C):
                return C(a.v is None)
            if opaque_attr(a):
                return T('is_none', a)
            if isinstance(a, (EnumM, Tup, Ref, Fn, BM, Cls, Ext, Partial, NTCls, BExt, Wrap)):
                return FALSE
            if isinstance(a, T):
                if a.op == 'ite':
                    return ite(a.args[0], self.is_(st, a.args[1], b), self.is_(st, a.args[2], b))
                if is_num(a) or is_str(a) or a.op in ('arr', 'around', 'nparray'):
                    return FALSE
                return T('is_none', a)
            return FALSE
        if isinstance(a, C) and a.v is None:
            return self.is_(st, b, a)
        if isinstance(a, C) and isinstance(b, C):
            return C(a.v is b.v or a == b)
        if isinstance(a, (Cls, Ext, Fn, Ref)) and isinstance(b, (Cls, Ext, Fn, Ref)):
            return C(a == b or a is b)
        if a == b and type(a) is type(b):
            return TRUE
        if isinstance(b, C) and isinstance(b.v, bool):
            t = self.truth(st, a)
            return t if b.v else neg_c(t)
        return self.equal(st, a, b)

    # ------------------------------------------------------------ expressions
    def ev(self, st, node, fr):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            return self.unk('expr:' + type(node).__name__)
        return m(st, node, fr)

    def resolve(self, st, v):
        """strip top-level ite decided by current facts; report possibly unbound values"""
        n = 0
        while isinstance(v, T) and v.op == 'ite' and n < 40:
            d = self.decide(st, v.args[0])
            if isinstance(d, C):
                v = v.args[1] if d.v else v.args[2]
                n += 1
                continue
            break
        return v

    def e_Constant(self, st, n, fr):
        if n.value is Ellipsis:
            return C('...ellipsis')
        return C(n.value)

    def e_Name(self, st, n, fr):
        nm = n.id
        p = fr.env
        while p is not None:
            e = st.get(p)
            if nm in e.d:
                v = e.d[nm]
                if isinstance(v, Undef):
                    st.emit('undef', nm, self.site)
                    self.do_raise(st, T('exc', 'UnboundLocalError', C(nm)))
                if isinstance(v, T) and v.op == 'ite':
                    v = self.resolve(st, v)
                    if isinstance(v, T) and v.op == 'ite':
                        v = self.strip_undef(st, v, nm)
                    elif isinstance(v, Undef):
                        st.emit('undef', nm, self.site)
                        self.do_raise(st, T('exc', 'UnboundLocalError', C(nm)))
                return v
            p = e.parent
        menv = self.modules.get(fr.module)
        if menv is not None and menv.a in st.heap:
            d = st.get(menv).d
            if nm in d:
                return d[nm]
        elif menv is not None and nm in self.base.get(menv).d:
            return self.base.get(menv).d[nm]
        if nm in BUILTINS:
            return Ext('builtins.' + nm)
        if nm == '__name__':
            return C(fr.module)
        self.unk('name ' + nm)
        st.emit('undef', nm, self.site)
        return T('unk', 'name ' + nm)

    def strip_undef(self, st, v, nm):
        if not any(isinstance(x, Undef) for x in subterms(v)):
            return v
        bad = []

        def go(x, pc):
            if isinstance(x, Undef):
                bad.append(pc)
                return None
            if isinstance(x, T) and x.op == 'ite':
                a = go(x.args[1], pc + [x.args[0]])
                b = go(x.args[2], pc + [neg_c(x.args[0])])
                if a is None:
                    return b
                if b is None:
                    return a
                return ite(x.args[0], a, b)
            return x
        r = go(v, [])
        if bad:
            c = disj(*[conj(*b) for b in bad])
            st.emit('maybe_undef', nm, self.site, c)
        return r if r is not None else UNDEF

    def e_NamedExpr(self, st, n, fr):
        v = self.ev(st, n.value, fr)
        self.setvar(st, fr, n.target.id, v)
        return v

    def e_Attribute(self, st, n, fr):
        o = self.ev(st, n.value, fr)
        return self.getattr(st, o, n.attr, n)

    def e_Tuple(self, st, n, fr):
        return self.mkseq(st, n.elts, fr, 'tuple')

    def e_List(self, st, n, fr):
        return self.mkseq(st, n.elts, fr, 'list')

    def e_Set(self, st, n, fr):
        return self.mkseq(st, n.elts, fr, 'set')

    def mkseq(self, st, elts, fr, t):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(st, e.value, fr)
                segs += list(self.ext.segs_of(st, v))
            else:
                segs.append(('v', self.ev(st, e, fr)))
        if t == 'tuple':
            if all(s[0] == 'v' for s in segs):
                return Tup([s[1] for s in segs])
            return self.new(st, HSeq('tuple', segs))
        return self.new(st, HSeq(t, segs))

    def e_Dict(self, st, n, fr):
        d = self.newdict(st)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.ext.dict_update(st, d, self.ev(st, v, fr))
            else:
                kv = self.ev(st, k, fr)
                self.ext.setitem(st, d, kv, self.ev(st, v, fr))
        return d

    def e_JoinedStr(self, st, n, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(C(p.value))
            else:
                v = self.ev(st, p.value, fr)
                spec = ''
                specv = None
                if p.format_spec is not None:
                    sv = self.e_JoinedStr(st, p.format_spec, fr)
                    if isinstance(sv, C):
                        spec = sv.v
                    else:
                        specv = sv
                if specv is not None:
                    parts.append(T('fv', v, specv, C(p.conversion)))
                else:
                    if self.trace_may and spec:
                        self.ext.may(st, f'format {spec}', [v])
                    parts.append(self.ext.format1(v, spec, p.conversion))
        return self.ext.concat(*parts) if parts else C('')

    def e_FormattedValue(self, st, n, fr):
        return self.ev(st, n.value, fr)

    def e_BinOp(self, st, n, fr):
        a = self.ev(st, n.left, fr)
        b = self.ev(st, n.right, fr)
        return self.binop(st, n.op, a, b, n)

    def binop(self, st, op, a, b, node):
        return self.ext.binop(st, type(op).__name__, self.resolve(st, a), self.resolve(st, b))

    def e_UnaryOp(self, st, n, fr):
        v = self.ev(st, n.operand, fr)
        return self.ext.unop(st, type(n.op).__name__, self.resolve(st, v))

    def e_BoolOp(self, st, n, fr):
        isand = isinstance(n.op, ast.And)
        return self.boolop(st, n.values, isand, fr)

    def boolop(self, st, values, isand, fr):
        v = self.ev(st, values[0], fr)
        if len(values) == 1:
            return v
        c = self.decide(st, self.truth(st, v))
        if isinstance(c, C):
            if c.v == isand:
                return self.boolop(st, values[1:], isand, fr)
            return v
        # evaluate the rest under the assumption, join
        s2 = st.fork()
        s2.assume(c, isand)
        st1 = st.fork()
        st1.assume(c, not isand)
        self.sinks.append([])
        try:
            r = self.boolop(s2, values[1:], isand, fr)
            dead = False
        except Dead:
            dead = True
        finally:
            self.sinks[-2].extend(self.sinks.pop())
        if dead:
            self.become(st, st1)
            return v
        self.become(st, merge(st1, s2))
        boolish = self.is_boolish(v) and self.is_boolish(r)
        if boolish:
            rt = self.truth(st, r)
            return conj(c, rt) if isand else disj(c, rt)
        return ite(c, r, v) if isand else ite(c, v, r)

    @staticmethod
    def is_boolish(v):
        if isinstance(v, C):
            return isinstance(v.v, bool)
        if isinstance(v, T):
            if v.op == 'ite':
                return Interp.is_boolish(v.args[1]) and Interp.is_boolish(v.args[2])
            return v.op in ('and', 'or', 'not', 'ge0', 'gt0', 'eq0', 'eq', 'in', 'isinst', 'is_none', 'is', 'truth', 'hasattr')
        return False

    def e_Compare(self, st, n, fr):
        a = self.ev(st, n.left, fr)
        cs = []
        for op, right in zip(n.ops, n.comparators):
            b = self.ev(st, right, fr)
            cs.append(self.compare(st, type(op).__name__, a, b))
            a = b
        return conj(*cs) if len(cs) > 1 else cs[0]

    def compare(self, st, op, a, b):
        return self.ext.compare(st, op, self.resolve(st, a), self.resolve(st, b))

    def e_IfExp(self, st, n, fr):
        c = self.cond(st, n.test, fr)
        return self.branch_val(st, c, lambda s: self.ev(s, n.body, fr), lambda s: self.ev(s, n.orelse, fr))

    def branch_val(self, st, c, fa, fb):
        """evaluate fa/fb under c / not c, join into st and return the ite value"""
        d = self.decide(st, c)
        if isinstance(d, C):
            return fa(st) if d.v else fb(st)
        s1, s2 = st.fork(), st.fork()
        s1.assume(d, True)
        s2.assume(d, False)
        try:
            a = fa(s1)
        except Dead:
            s1 = None
        try:
            b = fb(s2)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        if s1 is None:
            self.become(st, s2)
            return b
        if s2 is None:
            self.become(st, s1)
            return a
        self.become(st, merge(s1, s2))
        if isinstance(a, Ref) and isinstance(b, Ref) and a != b:
            pass
        return ite(d, a, b)

    def e_Subscript(self, st, n, fr):
        o = self.ev(st, n.value, fr)
        k = self.ev(st, n.slice, fr)
        return self.getitem(st, o, k, n)

    def e_Slice(self, st, n, fr):
        def g(x):
            return self.ev(st, x, fr) if x is not None else NONE
        return T('slice', g(n.lower), g(n.upper), g(n.step))

    def e_Starred(self, st, n, fr):
        return self.ev(st, n.value, fr)

    def e_Lambda(self, st, n, fr):
        return self.mkfn(st, n, fr)

    def e_Yield(self, st, n, fr):
        v = self.ev(st, n.value, fr) if n.value is not None else NONE
        y = st.get(fr.env).d.get(' yields')
        if y is not None:
            self.ext.list_append(st, y, v)
        return NONE

    def e_YieldFrom(self, st, n, fr):
        v = self.ev(st, n.value, fr)
        y = st.get(fr.env).d.get(' yields')
        if y is not None:
            self.ext.list_extend(st, y, v)
        return NONE

    def e_Await(self, st, n, fr):
        return self.ev(st, n.value, fr)

    # comprehensions -----------------------------------------------------
    def comp(self, st, gens, fr, emit):
        env = self.new(st, HEnv({}, fr.env, fr.qual + '<comp>'))
        cfr = Frame(env, fr.module, fr.fn, fr.cls, fr.depth, fr.qual)
        cfr.selfv = fr.selfv

        def rec(s, gs):
            if not gs:
                emit(s, cfr)
                return {'fall': (s, None)}
            g = gs[0]
            it = self.ev(s, g.iter, cfr)

            def body(s2, v):
                self.assign(s2, g.target, v, cfr)

                def conds(s3, ifs):
                    if not ifs:
                        return rec(s3, gs[1:])
                    c = self.cond(s3, ifs[0], cfr)
                    return self.fork_on(s3, c, lambda x: conds(x, ifs[1:]), lambda x: {'fall': (x, None)})
                try:
                    return conds(s2, g.ifs)
                except Dead:
                    return {}
            return self.iterate(s, it, body, g)
        outs = rec(st.fork(), gens)
        if 'fall' not in outs:
            raise Dead()
        self.become(st, outs['fall'][0])

    def e_ListComp(self, st, n, fr, t='list'):
        r = self.newlist(st, (), t)
        self.comp(st, n.generators, fr, lambda s, f: self.ext.list_append(s, r, self.ev(s, n.elt, f)))
        return r

    def e_SetComp(self, st, n, fr):
        return self.e_ListComp(st, n, fr, 'set')

    def e_GeneratorExp(self, st, n, fr):
        if not self.trace_may:
            return self.e_ListComp(st, n, fr, 'gen')
        st.emit('gen0', self.site)
        r = self.e_ListComp(st, n, fr, 'gen')
        st.emit('gen1', r)
        return r

    def e_DictComp(self, st, n, fr):
        r = self.newdict(st)

        def emit(s, f):
            k = self.ev(s, n.key, f)
            self.ext.setitem(s, r, k, self.ev(s, n.value, f))
        self.comp(st, n.generators, fr, emit)
        return r

    # calls ---------------------------------------------------------------
    def e_Call(self, st, n, fr):
        site = self.site
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return T('super', C(fr.cls.name if fr.cls else '?'))
        fnode = n.func
        recv = None
        if isinstance(fnode, ast.Attribute):
            # super().method(...)
            v = fnode.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                args, kw = self.args(st, n, fr)
                return self.call_super(st, fr, fnode.attr, args, kw, n)
            recv = self.ev(st, v, fr)
            args, kw = self.args(st, n, fr)
            self.site = (fr.module, getattr(n, 'lineno', 0), fr.qual)
            r = self.call_method(st, recv, fnode.attr, args, kw, n)
            # in-place mutation of a by-value array held in a variable
            self.site = site
            return r
        f = self.ev(st, fnode, fr)
        args, kw = self.args(st, n, fr)
        self.site = (fr.module, getattr(n, 'lineno', 0), fr.qual)
        if isinstance(f, Ext) and f.path in ('builtins.locals', 'builtins.vars') and not args:
            return self.newdict(st, [(C(k), v) for k, v in st.get(fr.env).d.items() if not k.startswith((' ', 'global '))])
        r = self.call(st, f, args, kw, n)
        self.site = site
        return r

    def call(self, st, f, args, kw, node):
        for i, a in enumerate(args):
            if isinstance(a, T) and a.op == 'star' and isinstance(a.args[0], T) and a.args[0].op == 'ite':
                c, x, y = a.args[0].args

                def alt(s, v):
                    v = self.resolve(s, v)
                    items = self.tuple_items(s, v)
                    if items is not None:
                        na = args[:i] + items + args[i + 1:]
                    else:
                        na = args[:i] + [T('star', v if not isinstance(v, Ref) else T('content', v))] + args[i + 1:]
                    return self.call(s, f, na, kw, node)
                args = list(args)
                return self.branch_val(st, c, lambda s: alt(s, x), lambda s: alt(s, y))
        return self.call1(st, f, args, kw, node)

    def args(self, st, n, fr):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.resolve(st, self.ev(st, a.value, fr))
                items = self.tuple_items(st, v)
                if items is not None:
                    args += items
                elif isinstance(v, Ref) and st.get(v).kind == 'seq' and len(st.get(v).segs) > 1 and all(x[0] in ('v', 'sym') for x in st.get(v).segs):
                    args += [x[1] if x[0] == 'v' else T('star', x[1]) for x in st.get(v).segs]
                else:
                    args.append(T('star', v if not isinstance(v, Ref) else T('content', v)))
            else:
                args.append(self.ev(st, a, fr))
        for k in n.keywords:
            v = self.ev(st, k.value, fr)
            if k.arg is None:
                d = self.ext.dict_concrete(st, v) if isinstance(v, Ref) else None
                if d is not None and all(isinstance(x, C) and isinstance(x.v, str) for x in d):
                    for kk, vv in d.items():
                        kw[kk.v] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def call_super(self, st, fr, name, args, kw, node):
        cls = fr.cls
        selfv = fr.selfv
        start = None
        if isinstance(selfv, Ref) and st.get(selfv).kind == 'obj' and isinstance(st.get(selfv).cls, Cls):
            mro = st.get(selfv).cls.mro()
        elif cls is not None:
            mro = cls.mro()
        else:
            return self.unk('super')
        seen = False
        for c in mro:
            if c is cls:
                seen = True
                continue
            if not seen:
                continue
            if isinstance(c, Cls) and name in c.ns:
                f = c.ns[name]
                if isinstance(f, Wrap):
                    if f.kind == 'static':
                        return self.call(st, f.fn, args, kw, node)
                    return self.call(st, BM(selfv, f.fn), args, kw, node)
                return self.call(st, BM(selfv, f), args, kw, node)
        # external base
        return self.ext.super_method(st, selfv, name, args, kw)

    def call_method(self, st, recv, name, args, kw, node):
        recv = self.resolve(st, recv)
        if isinstance(recv, T) and recv.op == 'ite' and not (is_num(recv)):
            if any(not isinstance(x, T) or x.op == 'ite' for x in recv.args[1:]) or True:
                return self.branch_val(st, recv.args[0],
                                       lambda s: self.call_method(s, recv.args[1], name, args, kw, node),
                                       lambda s: self.call_method(s, recv.args[2], name, args, kw, node))
        if isinstance(recv, (Ref, Cls, Ext, ModV, Tup, EnumM)) or (isinstance(recv, (Fn, BM, Partial))):
            f = self.getattr(st, recv, name, node)
            return self.call(st, f, args, kw, node)
        return self.ext.method(st, recv, name, args, kw)

    def call1(self, st, f, args, kw, node):
        self.budget -= 1
        if self.budget < 0:
            raise GiveUp()
        f = self.resolve(st, f)
        if isinstance(f, BM):
            fn = f.fn
            if isinstance(fn, Fn):
                return self.call_fn(st, fn, [f.self_] + list(args), kw, node)
            return self.call(st, fn, [f.self_] + list(args), kw, node)
        if isinstance(f, Fn):
            return self.call_fn(st, f, args, kw, node)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(st, f.fn, list(f.args) + list(args), k, node)
        if isinstance(f, BExt):
            return self.ext.method(st, f.recv, f.name, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(st, f, args, kw, node)
        if isinstance(f, NTCls):
            return self.ext.mk_nt(st, f, args, kw)
        if isinstance(f, Ext):
            return self.ext.call(st, f, args, kw)
        if isinstance(f, Wrap):
            return self.call(st, f.fn, args, kw, node)
        if isinstance(f, Ref):
            o = st.get(f)
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                g, _ = o.cls.lookup('__call__')
                if g is not None:
                    return self.call(st, BM(f, g), args, kw, node)
                st.emit('not_callable', f, self.site)
                self.do_raise(st, T('exc', 'TypeError', C(f'{o.cls.name} object is not callable')))
            return self.unk('call ref')
        if isinstance(f, T) and f.op == 'ite':
            return self.branch_val(st, f.args[0],
                                   lambda s: self.call(s, f.args[1], args, kw, node),
                                   lambda s: self.call(s, f.args[2], args, kw, node))
        if isinstance(f, C) and f.v is None:
            self.do_raise(st, T('exc', 'TypeError', C('None not callable')))
        if isinstance(f, T):
            return T('call', f, *[self.asval(st, a) for a in args], *[T('kw', C(k), self.asval(st, v)) for k, v in sorted(kw.items())])
        return self.unk(f'call {type(f).__name__}')

    def asval(self, st, v):
        """value usable inside a pure term: heap references are replaced by their content"""
        return self.ext.freeze(st, v)

    def instantiate(self, st, cls, args, kw, node):
        if cls.is_enum:
            return self.ext.enum_call(st, cls, args[0] if args else NONE)
        if getattr(cls, 'ntbase', None) is not None and '__new__' not in cls.ns:
            return self.ext.mk_nt(st, cls.ntbase, args, kw)
        f, owner = cls.lookup('__new__')
        ref = self.new(st, HObj(cls, {}))
        init, owner = cls.lookup('__init__')
        dcs = [c for c in cls.mro() if isinstance(c, Cls) and getattr(c, 'dataclass', False)]
        if init is not None and not (dcs and cls.mro().index(dcs[0]) < cls.mro().index(owner) and dcs[0].dcfields):
            self.call(st, BM(ref, init), args, kw, node)
            return ref
        if dcs:
            d = dcs[0]
            vals = {}
            names = [n for n, _ in d.dcfields]
            for n, a in zip(names, args):
                vals[n] = a
            vals.update(kw)
            for n, dflt in d.dcfields:
                if n not in vals:
                    if dflt is None:
                        continue
                    vals[n] = dflt
            st.mut(ref).d.update(vals)
            pi, _ = cls.lookup('__post_init__')
            if pi is not None:
                self.call(st, BM(ref, pi), [], {}, node)
            return ref
        self.ext.init_ext_base(st, ref, cls, args, kw)
        return ref

    def call_fn(self, st, fn, args, kw, node):
        if fn.module + ':' + fn.qual in self.trusted_overrides:
            return self.trusted_overrides[fn.module + ':' + fn.qual](self, st, args, kw)
        depth = len(self.frames)
        if depth > MAXDEPTH or sum(1 for f in self.frames if f.fn is fn) > 3:
            return self.unk('recursion ' + fn.qual)
        self.called[(fn.module, fn.qual)] = self.called.get((fn.module, fn.qual), 0) + 1
        env = HEnv({}, fn.closure, fn.qual)
        self.bind(st, fn, args, kw, env.d)
        # a closure env of module level functions is the module env
        ref = self.new(st, env)
        fr = Frame(ref, fn.module, fn, fn.cls, depth, fn.qual)
        if fn.cls is None and fn.closure is not None:
            for f in reversed(self.frames):
                if f.env == fn.closure:
                    fr.cls, fr.selfv = f.cls, f.selfv
                    break
        else:
            a = fn.node.args
            first = (a.posonlyargs + a.args)[:1]
            if first and fn.cls is not None:
                fr.selfv = env.d.get(first[0].arg)
        node_ = fn.node
        isgen = fn._gen
        if isgen is None:
            isgen = fn._gen = (not isinstance(node_, ast.Lambda)) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in node_.body for x in _walk_nofn(b))
        yl = None
        if isgen:
            yl = self.newlist(st, (), 'gen')
            st.mut(ref).d[' yields'] = yl
            if self.trace_may:
                st.emit('gen0', self.site)
        site = self.site
        self.frames.append(fr)
        try:
            if isinstance(node_, ast.Lambda):
                r = self.ev(st, node_.body, fr)
                return r
            # drop names not yet assigned: mark locals as UNDEF implicitly
            locs = _locals_of(node_)
            e = st.mut(ref)
            for nm in locs:
                if nm not in e.d:
                    e.d[nm] = UNDEF
            work = st.fork()
            outs = self.block(work, node_.body, fr)
        finally:
            self.frames.pop()
            self.site = site
        res, val = None, None
        for k in ('return', 'fall'):
            if k in outs:
                s, v = outs[k]
                if k == 'fall':
                    v = NONE
                if res is None:
                    res, val = s, v
                else:
                    c, _ = sel_cond(res.pc, s.pc)
                    val = ite(c, val, v)
                    res = merge(res, s)
        if res is None:
            raise Dead()
        self.become(st, res)
        if isgen:
            if self.trace_may:
                st.emit('gen1', yl)
            return yl
        return val

    def bind(self, st, fn, args, kw, d):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        args = list(args)
        star = [i for i, x in enumerate(args) if isinstance(x, T) and x.op == 'star']
        if star:
            i = star[0]
            sv = args[i].args[0]
            need = len(pos) - i
            args = args[:i] + [self.ext.elem(st, sv, C(j)) for j in range(max(0, need - (len(args) - i - 1) - sum(1 for k in kw if k in pos[i:])))] + args[i + 1:]
        for i, nm in enumerate(pos):
            if i < len(args):
                d[nm] = args[i]
            elif nm in kw:
                d[nm] = kw.pop(nm)
            else:
                di = i - (len(pos) - len(fn.defaults))
                if di >= 0:
                    d[nm] = fn.defaults[di]
                elif '**' in kw:
                    d[nm] = T('kwget', self.ext.freeze(st, kw['**']), C(nm))
                else:
                    st.emit('missing_arg', fn.qual, nm, self.site)
                    self.do_raise(st, T('exc', 'TypeError', C(f'missing argument {nm} of {fn.qual}')))
        if len(args) > len(pos):
            if a.vararg is not None:
                d[a.vararg.arg] = Tup(args[len(pos):])
            else:
                st.emit('extra_arg', fn.qual, self.site)
                self.do_raise(st, T('exc', 'TypeError', C(f'too many arguments for {fn.qual}')))
        elif a.vararg is not None:
            d[a.vararg.arg] = Tup([])
        for x, dv in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg in kw:
                d[x.arg] = kw.pop(x.arg)
            elif dv is not None:
                d[x.arg] = dv
        if a.kwarg is not None:
            extra = kw.pop('**', None)
            r = self.newdict(st, [(C(k), v) for k, v in kw.items()])
            if extra is not None:
                self.ext.dict_update(st, r, extra)
            d[a.kwarg.arg] = r
        else:
            kw.pop('**', None)
            if kw:
                st.emit('bad_kwarg', fn.qual, ','.join(kw), self.site)
                self.do_raise(st, T('exc', 'TypeError', C(f'unexpected keyword {sorted(kw)} for {fn.qual}')))

    # attributes -------------------------------------------------------------
    def getattr(self, st, o, name, node=None, default=None):
        o = self.resolve(st, o)
        if isinstance(o, Ref):
            ob = st.get(o)
            if ob.kind == 'obj':
                if name in ob.d:
                    v = ob.d[name]
                    if isinstance(v, T) and v.op == 'ite':
                        v = self.resolve(st, v)
                    if isinstance(v, T) and v.op == 'ite':
                        v = self.strip_undef(st, v, name)
                    if not isinstance(v, Undef):
                        return v
                    st.emit('undef', '.' + name, self.site)
                    self.do_raise(st, T('exc', 'AttributeError', C(name)))
                if name == '__dict__':
                    return self.newdict(st, [(C(k), v) for k, v in ob.d.items() if not k.startswith('__ext')])
                if name == '__class__':
                    return ob.cls
                if isinstance(ob.cls, Cls):
                    f, owner = ob.cls.lookup(name)
                    if f is not None:
                        if isinstance(f, Fn):
                            return BM(o, f)
                        if isinstance(f, Wrap):
                            if f.kind == 'property':
                                return self.call(st, BM(o, f.fn), [], {}, node)
                            if f.kind == 'static':
                                return f.fn
                            if f.kind == 'class':
                                return BM(ob.cls, f.fn)
                            return BM(o, f.fn)
                        return f
                    if ob.cls.ext_bases():
                        if any(b.path not in ('builtins.object',) for b in ob.cls.ext_bases()):
                            return BExt(o, name)
                    if name in ('__init__', '__eq__', '__repr__'):
                        return BExt(o, name)
                    st.emit('no_attr', ob.cls.name, name, self.site)
                    if default is not None:
                        return default
                    self.do_raise(st, T('exc', 'AttributeError', C(name)))
                return BExt(o, name)
            return BExt(o, name)
        if isinstance(o, Tup) and o.nt is not None and name in o.nt.fields:
            return o.items[o.nt.fields.index(name)]
        if isinstance(o, Tup):
            if o.nt is not None and name == '_fields':
                return Tup([C(x) for x in o.nt.fields])
            if o.nt is not None and name not in ('_asdict', '_replace', 'index', 'count', '__class__', '_make'):
                st.emit('no_attr', o.nt.name, name, self.site)
                if default is not None:
                    return default
                self.do_raise(st, T('exc', 'AttributeError', C(name)))
            return BExt(o, name)
        if isinstance(o, EnumM):
            if name == 'name':
                return C(o.name)
            if name == 'value':
                return C(o.value)
            return BExt(o, name)
        if isinstance(o, Cls):
            if o.is_enum and name in o.members:
                return o.members[name]
            if name == '__members__':
                return self.newdict(st, [(C(k), m) for k, m in o.members.items()])
            if name in ('__name__', '__qualname__'):
                return C(o.name)
            f, owner = o.lookup(name)
            if f is not None:
                if isinstance(f, Wrap):
                    if f.kind == 'static':
                        return f.fn
                    if f.kind == 'class':
                        return BM(o, f.fn)
                    return f
                return f
            return T('clsattr', C(o.name), C(name))
        if isinstance(o, NTCls):
            if name == '_fields':
                return Tup([C(x) for x in o.fields])
            return BExt(o, name)
        if isinstance(o, ModV):
            env = self.modules.get(o.name)
            if env is None and self.is_repo_mod(o.name):
                env = self.load(o.name)
                st.heap.update({k: v for k, v in self.base.heap.items() if k not in st.heap})
            d = (st.get(env) if env.a in st.heap else self.base.get(env)).d
            if name in d:
                return d[name]
            if self.is_repo_mod(o.name + '.' + name):
                self.load(o.name + '.' + name)
                st.heap.update({k: v for k, v in self.base.heap.items() if k not in st.heap})
                return ModV(o.name + '.' + name)
            return self.unk('modattr ' + name)
        if isinstance(o, Ext):
            return self.ext.ext_attr(st, o, name)
        if isinstance(o, Fn):
            if name in ('__name__', '__qualname__'):
                return C(o.qual.split('.')[-1])
            return self.unk('fnattr ' + name)
        if isinstance(o, T):
            if o.op == 'ite':
                return self.branch_val(st, o.args[0],
                                       lambda s: self.getattr(s, o.args[1], name, node),
                                       lambda s: self.getattr(s, o.args[2], name, node))
            return self.ext.term_attr(st, o, name)
        if isinstance(o, C):
            if o.v is None:
                st.emit('no_attr', 'None', name, self.site)
                self.do_raise(st, T('exc', 'AttributeError', C(name)))
            return self.ext.term_attr(st, o, name)
        if isinstance(o, Undef):
            return self.unk('undef attr')
        return BExt(o, name)

    def setattr(self, st, o, name, v, node=None):
        o = self.resolve(st, o)
        if isinstance(o, Ref):
            ob = st.get(o)
            if ob.kind == 'obj':
                if isinstance(ob.cls, Cls):
                    f, owner = ob.cls.lookup(name)
                    if isinstance(f, Wrap) and f.kind == 'property':
                        if f.setter is None:
                            st.emit('no_setter', ob.cls.name, name, self.site)
                            self.do_raise(st, T('exc', 'AttributeError', C(name)))
                        self.call(st, BM(o, f.setter), [v], {}, node)
                        return
                    g, _ = ob.cls.lookup('__setattr__')
                    if isinstance(g, Fn):
                        self.call(st, BM(o, g), [C(name), v], {}, node)
                        return
                st.mut(o).d[name] = v
                st.emit('setattr', o, name, self.site)
                return
            st.emit('mut', o, 'setattr', self.site)
            return
        if isinstance(o, Cls):
            st.emit('setattr', o, name, self.site)
            o.ns[name] = v
            return
        if isinstance(o, T) and o.op == 'ite':
            def mk(x):
                def f(s):
                    self.setattr(s, x, name, v, node)
                    return NONE
                return f
            self.branch_val(st, o.args[0], mk(o.args[1]), mk(o.args[2]))
            return
        st.emit('mut', o, 'setattr ' + name, self.site)

    def getitem(self, st, o, k, node=None):
        o = self.resolve(st, o)
        k = self.resolve(st, k) if isinstance(k, V) else k
        if isinstance(o, T) and o.op == 'ite':
            return self.branch_val(st, o.args[0],
                                   lambda s: self.getitem(s, o.args[1], k, node),
                                   lambda s: self.getitem(s, o.args[2], k, node))
        if isinstance(o, Ref) and st.get(o).kind == 'obj' and isinstance(st.get(o).cls, Cls):
            f, _ = st.get(o).cls.lookup('__getitem__')
            if f is not None:
                return self.call(st, BM(o, f), [k], {}, node)
        if isinstance(o, Cls) and o.is_enum:
            if isinstance(k, C) and k.v in o.members:
                return o.members[k.v]
            return self.ext.enum_by_name(st, o, k)
        return self.ext.getitem(st, o, k)


def _walk_nofn(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for c in ast.iter_child_nodes(n):
        yield from _walk_nofn(c)


_loc_cache = {}


def _locals_of(fn):
    r = _loc_cache.get(id(fn))
    if r is None:
        names, glob = set(), set()
        for b in fn.body:
            for x in _walk_nofn(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    glob.update(x.names)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) :
                    names.add(x.name)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    names.add(x.name)
                elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    names.add(x.name)
                elif isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    pass
        # comprehension targets are not function locals
        comp = set()
        for b in fn.body:
            for x in _walk_nofn(b):
                if isinstance(x, ast.comprehension):
                    for y in ast.walk(x.target):
                        if isinstance(y, ast.Name):
                            comp.add(y.id)
        other = set()
        for b in fn.body:
            for x in _walk_nofn(b):
                tg = []
                if isinstance(x, ast.Assign):
                    tg = x.targets
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                    tg = [x.target]
                elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                    tg = [x.optional_vars]
                for t in tg:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            other.add(y.id)
        names -= (comp - other)
        for b in fn.body:
            for x in _walk_nofn(b):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    names.add(x.name)
        r = _loc_cache[id(fn)] = names - glob
        _keep.append(fn)
    return r


_keep = []
