"""Whole-package resolution of names, attributes and calls on the syntax tree.

Only what no run could satisfy is reported: a name bound nowhere, an attribute no
class of the hierarchy defines and no statement of the package stores, a member an
enumeration does not have, a call no definition of the callee accepts."""
import ast
import builtins
import enum
import os
import symtable

IMPLICIT = {'__file__', '__name__', '__doc__', '__path__', '__spec__', '__loader__', '__package__', '__class__', '__qualname__', '__module__', '__annotations__'}
OBJ = set(dir(object)) | {'__dict__', '__name__', '__qualname__', '__annotations__', '__mro__', '__subclasses__', '__bases__'}
ENUMS = {'IntEnum', 'Enum', 'StrEnum', 'IntFlag', 'Flag'}


def sources(root):
    pkg = os.path.join(root, 'gempakio')
    for d, ds, fs in os.walk(pkg):
        ds[:] = sorted(x for x in ds if x != '__pycache__')
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                with open(p, encoding='utf-8') as fh:
                    yield os.path.relpath(p, root).replace(os.sep, '.')[:-3].removesuffix('.__init__'), fh.read(), p


class Klass:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods = {}
        self.attrs = set()
        for s in ast.walk(node):
            if isinstance(s, ast.Attribute) and isinstance(s.ctx, (ast.Store, ast.Del)):
                self.attrs.add(s.attr)
        for s in body(node.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = s
                self.attrs.add(s.name)
            elif isinstance(s, ast.ClassDef):
                self.attrs.add(s.name)
            else:
                for t in ast.walk(s):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        self.attrs.add(t.id)


def body(stmts):
    """statements of a class or module body, through if/try/with/for"""
    for s in stmts:
        yield s
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                yield from body(getattr(s, f, []))
        if isinstance(s, ast.Try):
            for h in s.handlers:
                yield from body(h.body)


class Package:
    def __init__(self, root):
        self.mods, self.text = {}, {}
        self.classes, self.funcs, self.imports = {}, {}, {}
        self.stored = set()
        self.dynamic = False
        for mod, src, path in sources(root):
            tree = ast.parse(src)
            self.mods[mod], self.text[mod] = tree, src
            self.classes[mod], self.funcs[mod], self.imports[mod] = {}, {}, {}
            for s in body(tree.body):
                if isinstance(s, ast.ClassDef):
                    self.classes[mod][s.name] = Klass(mod, s)
                elif isinstance(s, ast.FunctionDef):
                    self.funcs[mod][s.name] = s if s.name not in self.funcs[mod] else None
                elif isinstance(s, ast.ImportFrom):
                    base = '.'.join(mod.split('.')[:len(mod.split('.')) - s.level + (1 if path.endswith('__init__.py') else 0)]) if s.level else ''
                    src_mod = '.'.join(x for x in (base, s.module or '') if x)
                    for a in s.names:
                        self.imports[mod][a.asname or a.name] = (src_mod, a.name)
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.stored.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self.stored.add(n.args[1].value)
                    else:
                        self.dynamic = True

    def rebound(self, mod, name):
        """bound more than once at module level: not resolved"""
        k = 0
        for s in body(self.mods[mod].body):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name:
                k += 1
            elif isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.With)):
                k += sum(isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) and t.id == name for t in ast.walk(s))
        return k > 1

    def klass(self, mod, name, seen=()):
        c = self.classes.get(mod, {}).get(name)
        if c is not None:
            return c if not self.rebound(mod, name) else None
        imp = self.imports.get(mod, {}).get(name)
        if imp and imp[0] in self.mods and (mod, name) not in seen:
            return self.klass(*imp, seen + ((mod, name),))
        return None

    def func(self, mod, name, seen=()):
        f = self.funcs.get(mod, {}).get(name)
        if f is not None:
            return (f, mod) if not self.rebound(mod, name) else None
        imp = self.imports.get(mod, {}).get(name)
        if imp and imp[0] in self.mods and (mod, name) not in seen:
            return self.func(*imp, seen + ((mod, name),))
        return None

    def line(self, k):
        """(classes of the hierarchy above, known) : known is False where a base is foreign"""
        out, todo, known, enums = [], [k], True, False
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.append(c)
            for b in c.node.bases:
                nm = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                p = self.klass(c.mod, nm) if isinstance(b, ast.Name) else None
                if p is not None:
                    todo.append(p)
                elif nm in ENUMS:
                    enums = True
                elif nm != 'object':
                    known = False
            if c.node.decorator_list or c.node.keywords:
                known = False
        return out, known, enums

    def below(self, k):
        """classes that have k above them"""
        return [c for cs in self.classes.values() for c in cs.values() if c is not k and k in self.line(c)[0]]


def qualname(stack):
    return '.'.join(s.name for s in stack)


def names(pkg):
    """(key, line, problem or None): every name a function loads that is not its own"""
    for mod, src in pkg.text.items():
        top = symtable.symtable(src, mod, 'exec')
        bound = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        star = any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(pkg.mods[mod]))
        glob = {g for n in ast.walk(pkg.mods[mod]) if isinstance(n, ast.Global) for g in n.names}

        def go(t, path):
            bad = []
            for s in t.get_symbols():
                if s.is_referenced() and s.is_global() and not star:
                    n = s.get_name()
                    if n not in bound and n not in glob and not hasattr(builtins, n) and n not in IMPLICIT:
                        bad.append(n)
            yield f'{mod}.{path}' if path else mod, t.get_lineno(), bad
            for c in t.get_children():
                yield from go(c, f'{path}.{c.get_name()}' if path else c.get_name())
        for s in top.get_symbols():
            n = s.get_name()
            if s.is_referenced() and not (s.is_assigned() or s.is_imported() or s.is_namespace()) and not star and not hasattr(builtins, n) and n not in IMPLICIT \
                    and n not in glob:
                yield mod, 1, [n]
        for c in top.get_children():
            yield from go(c, c.get_name())


def accepts(fn, call, bound):
    """why the call does not fit the definition, or None"""
    a = fn.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if [d for d in fn.decorator_list if not (isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod'))]:
        return None
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        if not pos:
            return None if a.vararg else 'takes no instance'
        pos = pos[1:]
    if len(call.args) > len(pos) and not a.vararg:
        return f'{len(call.args)} positional arguments for {len(pos)}'
    given = set(pos[:len(call.args)])
    kwo = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in given:
            return f'{k.arg} given twice'
        if k.arg not in pos and k.arg not in kwo and not a.kwarg:
            return f'no parameter {k.arg}'
        given.add(k.arg)
    nd = len(a.defaults)
    need = pos[:len(pos) - nd] if nd else pos
    miss = [p for p in need if p not in given] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
    return f'{miss[0]} not given' if miss else None


def members(pkg):
    """(key, line, problem or None): attributes of self and of classes, calls of methods and functions"""
    for mod, tree in pkg.mods.items():
        def walk(node, stack, cls, me):
            for n in ast.iter_child_nodes(node):
                if isinstance(n, ast.ClassDef):
                    yield from walk(n, stack + [n], pkg.klass(mod, n.name) if not stack else None, None)
                elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    m = me
                    if isinstance(n, ast.FunctionDef) and isinstance(node, ast.ClassDef) or isinstance(n, ast.FunctionDef) and stack and isinstance(stack[-1], ast.ClassDef):
                        deco = {d.id for d in n.decorator_list if isinstance(d, ast.Name)}
                        m = n.args.args[0].arg if n.args.args and not deco & {'staticmethod', 'classmethod'} else None
                        if m and any(isinstance(t, ast.Name) and t.id == m and isinstance(t.ctx, ast.Store) for t in ast.walk(n)):
                            m = None
                    elif m and any(x.arg == m for x in n.args.args):
                        m = None
                    yield from walk(n, stack + ([n] if isinstance(n, ast.FunctionDef) else []), cls, m)
                else:
                    yield from site(n, stack, cls, me)
                    yield from walk(n, stack, cls, me)

        def local(stack, name):
            return any(isinstance(f, ast.FunctionDef) and (any(x.arg == name for x in ast.walk(f.args) if isinstance(x, ast.arg))
                       or any(isinstance(t, ast.Name) and t.id == name and isinstance(t.ctx, ast.Store) for t in ast.walk(f))
                       or any(isinstance(t, (ast.FunctionDef, ast.ClassDef)) and t is not f and t.name == name for t in ast.walk(f))) for f in stack)

        def site(n, stack, cls, me):
            where = f'{mod}.{qualname(stack)}' if stack else mod
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
                v = n.value.id
                if cls is not None and v == me:
                    line, known, enums = pkg.line(cls)
                    if not known or enums or any('__getattr__' in c.methods or '__getattribute__' in c.methods for c in line):
                        return
                    up = pkg.below(cls)
                    ok = any(n.attr in c.attrs for c in line + up) or n.attr in OBJ or n.attr in pkg.stored
                    yield f'{where}: {v}.{n.attr}', n.lineno, None if ok else f'no class of {cls.name} defines {n.attr} and nothing stores it'
                else:
                    k = pkg.klass(mod, v)
                    if k is None or local(stack, v):
                        return
                    line, known, enums = pkg.line(k)
                    if not known:
                        return
                    ok = any(n.attr in c.attrs for c in line) or n.attr in OBJ or n.attr in pkg.stored or enums and n.attr in set(dir(enum.EnumMeta)) | set(dir(enum.Enum)) | set(dir(int))
                    yield f'{where}: {v}.{n.attr}', n.lineno, None if ok else f'{k.name} has no member {n.attr}'
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and not local(stack, f.id):
                    d = pkg.func(mod, f.id)
                    if d is not None:
                        yield f'{where}: call of {f.id}', n.lineno, accepts(d[0], n, False)
                    else:
                        k = pkg.klass(mod, f.id)
                        if k is not None:
                            line, known, enums = pkg.line(k)
                            if known and not enums and not any('__new__' in c.methods for c in line):
                                init = next((c.methods['__init__'] for c in mro(pkg, k) if '__init__' in c.methods), None)
                                if init is not None:
                                    yield f'{where}: call of {f.id}', n.lineno, accepts(init, n, True)
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and cls is not None and f.value.id == me and f.attr not in stored_on(pkg):
                    defs = [c.methods[f.attr] for c in pkg.line(cls)[0] + pkg.below(cls) if f.attr in c.methods]
                    if defs and pkg.line(cls)[1]:
                        why = [accepts(d, n, not any(isinstance(x, ast.Name) and x.id == 'staticmethod' for x in d.decorator_list)) for d in defs]
                        yield f'{where}: call of {f.value.id}.{f.attr}', n.lineno, None if None in why else why[0]
        yield from walk(tree, [], None, None)


def stored_on(pkg):
    return pkg.stored


def mro(pkg, k):
    """bases in order, depth first: enough to find the nearest definition"""
    out = [k]
    for b in k.node.bases:
        if isinstance(b, ast.Name):
            p = pkg.klass(k.mod, b.id)
            if p is not None:
                out += [c for c in mro(pkg, p) if c not in out]
    return out
