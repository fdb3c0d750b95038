"""Which functions modify objects that outlive a call: a flow-insensitive
points-to analysis over all modules of the package.

The objects of interest are those created when a module is imported (module
level, class level, argument defaults) and the classes, functions and modules
themselves.  An abstract value is a set of
  (loc, 0)       the object
  (loc, n)       new containers that hold it n levels down
  (loc, -1)      something mutable stored in it
  ('inst', cls)  an instance of a class of the package created in a call
Objects that cannot be modified (constants, tuples of constants, results of
library functions other than the container types) are left out.
Values flow through assignments, attributes of instances (one per class
hierarchy and name), calls of functions of the package and returns.  Methods
are resolved by the classes the receiver may belong to.
"""
import ast

MUTATORS = frozenset('''append extend insert remove pop clear sort reverse
update setdefault popitem add discard __setitem__ __delitem__ __setattr__
__iadd__ __ior__ appendleft extendleft popleft rotate subtract
intersection_update difference_update symmetric_difference_update move_to_end
'''.split())
INSIDE = frozenset('''get pop setdefault values items keys popitem popleft
__getitem__ __iter__ __next__'''.split())
SHALLOW = frozenset('copy __copy__'.split())
COPIES = frozenset('''list dict tuple set frozenset sorted reversed iter
enumerate zip map filter deque OrderedDict copy defaultdict chain'''.split())
MUTABLE_CALLS = frozenset('''list dict set bytearray deque OrderedDict
defaultdict Counter'''.split())
# functions of the library that change the whole process
SETTINGS = {
    'os': 'chdir fchdir chroot umask putenv unsetenv setuid setgid nice '
          'setpriority setsid',
    'sys': 'setrecursionlimit settrace setprofile setswitchinterval '
           'set_int_max_str_digits setdlopenflags set_asyncgen_hooks',
    'locale': 'setlocale', 'warnings': 'simplefilter filterwarnings '
    'resetwarnings', 'socket': 'setdefaulttimeout',
    'random': 'seed setstate', 'signal': 'signal alarm setitimer',
    'logging': 'disable basicConfig setLoggerClass addLevelName '
    'captureWarnings', 'gc': 'disable enable set_threshold freeze',
    'codecs': 'register register_error', 'time': 'tzset',
    'threading': 'settrace setprofile stack_size', 'csv':
    'field_size_limit', 'copyreg': 'pickle',
    'tempfile': '', 'faulthandler': 'enable disable',
}


# Objects deeper in containers are not followed: what is stored in programs
# is told apart by the instructions only (rule 'paths' does that).
DEEP = 1


class Loc:
    def __init__(self, label, file, line, cls=None, kind='object',
                 value=None, mod=None):
        self.label, self.file, self.line = label, file, line
        self.cls, self.kind = cls, kind
        self.value, self.mod = value, mod
        self.mutable = self.nested = False

    def __repr__(self):
        return self.label


class Cls:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.bases, self.subs, self.methods, self.attrs = [], [], {}, {}
        self.loc = None

    def __repr__(self):
        return self.name


class Fn:
    def __init__(self, name, mod, node, cls, outer):
        self.name, self.mod, self.node = name, mod, node
        self.cls, self.outer = cls, outer
        self.qual = name if cls is None else '%s.%s' % (cls.name, name)
        if outer is not None:
            self.qual = '%s.%s' % (outer.qual, name)
        self.env = {}           # local name -> values
        self.ret = set()
        self.defaults = {}
        self.globals = set()
        self.nested = {}
        self.locals = set()
        self.imports = {}
        self.static = False


def is_mutable(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                      ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        n = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', None)
        return n in MUTABLE_CALLS or n in SHALLOW
    return False


class Effects:
    def __init__(self, prog, skip=('dummyengine',)):
        self.prog = prog
        self.mods = {}          # module -> {name: Loc|Cls|Fn|('mod', n)}
        self.classes, self.fns = [], []
        self.fields = {}        # (hierarchy, attr) -> values
        self.found = {}
        self.settings = []
        self.skip = {prog.package + '.' + s for s in skip}
        self.stores = 0
        for mod, tree in prog.trees.items():
            self.declare(mod, tree)
        for mod, tree in prog.trees.items():
            self.imports(mod, tree)
        self.link()
        self.solve()

    # ------------------------------------------------------- declarations
    def declare(self, mod, tree):
        ns = self.mods[mod] = {}
        for s in self.toplevel(tree.body):
            if isinstance(s, ast.ClassDef):
                ns[s.name] = self.make_class(s, mod)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                ns[s.name] = self.make_fn(s, mod, None, None)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                for n in self.names_of(s):
                    ns[n] = Loc('%s.%s' % (mod.rsplit('.', 1)[-1], n),
                                self.prog.files[mod], s.lineno,
                                value=s.value, mod=mod)

    def toplevel(self, body):
        for s in body:
            if isinstance(s, (ast.If, ast.Try, ast.With, ast.For,
                              ast.While)):
                for part in ('body', 'orelse', 'finalbody'):
                    yield from self.toplevel(getattr(s, part, []))
                for h in getattr(s, 'handlers', []):
                    yield from self.toplevel(h.body)
            else:
                yield s

    def names_of(self, s):
        ts = s.targets if isinstance(s, ast.Assign) else [s.target]
        for t in ts:
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    yield n.id

    def make_class(self, node, mod):
        c = Cls(node.name, mod, node)
        c.loc = Loc('class ' + node.name, self.prog.files[mod], node.lineno,
                    kind='class')
        self.classes.append(c)
        for s in self.toplevel(node.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.methods[s.name] = self.make_fn(s, mod, c, None)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                for n in self.names_of(s):
                    if isinstance(s.value, ast.Name) \
                            and s.value.id in c.methods:
                        c.methods[n] = c.methods[s.value.id]
                        continue
                    c.attrs[n] = Loc(
                        '%s.%s' % (c.name, n), self.prog.files[mod],
                        s.lineno, value=s.value, mod=mod)
        return c

    def make_fn(self, node, mod, cls, outer):
        f = Fn(getattr(node, 'name', '<lambda>'), mod, node, cls, outer)
        f.loc = Loc('function ' + f.qual, self.prog.files[mod], node.lineno,
                    kind='function')
        self.fns.append(f)
        a = node.args
        pos = a.posonlyargs + a.args
        f.params = [x.arg for x in pos]
        f.kwonly = [x.arg for x in a.kwonlyargs]
        f.vararg = a.vararg.arg if a.vararg else None
        f.kwarg = a.kwarg.arg if a.kwarg else None
        for x, d in list(zip(pos[len(pos) - len(a.defaults):],
                             a.defaults)) + [
                (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)
                if d is not None]:
            f.defaults[x.arg] = Loc(
                'default of %s in %s' % (x.arg, f.qual),
                self.prog.files[mod], node.lineno, value=d, mod=mod)
        f.locals.update(f.params, f.kwonly)
        for x in (f.vararg, f.kwarg):
            if x:
                f.locals.add(x)
        decs = [getattr(d, 'id', getattr(d, 'attr', None))
                for d in getattr(node, 'decorator_list', [])]
        f.static = 'staticmethod' in decs
        f.classm = 'classmethod' in decs
        body = node.body if isinstance(node.body, list) else [node.body]
        self.scope(f, body)
        return f

    def scope(self, f, body):
        for s in body:
            self.scope_node(f, s)

    def scope_node(self, f, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f.nested[n.name] = self.make_fn(n, f.mod, None, f)
            f.nested[n.name].selfcls = f.cls
            f.locals.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            f.nested[n] = self.make_fn(n, f.mod, None, f)
            return
        if isinstance(n, ast.ClassDef):
            return
        if isinstance(n, ast.Global):
            f.globals.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            f.locals.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            f.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                f.locals.add((a.asname or a.name).split('.')[0])
                f.imports[(a.asname or a.name).split('.')[0]] = \
                    self.imported(n, a, f.mod)
        for c in ast.iter_child_nodes(n):
            self.scope_node(f, c)

    def imported(self, n, a, mod):
        if isinstance(n, ast.Import):
            return ('mod', a.name if a.asname else a.name.split('.')[0])
        base = n.module or ''
        if n.level:
            up = mod.split('.')
            base = '.'.join(up[:len(up) - n.level] + (
                [base] if base else []))
        return ('from', base, a.name)

    def imports(self, mod, tree):
        for s in self.toplevel(tree.body):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    nm = (a.asname or a.name).split('.')[0]
                    self.mods[mod].setdefault(nm, self.imported(s, a, mod))

    def lookup(self, mod, name, depth=0):
        """What a global name stands for."""
        return self.follow(self.mods.get(mod, {}).get(name), depth)

    def follow(self, v, depth=0):
        if isinstance(v, tuple) and v[0] == 'from' and depth < 8:
            if v[1] in self.mods:
                if v[1] + '.' + v[2] in self.mods:
                    return ('mod', v[1] + '.' + v[2])
                return self.lookup(v[1], v[2], depth + 1)
            return ('mod', v[1] + '.' + v[2])
        return v

    def link(self):
        for c in self.classes:
            for b in c.node.bases:
                v = self.lookup(c.mod, b.id) if isinstance(
                    b, ast.Name) else None
                if isinstance(b, ast.Attribute) and isinstance(
                        b.value, ast.Name):
                    m = self.lookup(c.mod, b.value.id)
                    if isinstance(m, tuple) and m[1] in self.mods:
                        v = self.lookup(m[1], b.attr)
                if isinstance(v, Cls):
                    c.bases.append(v)
                    v.subs.append(c)
        for c in self.classes:
            c.root = None
        for c in self.classes:
            self.component(c, c)
        for c in self.classes:
            c.always = set()
            init = self.find_method(c, '__init__')
            seen = set()
            while init is not None and init not in seen:
                seen.add(init)
                c.always |= self.assigned(init)
                nxt = [b for b in init.cls.bases]
                init = self.find_method(nxt[0], '__init__') if nxt else None
        for c in self.classes:
            c.containers = {
                t.attr for m in c.methods.values()
                for a in ast.walk(m.node) if isinstance(a, ast.Assign)
                and (is_mutable(a.value) or self.creates(c.mod, a.value))
                for t in a.targets if isinstance(t, ast.Attribute)}
        locs = [v for ns in self.mods.values() for v in ns.values()
                if isinstance(v, Loc)]
        locs += [l for c in self.classes for l in c.attrs.values()]
        locs += [l for f in self.fns for l in f.defaults.values()]
        self.locs = locs
        for l in locs:
            self.classify(l)

    def classify(self, l):
        v = l.value
        if v is None:
            return
        l.mutable = is_mutable(v)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
            t = self.lookup(l.mod, v.func.id)
            if isinstance(t, Cls):
                l.cls, l.mutable = t, True
        if isinstance(v, ast.Name):
            # another name for the same object
            t = self.lookup(l.mod, v.id)
            l.alias = t if t is not l else None
        parts = []
        if isinstance(v, (ast.List, ast.Tuple, ast.Set)):
            parts = v.elts
        elif isinstance(v, ast.Dict):
            parts = v.values
        elif isinstance(v, (ast.ListComp, ast.SetComp)):
            parts = [v.elt]
        elif isinstance(v, ast.DictComp):
            parts = [v.value]
        elif isinstance(v, ast.Call):
            parts = v.args
        for x in parts:
            for n in ast.walk(x):
                if is_mutable(n):
                    l.nested = True
                elif isinstance(n, ast.Name):
                    t = self.lookup(l.mod, n.id)
                    if isinstance(t, Loc) and t.value is not None \
                            and is_mutable(t.value):
                        l.nested = True

    def creates(self, mod, e):
        return isinstance(e, ast.Call) and isinstance(
            e.func, ast.Name) and isinstance(self.lookup(mod, e.func.id),
                                             Cls)

    def component(self, c, root):
        if c.root is not None:
            return
        c.root = root
        for x in c.bases + c.subs:
            self.component(x, root)

    def assigned(self, init):
        """Attributes that __init__ sets on every path (top level)."""
        out = set()
        me = init.params[0] if init.params else None
        for s in init.node.body:
            for t in getattr(s, 'targets', []):
                for n in ast.walk(t):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.value, ast.Name) and n.value.id == me \
                            and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
        return out

    def find_method(self, c, name, seen=None):
        if name in c.methods:
            return c.methods[name]
        for b in c.bases:
            m = self.find_method(b, name)
            if m is not None:
                return m
        return None

    def family(self, c):
        """The class, its bases and everything derived from it."""
        out, todo = [], [c]
        while todo:
            x = todo.pop()
            if x not in out:
                out.append(x)
                todo.extend(x.subs)
        todo = list(c.bases)
        while todo:
            x = todo.pop()
            if x not in out:
                out.append(x)
                todo.extend(x.bases)
        return out

    # ------------------------------------------------------------ solving
    def solve(self):
        self.reporting = False
        for rnd in range(30):
            self.changed = False
            for f in self.fns:
                self.run(f)
            if not self.changed:
                break
        self.reporting = True
        for f in self.fns:
            self.run(f)

    def add(self, s, vals):
        n = len(s)
        s |= vals
        if len(s) != n:
            self.changed = True

    def run(self, f):
        self.f = f
        if f.cls is not None and f.params and not f.static:
            v = {(f.cls.loc, 0)} if f.classm else {('inst', f.cls)}
            self.add(f.env.setdefault(f.params[0], set()), v)
        for p, l in f.defaults.items():
            self.add(f.env.setdefault(p, set()), self.shared(l))
        body = f.node.body
        if not isinstance(body, list):
            self.add(f.ret, self.ev(body))
            return
        self.finals = []
        for s in body:
            self.stmt(s)

    def var(self, f, name):
        g = f
        while g is not None:
            if name in g.locals and name not in g.globals:
                return g.env.setdefault(name, set())
            if name in g.globals:
                break
            g = g.outer
        return None

    def is_container(self, l):
        """May have items: not an instance of a class without any."""
        if l.cls is None:
            return l.kind == 'object'
        return any(getattr(b, 'id', None) in MUTABLE_CALLS
                   for c in self.mro(l.cls) for b in c.node.bases)

    def report(self, node, what, vals, direct=False, items=False):
        if not self.reporting:
            return
        self.stores += 1
        if self.f.mod in self.skip:
            return
        for v in vals:
            if v[0] == 'inst' or v[1] > 0:
                continue
            l, how = v
            if direct and (how or l.value is None
                           or not is_mutable(l.value)):
                continue
            if items and not how and not self.is_container(l):
                continue
            if l.file and any(self.prog.files[m] == l.file
                              for m in self.skip):
                continue
            key = (self.f.qual, l.label)
            self.found.setdefault(key, (
                (self.prog.files[self.f.mod], node.lineno, self.f.qual),
                '%s %s%s' % (what, 'something in ' if how else '',
                             l.label)))

    # --------------------------------------------------------- statements
    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef, ast.Import, ast.ImportFrom,
                          ast.Global, ast.Nonlocal, ast.Pass)):
            return
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            old = self.ev(self.loaded(s.target))
            self.report(s, 'extends', old, True)
            self.assign(s.target, self.contained(self.inside(v)), s.value)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.report(s, 'deletes from', self.ev(t.value),
                                items=isinstance(t, ast.Subscript))
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.add(self.f.ret, self.ev(s.value))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.assign(s.target, self.inside(self.ev(s.iter)), None)
            self.body(s.body + s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                v = self.ev(it.context_expr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, None)
            self.body(s.body)
        elif isinstance(s, ast.Try):
            self.finals.append(s)
            self.body(s.body)
            self.finals.pop()
            for h in s.handlers:
                self.body(h.body)
            self.body(s.orelse + s.finalbody)
        else:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr):
                    self.ev(n)
                elif isinstance(n, ast.stmt):
                    self.stmt(n)
                elif isinstance(n, ast.match_case):
                    self.body(n.body)

    def body(self, stmts):
        for s in stmts:
            self.stmt(s)

    def loaded(self, t):
        t2 = ast.parse(ast.unparse(t), mode='eval').body
        ast.copy_location(t2, t)
        return t2

    def assign(self, t, v, value):
        if isinstance(t, ast.Name):
            cell = self.var(self.f, t.id)
            if cell is not None:
                self.add(cell, v)
            elif t.id in self.f.globals:
                if not self.constant(value):
                    self.global_store(t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, self.inside(v), None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            self.external(t, t)
            self.report(t, 'sets %s of' % t.attr, base)
            for x in base:
                if x[0] == 'inst':
                    self.add(self.fields.setdefault(
                        (x[1].root, t.attr), set()), v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.ev(t.slice)
            self.external(t.value, t)
            self.report(t, 'stores into', base, items=True)
            self.hold(t.value, v)

    def global_store(self, t):
        if self.reporting and self.f.mod not in self.skip:
            self.stores += 1
            self.found.setdefault((self.f.qual, t.id), (
                (self.prog.files[self.f.mod], t.lineno, self.f.qual),
                'rebinds the global name %s' % t.id))

    def constant(self, e):
        """Every evaluation gives the same object: a constant, or
        something of another module."""
        if e is None:
            return False
        while isinstance(e, ast.Attribute):
            e = e.value
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, ast.Name):
            if e.id in self.f.imports:
                return True
            return self.var(self.f, e.id) is None
        return False

    def hold(self, target, v):
        """A container comes to hold v."""
        held = self.contained(v)
        if not held:
            return
        if isinstance(target, ast.Name):
            cell = self.var(self.f, target.id)
            if cell is not None:
                self.add(cell, held)
        elif isinstance(target, ast.Attribute):
            for x in self.ev(target.value):
                if x[0] == 'inst':
                    self.add(self.fields.setdefault(
                        (x[1].root, target.attr), set()), held)

    def contained(self, v):
        return {(l, max(h, 0) + 1) for l, h in v
                if l != 'inst' and h < DEEP} | {
                    x for x in v if x[0] == 'inst'}

    def inside(self, v):
        out = set()
        for x in v:
            if x[0] == 'inst':
                out.add(x)
            elif x[1] > 0:
                out.add((x[0], x[1] - 1))
            elif x[0].nested:
                out.add((x[0], -1))
        return out

    # -------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e)
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.ev(n)
            elif isinstance(n, ast.comprehension):
                self.assign(n.target, self.inside(self.ev(n.iter)), None)
                for c in n.ifs:
                    self.ev(c)
        return set()

    def e_Name(self, e):
        cell = self.var(self.f, e.id)
        if cell is not None:
            f = self.f
            while f is not None:
                if e.id in f.nested:
                    return {(f.nested[e.id].loc, 0)}
                if e.id in f.imports:
                    return self.global_value(self.follow(f.imports[e.id]))
                f = f.outer
            return set(cell)
        return self.global_value(self.lookup(self.f.mod, e.id))

    def shared(self, l):
        """The values of a place filled at import."""
        seen = 0
        while getattr(l, 'alias', None) is not None and seen < 8:
            l, seen = l.alias, seen + 1
        if isinstance(l, (Cls, Fn)):
            return {(l.loc, 0)}
        if not isinstance(l, Loc):
            return set()
        return {(l, 0)} if l.mutable or l.nested else set()

    def global_value(self, v):
        if isinstance(v, Loc):
            return self.shared(v)
        if isinstance(v, (Cls, Fn)):
            return {(v.loc, 0)}
        return set()

    def e_Attribute(self, e):
        base = self.ev(e.value)
        out = set()
        m = self.module_of(e.value)
        if m in self.mods:
            return self.global_value(self.lookup(m, e.attr))
        if e.attr == '__class__':
            return {(c.loc, 0) for x, c in base if x == 'inst'}
        for x in base:
            if x[0] == 'inst':
                out |= self.attribute(x[1], e.attr)
            elif x[1] > 0:
                continue
            elif x[0].kind == 'class':
                c = next(c for c in self.classes if c.loc is x[0])
                for k in self.mro(c):
                    if e.attr in k.attrs:
                        out |= self.shared(k.attrs[e.attr])
                        break
            elif x[0].cls is not None and x[1] == 0 and any(
                    e.attr in k.containers for k in self.family(x[0].cls)):
                # part of an instance made at import
                out.add((x[0], -1))
        return out

    def mro(self, c):
        yield c
        for b in c.bases:
            yield from self.mro(b)

    def attribute(self, c, attr):
        out = set(self.fields.get((c.root, attr), ()))
        for k in self.family(c):
            if attr in k.attrs and attr not in k.always:
                out |= self.shared(k.attrs[attr])
            m = k.methods.get(attr)
            if m is not None and any(
                    getattr(d, 'id', None) == 'property'
                    for d in m.node.decorator_list):
                out |= m.ret
        return out

    def module_of(self, e):
        """The name of the module an expression stands for."""
        if isinstance(e, ast.Name):
            f = self.f
            while f is not None:
                if e.id in f.imports:
                    v = self.follow(f.imports[e.id])
                    return v[1] if isinstance(v, tuple) else None
                if e.id in f.locals:
                    return None
                f = f.outer
            v = self.lookup(self.f.mod, e.id)
            return v[1] if isinstance(v, tuple) else None
        if isinstance(e, ast.Attribute):
            m = self.module_of(e.value)
            return m + '.' + e.attr if m else None
        return None

    def external(self, e, node):
        """Stores into modules that are not of the package."""
        x = e
        if isinstance(x, ast.Attribute):
            m = self.module_of(x.value)
            if m is None and isinstance(x.value, ast.Attribute):
                m = self.module_of(x.value.value)
            if m is not None and self.reporting:
                if m in self.mods:
                    self.stores += 1
                    if self.f.mod not in self.skip:
                        self.found.setdefault(
                            (self.f.qual, m + '.' + x.attr),
                            ((self.prog.files[self.f.mod], node.lineno,
                              self.f.qual), 'sets %s.%s' % (m, x.attr)))
                else:
                    self.setting(ast.unparse(x), node)

    def setting(self, target, node):
        self.settings.append((self.f, target, node, list(self.finals)))

    def e_Subscript(self, e):
        v = self.ev(e.value)
        self.ev(e.slice)
        if isinstance(e.slice, ast.Slice):
            return self.contained(self.inside(v))
        return self.inside(v)

    def e_List(self, e):
        out = set()
        for x in e.elts:
            out |= self.contained(self.ev(x))
        return out
    e_Tuple = e_Set = e_List

    def e_Dict(self, e):
        out = set()
        for x in e.keys:
            if x is not None:
                self.ev(x)
        for x in e.values:
            out |= self.contained(self.ev(x))
        return out

    def comp(self, e, elts):
        for g in e.generators:
            self.assign(g.target, self.inside(self.ev(g.iter)), None)
            for c in g.ifs:
                self.ev(c)
        out = set()
        for x in elts:
            out |= self.contained(self.ev(x))
        return out

    def e_ListComp(self, e):
        return self.comp(e, [e.elt])
    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e):
        return self.comp(e, [e.key, e.value])

    def e_BoolOp(self, e):
        out = set()
        for x in e.values:
            out |= self.ev(x)
        return out

    def e_IfExp(self, e):
        self.ev(e.test)
        return self.ev(e.body) | self.ev(e.orelse)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e.value)
        return v

    def e_BinOp(self, e):
        return self.contained(self.inside(self.ev(e.left)
                                          | self.ev(e.right)))

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Lambda(self, e):
        f = self.f.nested.get(e)
        return {(f.loc, 0)} if f is not None else set()

    def e_Call(self, e):
        args = [self.ev(a) for a in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords}
        fn = e.func
        if isinstance(fn, ast.Name):
            return self.call_name(e, fn, args, kw)
        if isinstance(fn, ast.Attribute):
            return self.call_attr(e, fn, args, kw)
        vals = self.ev(fn)
        return self.call_values(vals, args, kw)

    def call_values(self, vals, args, kw):
        out = set()
        for x in vals:
            if x[0] != 'inst' and x[1] == 0:
                out |= self.call_loc(x[0], args, kw)
        return out

    def call_loc(self, l, args, kw):
        if l.kind == 'function':
            f = next(f for f in self.fns if f.loc is l)
            return self.invoke(f, args, kw)
        if l.kind == 'class':
            c = next(c for c in self.classes if c.loc is l)
            return self.construct(c, args, kw)
        return set()

    def construct(self, c, args, kw):
        init = self.find_method(c, '__init__')
        if init is not None:
            self.invoke(init, [{('inst', c)}] + args, kw)
        return {('inst', c)}

    def invoke(self, f, args, kw):
        for i, v in enumerate(args):
            if i < len(f.params):
                self.add(f.env.setdefault(f.params[i], set()), v)
            elif f.vararg:
                self.add(f.env.setdefault(f.vararg, set()),
                         self.contained(v))
        for k, v in kw.items():
            if k in f.params or k in f.kwonly:
                self.add(f.env.setdefault(k, set()), v)
            elif k is not None and f.kwarg:
                self.add(f.env.setdefault(f.kwarg, set()),
                         self.contained(v))
        return set(f.ret)

    def call_name(self, e, fn, args, kw):
        if self.var(self.f, fn.id) is None:
            v = self.lookup(self.f.mod, fn.id)
            if isinstance(v, Fn):
                return self.invoke(v, args, kw)
            if isinstance(v, Cls):
                return self.construct(v, args, kw)
            if fn.id in ('setattr', 'delattr') and args:
                self.report(e, 'sets an attribute of', {
                    x for x in args[0] if x[0] != 'inst'})
                m = self.module_of(e.args[0])
                if m is not None and self.reporting and m not in self.mods:
                    self.setting(ast.unparse(e.args[0]) + '.?', e)
                return set()
            if fn.id in ('globals', 'vars') and self.reporting:
                return {(Loc('the namespace', self.prog.files[self.f.mod],
                             e.lineno), 0)}
            if fn.id == 'type' and len(args) == 1:
                return {(c.loc, 0) for x, c in args[0] if x == 'inst'}
            if fn.id in ('getattr', 'next') and args:
                return self.inside(args[0])
            if isinstance(v, tuple) and v[0] == 'mod':
                self.library(e, v[1])
            if fn.id in COPIES or isinstance(v, tuple) \
                    and v[1].rsplit('.', 1)[-1] in COPIES:
                out = set()
                for a in args:
                    out |= self.contained(self.inside(a))
                return out
            return set()
        f = self.f
        while f is not None:
            if fn.id in f.imports:
                v = self.follow(f.imports[fn.id])
                if isinstance(v, Fn):
                    return self.invoke(v, args, kw)
                if isinstance(v, Cls):
                    return self.construct(v, args, kw)
                if isinstance(v, tuple):
                    self.library(e, v[1])
                return set()
            f = f.outer
        return self.call_values(self.ev(fn), args, kw)

    def call_attr(self, e, fn, args, kw):
        m = self.module_of(fn.value)
        if m in self.mods:
            v = self.lookup(m, fn.attr)
            if isinstance(v, Fn):
                return self.invoke(v, args, kw)
            if isinstance(v, Cls):
                return self.construct(v, args, kw)
            return set()
        if m is not None:
            self.library(e, m + '.' + fn.attr)
            if fn.attr in COPIES:
                out = set()
                for a in args:
                    out |= self.contained(self.inside(a))
                return out
        base = self.ev(fn.value)
        out = set()
        known = False
        if isinstance(fn.value, ast.Call) and isinstance(
                fn.value.func, ast.Name) and fn.value.func.id == 'super':
            base = {('inst', b) for b in self.f.cls.bases} \
                if self.f.cls else set()
        for x in base:
            if x[0] == 'inst' or getattr(x[0], 'cls', None) is not None \
                    and x[1] == 0:
                c = x[1] if x[0] == 'inst' else x[0].cls
                for k in self.family(c):
                    if fn.attr in k.methods:
                        f = k.methods[fn.attr]
                        known = True
                        out |= self.invoke(f, ([] if f.static else [
                            {x}]) + args, kw)
                out |= self.call_values(self.attribute(c, fn.attr), args,
                                        kw) if not known else set()
            elif x[1] == 0 and x[0].kind == 'class':
                c = next(c for c in self.classes if c.loc is x[0])
                f = self.find_method(c, fn.attr)
                if f is not None:
                    known = True
                    out |= self.invoke(f, [{x}] + args if f.classm
                                       else args, kw)
        if known:
            return out
        if fn.attr in MUTATORS:
            self.external(fn.value, e)
            self.report(e, '%s on' % fn.attr, base, items=True)
            for a in args:
                self.hold(fn.value, a)
        if fn.attr in INSIDE:
            out |= self.inside({x for x in base if x[0] != 'inst'})
            for a in args:
                out |= a
        if fn.attr in SHALLOW:
            out |= self.contained(self.inside({
                x for x in base if x[0] != 'inst'}))
        return out

    def library(self, e, full):
        if not self.reporting:
            return
        mod, _, name = full.rpartition('.')
        if name in SETTINGS.get(mod, '').split():
            self.setting(full + '()', e)
