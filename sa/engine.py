"""Path-sensitive abstract interpreter over the Python syntax tree.

It reads source files with ``ast`` and never imports or runs them.  A state
maps variables and heap cells to abstract values (see values.py), a finite set
of facts partitions the traces at branches, and calls that leave the analysed
code become events in the state's trace.  There is no constraint solver: a
branch is pruned only when a recorded fact, a constant or one of the axioms in
`decide` settles it.  Loops over collections of unknown length are cut after
`loop_k` abstract iterations; loops over collections whose elements are known
are exact.
"""
import ast
import builtins
import itertools
import operator
import os

from .values import (
    C, T, S, TUP, R, FUNC, BOUND, BEXT, EXT, MOD, PROP, WRAP, REGEX, MATCH,
    NONE, TRUE, FALSE, Const, Term, Str, Tup, Ref, Func, Bound, BoundExt, Ext,
    Mod, Prop, Wrapped, Regex, Match, HList, HDict, HSet, HInst, HClass, HMod,
    Event, V, walk, is_stringy)


class Budget(Exception):
    """The analysis exceeded its path budget."""


class Broken(Exception):
    """An anchor of the analysis has disappeared from the source."""


class FI:
    """Static information on one function."""
    __slots__ = ('node', 'module', 'qual', 'file', 'locals', 'globals',
                 'nonlocals', 'is_gen', 'has_nested', 'owner', 'name',
                 'params')

    def __init__(self, node, module, qual, file):
        self.node, self.module, self.qual, self.file = \
            node, module, qual, file
        self.name = getattr(node, 'name', '<lambda>')
        self.owner = None
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        names = set(self.params) | {x.arg for x in a.kwonlyargs}
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        self.globals, self.nonlocals = set(), set()
        self.is_gen = False
        self.has_nested = False
        body = node.body if isinstance(node.body, list) else [node.body]
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
                self.has_nested = True
                continue
            if isinstance(n, ast.Lambda):
                self.has_nested = True
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            elif isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    names.add((al.asname or al.name).split('.')[0])
            todo.extend(ast.iter_child_nodes(n))
        self.locals = names - self.globals - self.nonlocals

    def __repr__(self):
        return '<FI %s>' % self.qual


class State:
    __slots__ = ('frames', 'stack', 'heap', 'facts', 'subst', 'trace', 'n',
                 'over', 'excs', 'pending', 'ghost')

    def __init__(self):
        self.frames = {}
        self.stack = ()
        self.heap = {}
        self.facts = {}
        self.subst = {}
        self.trace = None
        self.n = 0
        self.over = {}
        self.excs = ()
        self.pending = None
        self.ghost = {}

    def fork(self):
        s = State.__new__(State)
        s.frames = {k: dict(f) for k, f in self.frames.items()}
        s.stack = self.stack
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.subst = dict(self.subst)
        s.trace = self.trace
        s.n = self.n
        s.over = dict(self.over)
        s.excs = self.excs
        s.pending = self.pending
        s.ghost = dict(self.ghost)
        return s

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out

    # -- convenience for rules
    def field(self, ref, name):
        return self.heap[ref.oid].fields.get(name)

    def setfield(self, ref, name, v):
        self.heap[ref.oid] = self.heap[ref.oid].with_field(name, v)

    def resolve(self, v):
        seen = 0
        while v in self.subst and seen < 10:
            v = self.subst[v]
            seen += 1
        return v


PURE = frozenset('''split rsplit strip lstrip rstrip lower upper startswith
endswith find rfind index count join encode decode isspace isdigit isalpha
isalnum splitlines title format partition rpartition get items keys values
group groups start end span replace casefold getvalue union intersection
difference issubset issuperset isdisjoint read readlines expandtabs zfill
capitalize isidentifier removeprefix removesuffix maketrans
__len__ __contains__ __getitem__ most_common fileno tell'''.split())

MUTATORS = frozenset('''append extend insert pop remove clear sort reverse
update setdefault popitem add discard __setitem__ __delitem__ write
writelines'''.split())

BUILTIN_EXC = {n: o for n, o in vars(builtins).items()
               if isinstance(o, type) and issubclass(o, BaseException)}


class Program:
    """All modules of the analysed package, loaded from source."""

    def __init__(self, root='/repo/src', package='zope.tal', skip=()):
        self.root, self.package = root, package
        self.trees = {}
        self.files = {}
        self.sources = {}
        pkgdir = os.path.join(root, *package.split('.'))
        if not os.path.isdir(pkgdir):
            raise Broken('package directory %s not found' % pkgdir)
        for fn in sorted(os.listdir(pkgdir)):
            if fn.endswith('.py'):
                name = package + ('' if fn == '__init__.py'
                                  else '.' + fn[:-3])
                path = os.path.join(pkgdir, fn)
                with open(path, encoding='utf-8') as f:
                    src = f.read()
                try:
                    self.trees[name] = ast.parse(src, path)
                except SyntaxError as e:
                    raise Broken('cannot parse %s: %s' % (path, e))
                self.files[name] = os.path.relpath(path, os.path.dirname(
                    root))
                self.sources[name] = src
        self.fis = {}
        self.mod_oid = {}
        self.loading = set()
        self.counter = itertools.count(1)
        self.base = State()
        self.base_limit = 0
        self.functions = []
        for name in self.trees:
            if name.rsplit('.', 1)[-1] not in skip:
                self.load(name)
        self.base_limit = next(self.counter)
        self.base.stack = ()
        self.base.frames = {}
        self.base.trace = None
        self.base.facts = {}
        self.base.subst = {}
        self.base.n = 0

    def load(self, name):
        if name in self.mod_oid:
            return
        oid = next(self.counter)
        self.mod_oid[name] = oid
        self.base.heap[oid] = HMod({'__name__': C(name),
                                    '__doc__': T('doc', name),
                                    '__file__': T('file', name)})
        eng = Engine(self)
        eng.module_mode = True
        fid = eng.new_frame(self.base, None, name, None)
        st = self.base
        st.stack = st.stack + (fid,)
        outs = eng.block(self.trees[name].body, st)
        for k, s, v in outs:
            if k == 'next':
                self.base = s
                break
        else:
            raise Broken('module %s does not load: %r' % (name, outs))
        self.base.stack = self.base.stack[:-1]

    # -- lookups for rules
    def module(self, name):
        full = self.package + '.' + name
        if full not in self.mod_oid:
            raise Broken('module %s not found' % full)
        return self.base.heap[self.mod_oid[full]].names

    def get(self, mod, name):
        names = self.module(mod)
        if name not in names:
            raise Broken('%s.%s not found' % (mod, name))
        return names[name]

    def cls(self, mod, name):
        v = self.get(mod, name)
        if not (isinstance(v, Ref) and self.base.heap[v.oid].kind == 'class'):
            raise Broken('%s.%s is not a class' % (mod, name))
        return v

    def mro(self, cls, heap=None):
        heap = heap or self.base.heap
        out = []

        def rec(c):
            if c in out:
                return
            out.append(c)
            if isinstance(c, Ref) and c.oid in heap:
                for b in heap[c.oid].bases:
                    rec(b)
        rec(cls)
        return out

    def method(self, cls, name, heap=None):
        heap = heap or self.base.heap
        for c in self.mro(cls, heap):
            if isinstance(c, Ref) and name in heap[c.oid].attrs:
                return heap[c.oid].attrs[name]
        return None

    def need_method(self, cls, name):
        m = self.method(cls, name)
        if m is None:
            raise Broken('%s.%s not found' % (
                self.base.heap[cls.oid].qual, name))
        return m

    def start(self):
        return self.base.fork()


def char_pairs(m):
    """(char, replacement) pairs of a translation table."""
    out = []
    for e in m.items:
        k, v = e.items
        if not (isinstance(k, Const) and isinstance(v, Const)):
            return None
        k, v = k.v, v.v
        if isinstance(k, int):
            k = chr(k)
        if isinstance(v, int) and not isinstance(v, bool):
            v = chr(v)
        if v is None:
            v = ''
        if not isinstance(k, str) or not isinstance(v, str):
            return None
        out.append((k, v))
    return tuple(out)


# A translatable message: T('msg', text, domain, default, mapping), a string
# with attributes that compares as its text.
MSG_FIELDS = ('domain', 'default', 'mapping')


def untag(v):
    """v with messages replaced by their text."""
    if isinstance(v, Term):
        if v.op == 'msg':
            return v.args[0]
        if v.op in ('listof', 'dictof', 'setof'):
            return T(v.op, *[untag(x) if isinstance(x, V) else x
                             for x in v.args])
    elif isinstance(v, Tup) and v.items:
        items = [untag(x) for x in v.items]
        if any(x is not y for x, y in zip(items, v.items)):
            return TUP(items)
    return v


def narrow(args, kw):
    """Whether these arguments of encode name an encoding that does not have
    all characters, and let it fail on those it lacks."""
    codec = args[0] if args else kw.get('encoding')
    errors = args[1] if len(args) > 1 else kw.get('errors')
    return errors in (None, C('strict')) and isinstance(codec, Const) \
        and isinstance(codec.v, str) \
        and not codec.v.lower().startswith(('utf', 'u8', 'gb18030'))


class Engine:
    def __init__(self, prog, hooks=(), loop_k=2, while_k=3, max_states=20000,
                 depth=40, sentinels=(), assert_raises=False):
        self.prog = prog
        self.hooks = list(hooks)
        self.loop_k, self.while_k = loop_k, while_k
        self.max_states = max_states
        self.max_depth = depth
        self.sentinels = set(sentinels)
        self.assert_raises = assert_raises
        self.module_mode = False
        self.dropped = 0
        self.steps = 0
        self.functions_seen = set()
        self.nonnull = set()
        # whether text may have characters that a narrow encoding lacks
        self.any_text = False
        self.recursion = 3
        self.shared = []        # stores into objects made at import

    # ------------------------------------------------------------ frames
    def new_frame(self, st, fi, modname, parent):
        fid = next(self.prog.counter)
        st.frames[fid] = {' fi': fi, ' mod': modname, ' parent': parent}
        return fid

    def frame(self, st):
        return st.frames[st.stack[-1]]

    def loc(self, st, node):
        f = st.frames[st.stack[-1]] if st.stack else None
        if f is None:
            return ('?', 0, '?')
        fi = f[' fi']
        return (self.prog.files.get(f[' mod'], '?'),
                getattr(node, 'lineno', 0),
                fi.qual if fi else '<module>')

    def alloc(self, st, obj):
        oid = next(self.prog.counter)
        st.heap[oid] = obj
        return R(oid)

    def event(self, st, kind, recv, name, args, kw, result, node):
        ev = Event(kind, recv, name, tuple(args), tuple(kw), result,
                   self.loc(st, node), st.n)
        st.n += 1
        st.trace = (ev, st.trace)
        return ev

    # ------------------------------------------------------------ names
    def lookup(self, st, name):
        fid = st.stack[-1]
        f = st.frames[fid]
        fi = f[' fi']
        first = True
        while f is not None:
            if name in f:
                return f[name]
            fi = f[' fi']
            if first and fi is not None and name in fi.locals:
                if f.get(' class'):
                    pass
                else:
                    return None
            first = False
            p = f[' parent']
            f = st.frames.get(p) if p is not None else None
        mod = st.frames[st.stack[-1]][' mod']
        names = st.heap[self.prog.mod_oid[mod]].names
        if name in names:
            return names[name]
        if hasattr(builtins, name):
            return EXT('builtins.' + name)
        if name in ('__builtins__',):
            return T('global', name)
        return None

    def store(self, st, name, v, node=None):
        fid = st.stack[-1]
        f = st.frames[fid]
        fi = f[' fi']
        if f.get(' class'):
            f[name] = v
            return
        if fi is None or name in fi.globals:
            mo = self.prog.mod_oid[f[' mod']]
            names = dict(st.heap[mo].names)
            names[name] = v
            st.heap[mo] = HMod(names)
            if not self.module_mode:
                self.event(st, 'setglobal', MOD(f[' mod']), name, (v,), (),
                           NONE, node)
                self.shared.append((self.loc(st, node), name, v))
            return
        if name in fi.nonlocals:
            p = f[' parent']
            while p is not None:
                pf = st.frames.get(p)
                if pf is None:
                    break
                if name in pf:
                    pf[name] = v
                    return
                p = pf[' parent']
        f[name] = v

    # ------------------------------------------------------------ blocks
    def block(self, stmts, st):
        outs = []
        cur = [st]
        for s in stmts:
            nxt = []
            for x in cur:
                for o in self.stmt(s, x):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            cur = nxt
            if len(cur) + len(outs) > self.max_states:
                raise Budget('more than %d states' % self.max_states)
            if not cur:
                break
        outs.extend(('next', s, None) for s in cur)
        return outs

    def stmt(self, node, st):
        self.steps += 1
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            return [('next', st, None)]
        return m(node, st)

    @staticmethod
    def lift(outs, f):
        """f(st, v) -> stmt outcomes, for each ok outcome."""
        res = []
        for k, s, v in outs:
            if k == 'ok':
                res.extend(f(s, v))
            else:
                res.append((k, s, v))
        return res

    bind = lift

    def s_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [('next', st, None)]
        return self.lift(self.ev(node.value, st),
                         lambda s, v: [('next', s, None)])

    def s_Pass(self, node, st):
        return [('next', st, None)]

    def s_Return(self, node, st):
        if node.value is None:
            return [('return', st, NONE)]
        return self.lift(self.ev(node.value, st),
                         lambda s, v: [('return', s, v)])

    def s_Break(self, node, st):
        return [('break', st, None)]

    def s_Continue(self, node, st):
        return [('continue', st, None)]

    def s_Global(self, node, st):
        return [('next', st, None)]

    s_Nonlocal = s_Global

    def s_Assign(self, node, st):
        def f(s, v):
            outs = [('ok', s, v)]
            for t in node.targets:
                outs = self.lift(outs, lambda s2, v2, t=t: [
                    ('ok', s3, v2) if k == 'next' else (k, s3, x)
                    for k, s3, x in self.assign(t, v2, s2)])
            return [('next', s2, None) if k == 'ok' else (k, s2, x)
                    for k, s2, x in outs]
        return self.lift(self.ev(node.value, st), f)

    def s_AnnAssign(self, node, st):
        fr = self.frame(st)
        if fr.get(' class') and isinstance(node.target, ast.Name):
            fr[' annotated'] = fr.get(' annotated', ()) + (node.target.id,)
        if node.value is None:
            return [('next', st, None)]
        return self.lift(self.ev(node.value, st),
                         lambda s, v: self.assign(node.target, v, s))

    def s_AugAssign(self, node, st):
        t = node.target
        load = ast.copy_location(_as_load(t), t)

        def f(s, vals):
            old, new = vals
            if isinstance(node.op, ast.Add) and isinstance(old, Ref) \
                    and s.heap[old.oid].kind in ('list', 'inst'):
                outs = self.list_method(s, old, 'extend', [new], {}, node)
                return self.lift(outs, lambda s2, v: self.assign(t, old, s2))
            if isinstance(node.op, ast.BitOr) and isinstance(old, Ref) \
                    and s.heap[old.oid].kind in ('set', 'dict'):
                outs = self.call(s, BEXT(old, 'update'), [new], {}, node)
                return self.lift(outs, lambda s2, v: self.assign(t, old, s2))
            outs = self.binop(s, node.op, old, new, node)
            return self.lift(outs, lambda s2, v: self.assign(t, v, s2))
        return self.lift(self.ev_many([load, node.value], st), f)

    def s_Delete(self, node, st):
        outs = [('next', st, None)]
        for t in node.targets:
            new = []
            for k, s, v in outs:
                if k != 'next':
                    new.append((k, s, v))
                else:
                    new.extend(self.delete(t, s))
            outs = new
        return outs

    def delete(self, t, st):
        if isinstance(t, ast.Name):
            self.frame(st).pop(t.id, None)
            return [('next', st, None)]
        if isinstance(t, ast.Attribute):
            def f(s, o):
                if isinstance(o, Ref) and s.heap[o.oid].kind == 'inst':
                    h = s.heap[o.oid]
                    fl = dict(h.fields)
                    fl.pop(t.attr, None)
                    s.heap[o.oid] = HInst(h.cls, fl, h.data, h.lazy)
                else:
                    self.event(s, 'delattr', o, t.attr, (), (), NONE, t)
                return [('next', s, None)]
            return self.lift(self.ev(t.value, st), f)
        if isinstance(t, ast.Subscript):
            def f(s, vals):
                o, i = vals
                return self.delitem(s, o, i, t)
            return self.lift(self.ev_many([t.value, t.slice], st), f)
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = [('next', st, None)]
            for e in t.elts:
                outs = [o2 for o in outs for o2 in (
                    self.delete(e, o[1]) if o[0] == 'next' else [o])]
            return outs
        return [('next', st, None)]

    def delitem(self, st, o, i, node):
        if isinstance(o, Ref):
            self.note_mut(st, o, '__delitem__', (i,), node)
            h = st.heap[o.oid]
            lst = h if h.kind == 'list' else getattr(h, 'data', None)
            if isinstance(lst, HList):
                new = None
                if isinstance(i, Term) and i.op == 'sliceobj':
                    rng = self.slice_range(st, lst, i)
                    if rng is not None:
                        a, b = rng
                        new = HList(lst.items[:a] + lst.items[b:], lst.base,
                                    lst.pop)
                elif isinstance(i, Const) and isinstance(i.v, int):
                    n = len(lst.items)
                    k = i.v
                    if k < 0 and -k <= n:
                        k += n
                        new = HList(lst.items[:k] + lst.items[k + 1:],
                                    lst.base, lst.pop)
                    elif k >= 0 and lst.base is None and k < n:
                        new = HList(lst.items[:k] + lst.items[k + 1:],
                                    lst.base, lst.pop)
                    elif k == -1 and lst.base is not None:
                        new = HList((), lst.base, lst.pop + 1)
                    elif lst.base is None:
                        return [('raise', st, self.exc('IndexError'))]
                if new is None:
                    new = HList((), T('deleted', lst.base or NONE,
                                      TUP(lst.items), i, C(st.n)))
                self.set_list(st, o, new)
                return [('next', st, None)]
            if h.kind == 'dict':
                res = []
                for s, found, v in self.dict_find(st, o, i):
                    hh = s.heap[o.oid]
                    if found:
                        s.heap[o.oid] = HDict(
                            [e for e in hh.entries
                             if e[0] is not v[0]] if v[1] else hh.entries,
                            hh.base, hh.gone + ((i,) if hh.base is not None
                                                else ()))
                        res.append(('next', s, None))
                    else:
                        res.append(('raise', s, self.exc('KeyError', i)))
                return res
            return [('next', st, None)]
        self.event(st, 'delitem', o, '__delitem__', (i,), (), NONE, node)
        st.over[('item', o, i)] = T('deleted', o, i)
        return [('next', st, None)]

    def exc(self, name, *args):
        return T('exc', name, *args)

    # ------------------------------------------------------------ assign
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.store(st, t.id, v, t)
            return [('next', st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        if isinstance(t, ast.Attribute):
            return self.lift(self.ev(t.value, st),
                             lambda s, o: self.setattr(s, o, t.attr, v, t))
        if isinstance(t, ast.Subscript):
            def f(s, vals):
                return self.setitem(s, vals[0], vals[1], v, t)
            return self.lift(self.ev_many([t.value, t.slice], st), f)
        return [('next', st, None)]

    def as_items(self, st, v):
        """Known element list of a value, or None."""
        v = st.resolve(v)
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            h = st.heap[v.oid]
            if h.kind == 'list' and h.base is None:
                return list(h.items)
            if h.kind == 'inst' and isinstance(h.data, HList) \
                    and h.data.base is None:
                return list(h.data.items)
            if h.kind == 'set' and h.base is None:
                # no particular order, so not the order of insertion
                return list(reversed(h.items))
            if h.kind == 'dict' and h.base is None:
                return [k for k, _ in h.entries]
        if isinstance(v, Const) and isinstance(v.v, str):
            return [C(c) for c in v.v]
        return None

    def unpack(self, t, v, st):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        items = self.as_items(st, v)
        if items is not None:
            if star:
                k = star[0]
                if len(items) < n - 1:
                    return [('raise', st, self.exc('ValueError'))]
                tail = n - 1 - k
                mid = items[k:len(items) - tail]
                items = items[:k] + [self.alloc(st, HList(mid))] \
                    + items[len(items) - tail:]
            if len(items) != n:
                self.event(st, 'badunpack', v, str(n), (C(len(items)),), (),
                           NONE, t)
                return [('raise', st, self.exc('ValueError'))]
        else:
            self.event(st, 'unpack', v, str(n), (), (), NONE, t)
            if star:
                k = star[0]
                items = []
                for i in range(n):
                    if k == 0 and isinstance(v, Term):
                        # all but the last few elements, as after popping
                        items.append(st.resolve(T('top', v, C(n - i))) if i
                                     else self.alloc(st, HList((), v, n - 1)))
                    elif i < k:
                        items.append(self.item(st, v, C(i)))
                    elif i == k:
                        items.append(T('slice', v, C(k), C(i + 1 - n)
                                       if i + 1 < n else NONE))
                    else:
                        items.append(self.item(st, v, C(i - n)))
            else:
                items = [self.item(st, v, C(i)) for i in range(n)]
        outs = [('next', st, None)]
        for e, x in zip(t.elts, items):
            outs = [o2 for o in outs for o2 in (
                self.assign(e, x, o[1]) if o[0] == 'next' else [o])]
        return outs

    def note_mut(self, st, o, what, args, node):
        """Mutation of a heap object that existed before the analysed call."""
        if isinstance(o, Ref) and o.oid < self.prog.base_limit \
                and not self.module_mode and self.prog.base_limit:
            self.event(st, 'shared_mut', o, what, args, (), NONE, node)
            self.shared.append((self.loc(st, node), o, what))

    def setattr(self, st, o, name, v, node):
        o = st.resolve(o)
        if isinstance(o, Ref):
            h = st.heap[o.oid]
            self.note_mut(st, o, 'setattr ' + name, (v,), node)
            if h.kind == 'inst':
                cv = self.class_attr(st, h.cls, name)
                if isinstance(cv, Prop) and cv.fset is not None:
                    outs = self.call(st, cv.fset, [o, v], {}, node)
                    return self.lift(outs, lambda s, x: [('next', s, None)])
                for hk in self.hooks:
                    f = getattr(hk, 'on_setattr', None)
                    if f:
                        f(self, st, o, name, v, node)
                st.heap[o.oid] = h.with_field(name, v)
                return [('next', st, None)]
            if h.kind == 'class':
                st.heap[o.oid] = h.with_attr(name, v)
                return [('next', st, None)]
        if isinstance(o, Mod) and o.name in self.prog.mod_oid:
            mo = self.prog.mod_oid[o.name]
            names = dict(st.heap[mo].names)
            names[name] = v
            st.heap[mo] = HMod(names)
            self.event(st, 'setglobal', o, name, (v,), (), NONE, node)
            self.shared.append((self.loc(st, node), name, v))
            return [('next', st, None)]
        self.event(st, 'setattr', o, name, (v,), (), NONE, node)
        st.over[('attr', o, name)] = v
        return [('next', st, None)]

    def set_list(self, st, o, lst):
        h = st.heap[o.oid]
        if h.kind == 'inst':
            st.heap[o.oid] = h.with_data(lst)
        else:
            st.heap[o.oid] = lst

    def get_list(self, st, o):
        h = st.heap[o.oid]
        if h.kind == 'list':
            return h
        if h.kind == 'inst' and isinstance(h.data, HList):
            return h.data
        return None

    def setitem(self, st, o, i, v, node):
        o = st.resolve(o)
        i = st.resolve(i)
        if isinstance(o, Ref):
            self.note_mut(st, o, '__setitem__', (i, v), node)
            h = st.heap[o.oid]
            m = None
            if h.kind == 'inst':
                m = self.class_attr(st, h.cls, '__setitem__')
            if m is not None:
                return self.lift(self.call(st, BOUND(o, m), [i, v], {}, node),
                                 lambda s, x: [('next', s, None)])
            lst = self.get_list(st, o)
            if lst is not None:
                if isinstance(i, Const) and isinstance(i.v, int):
                    k = i.v
                    n = len(lst.items)
                    if k < 0:
                        k += n
                    if 0 <= k < n and (lst.base is None or i.v < 0):
                        self.set_list(st, o, HList(
                            lst.items[:k] + (v,) + lst.items[k + 1:],
                            lst.base, lst.pop))
                        return [('next', st, None)]
                    if lst.base is None:
                        return [('raise', st, self.exc('IndexError'))]
                if isinstance(i, Term) and i.op == 'sliceobj':
                    rng = self.slice_range(st, lst, i)
                    items = self.as_items(st, v)
                    if rng is not None and items is not None:
                        a, b = rng
                        self.set_list(st, o, HList(
                            lst.items[:a] + tuple(items) + lst.items[b:],
                            lst.base, lst.pop))
                        return [('next', st, None)]
                self.set_list(st, o, HList((), T(
                    'setitem', lst.base or NONE, TUP(lst.items), i, v)))
                return [('next', st, None)]
            if h.kind == 'dict':
                res = []
                for s, found, e in self.dict_find(st, o, i):
                    hh = s.heap[o.oid]
                    if found and e[1]:
                        s.heap[o.oid] = HDict(
                            [(k, v if k is e[0] else x)
                             for k, x in hh.entries], hh.base, hh.gone)
                    else:
                        s.heap[o.oid] = HDict(hh.entries + ((i, v),),
                                              hh.base, hh.gone)
                    res.append(('next', s, None))
                return res
            return [('next', st, None)]
        self.event(st, 'setitem', o, '__setitem__', (i, v), (), NONE, node)
        st.over[('item', o, i)] = v
        return [('next', st, None)]

    # ------------------------------------------------------------ control
    def s_If(self, node, st):
        res = self.replace_if_present(node, st)
        if res is not None:
            return res
        res = []
        for k, s, b in self.cond(node.test, st):
            if k != 'ok':
                res.append((k, s, b))
            elif b:
                res.extend(self.block(node.body, s))
            else:
                res.extend(self.block(node.orelse, s))
        return res

    def replace_if_present(self, node, st):
        """`if c in s: s = s.replace(c, r)` as `s = s.replace(c, r)`."""
        t = node.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1
                and isinstance(t.ops[0], ast.In) and not node.orelse
                and isinstance(t.comparators[0], ast.Name)
                and len(node.body) == 1
                and isinstance(node.body[0], ast.Assign)
                and len(node.body[0].targets) == 1
                and isinstance(node.body[0].targets[0], ast.Name)
                and node.body[0].targets[0].id == t.comparators[0].id):
            return None
        both = ast.copy_location(ast.Tuple([t.left, t.comparators[0]],
                                           ast.Load()), t)
        outs = self.ev(both, st.fork())
        if len(outs) != 1 or outs[0][0] != 'ok':
            return None
        s, old = outs[0][1], outs[0][2]
        c, x = (s.resolve(i) for i in old.items)
        if not isinstance(x, (Term, Str)):
            return None
        outs = self.block(node.body, s)
        if len(outs) != 1 or outs[0][0] != 'next':
            return None
        s = outs[0][1]
        outs = self.ev(t.comparators[0], s)
        if len(outs) != 1 or outs[0][0] != 'ok':
            return None
        v = outs[0][2]
        if isinstance(v, Term) and v.op == 'replace' and len(v.args) == 3 \
                and v.args[0] is x and v.args[1] is c:
            return [('next', outs[0][1], None)]
        return None

    def s_Assert(self, node, st):
        # an assertion is trusted, unless it is known to fail here
        res = []
        outs = self.cond(node.test, st)
        for k, s, b in outs:
            if k != 'ok':
                res.append((k, s, b))
            elif b:
                res.append(('next', s, None))
            elif self.assert_raises or len(outs) == 1:
                res.append(('raise', s, self.exc('AssertionError')))
            else:
                self.dropped += 1
        return res

    def s_While(self, node, st):
        res = []
        work = [(st, 0, 0)]
        while work:
            s, und, tot = work.pop()
            outs = self.cond(node.test, s)
            forked = len([1 for o in outs if o[0] == 'ok']) > 1
            for k, s2, b in outs:
                if k != 'ok':
                    res.append((k, s2, b))
                    continue
                if not b:
                    res.extend(self.block(node.orelse, s2))
                    continue
                u2 = und + 1 if forked else und
                if u2 > self.while_k or tot > 200:
                    self.dropped += 1
                    continue
                done = self.block(node.body, s2)
                kinds = {o[0] for o in done}
                if isinstance(node.test, ast.Constant) and kinds & {
                        'next', 'continue'} and kinds & {'break', 'return'}:
                    # the test is in the body
                    u2 += 1
                for o in done:
                    if o[0] in ('next', 'continue'):
                        if u2 > self.while_k:
                            self.dropped += 1
                            continue
                        work.append((o[1], u2, tot + 1))
                    elif o[0] == 'break':
                        res.append(('next', o[1], None))
                    else:
                        res.append(o)
            if len(res) + len(work) > self.max_states:
                raise Budget('while loop')
        return res

    def s_For(self, node, st):
        def run(s0, itv):
            res = []
            for s, elems in self.iterate(s0, itv, node):
                cur = [s]
                for e in elems:
                    nxt = []
                    for x in cur:
                        outs = self.assign(node.target, e, x)
                        for k, s2, v in outs:
                            if k != 'next':
                                res.append((k, s2, v))
                                continue
                            for o in self.block(node.body, s2):
                                if o[0] in ('next', 'continue'):
                                    nxt.append(o[1])
                                elif o[0] == 'break':
                                    res.append(('next', o[1], None))
                                else:
                                    res.append(o)
                    cur = nxt
                    if len(cur) + len(res) > self.max_states:
                        raise Budget('for loop')
                for x in cur:
                    res.extend(self.block(node.orelse, x))
            return res
        return self.lift(self.ev(node.iter, st), run)

    def iterate(self, st, v, node):
        """List of (state, elements) alternatives for iterating over v."""
        v = st.resolve(v)
        items = self.as_items(st, v)
        if items is not None:
            return [(st, items)]
        base, tail, pop = v, (), 0
        if isinstance(v, Ref):
            h = st.heap[v.oid]
            lst = self.get_list(st, v)
            if lst is not None:
                base, tail, pop = lst.base, lst.items, lst.pop
            elif h.kind == 'dict':
                base, tail = h.base, tuple(k for k, _ in h.entries)
            elif h.kind == 'set':
                base, tail = h.base, h.items
            elif h.kind == 'inst':
                m = self.class_attr(st, h.cls, '__iter__')
                if m is not None:
                    outs = self.call(st, BOUND(v, m), [], {}, node)
                    res = []
                    for k, s, x in outs:
                        if k == 'ok' and x is not v:
                            res.extend(self.iterate(s, x, node))
                    if res:
                        return res
        alts = []
        # a fact that the collection is empty removes the other alternatives
        empty = None
        if isinstance(base, Term) and pop == 0:
            t = self.decide(st, base)
            empty = None if t is None else not t
            if base.op == 'm' and base.args[0] in ('split', 'rsplit') \
                    and len(base.args) > 2:
                empty = False       # splitting at a separator
        elif isinstance(base, Term):
            t = self.decide(st, T('nonempty', base, C(pop)))
            empty = None if t is None else not t
        for k in range(self.loop_k + 1):
            if (empty is True and k > 0) or (empty is False and k == 0):
                continue
            s = st.fork()
            if isinstance(base, Term) and base.op == 'enumerate':
                el = [TUP([T('idx', base.args[0], C(j)),
                           self.elem(s, base.args[0], j)]) for j in range(k)]
            elif isinstance(base, Term) and base.op == 'zip':
                el = [TUP([self.elem(s, b, j) for b in base.args])
                      for j in range(k)]
            else:
                el = [self.elem(s, base, j) for j in range(k)]
                if isinstance(v, Ref) and st.heap[v.oid].kind == 'set':
                    el.reverse()
            s.ghost[('iter', base, s.n)] = k
            alts.append((s, el + list(tail)))
        return alts

    def elem(self, st, base, j):
        if isinstance(base, Term) and base.op in ('listof', 'sorted',
                                                  'reversed', 'iter'):
            return self.elem(st, base.args[0], j)
        v = T('elem', base, C(j))
        return st.resolve(v)

    def s_Raise(self, node, st):
        if node.exc is None:
            e = st.excs[-1] if st.excs else T('excopaque', C('reraise'))
            return [('raise', st, e)]

        def f(s, v):
            if isinstance(v, Ref) and s.heap[v.oid].kind == 'class' \
                    or isinstance(v, Ext):
                return [('raise', s2, x) for k, s2, x in
                        self.call(s, v, [], {}, node)]
            return [('raise', s, v)]
        return self.lift(self.ev(node.exc, st), f)

    def exc_matches(self, st, e, t):
        """True / False / None(unknown)."""
        e = st.resolve(e)
        if isinstance(e, Term) and e.op == 'excof' and e.args[0] is t:
            return True
        if isinstance(t, Tup):
            r = [self.exc_matches(st, e, x) for x in t.items]
            if True in r:
                return True
            return None if None in r else False
        if isinstance(t, Ext):
            tn = t.name.rsplit('.', 1)[-1]
            if tn == 'Exception' and isinstance(e, Term) \
                    and e.op == 'excopaque' and len(e.args) == 1:
                return None  # an engine may raise any exception
            if tn in ('BaseException', 'Exception'):
                return True
            if isinstance(e, Term) and e.op == 'exc':
                a, b = BUILTIN_EXC.get(e.args[0]), BUILTIN_EXC.get(tn)
                if a and b:
                    return issubclass(a, b)
                return e.args[0] == tn
            if isinstance(e, Ref):
                for c in self.prog.mro(st.heap[e.oid].cls, st.heap):
                    if isinstance(c, Ext):
                        cn = c.name.rsplit('.', 1)[-1]
                        a, b = BUILTIN_EXC.get(cn), BUILTIN_EXC.get(tn)
                        if a and b and issubclass(a, b):
                            return True
                return False
            return None
        if isinstance(t, Ref):
            if isinstance(e, Ref):
                return t in self.prog.mro(st.heap[e.oid].cls, st.heap)
            if isinstance(e, Term) and e.op == 'exc':
                return False
            return None
        if isinstance(e, Term) and e.op == 'excopaque' and len(e.args) > 1:
            return e.args[1] is t
        if isinstance(e, Term) and e.op == 'exc':
            return False
        if isinstance(e, Ref):
            return False if isinstance(t, Term) and t.op == 'res' else None
        return None

    def s_Try(self, node, st):
        depth = st.excs
        outs = self.block(node.body, st)
        mid = []
        for k, s, v in outs:
            if k == 'raise' and node.handlers:
                mid.extend(self.handle(node.handlers, s, v))
            elif k == 'next' and node.orelse:
                mid.extend(self.block(node.orelse, s))
            else:
                mid.append((k, s, v))
        if not node.finalbody:
            return mid
        res = []
        for k, s, v in mid:
            saved = s.excs
            if k == 'raise':
                s.excs = depth + (v,)
            for k2, s2, v2 in self.block(node.finalbody, s):
                if k2 == 'next':
                    s2.excs = saved
                    res.append((k, s2, v))
                else:
                    res.append((k2, s2, v2))
        return res

    s_TryStar = s_Try

    def handle(self, handlers, st, exc):
        res = []
        cur = [st]
        for h in handlers:
            nxt = []
            for s in cur:
                if h.type is None:
                    outs = [('ok', s, None)]
                else:
                    outs = self.ev(h.type, s)
                for k, s2, t in outs:
                    if k != 'ok':
                        res.append((k, s2, t))
                        continue
                    m = True if t is None else self.exc_matches(s2, exc, t)
                    if m is not True:
                        nxt.append(s2 if m is False else s2.fork())
                    if m is not False:
                        saved = s2.excs
                        s2.excs = saved + (exc,)
                        if h.name:
                            self.store(s2, h.name, exc, h)
                        for k3, s3, v3 in self.block(h.body, s2):
                            s3.excs = saved
                            if h.name and s3.stack:
                                self.frame(s3).pop(h.name, None)
                            res.append((k3, s3, v3))
            cur = nxt
        res.extend(('raise', s, exc) for s in cur)
        return res

    def s_With(self, node, st):
        return self.with_items(node, list(node.items), st)

    def with_items(self, node, items, st):
        if not items:
            return self.block(node.body, st)
        it, rest = items[0], items[1:]

        def enter(s, cm):
            cm = s.resolve(cm)
            if isinstance(cm, Wrapped) and cm.kind == 'cm':
                return self.with_gen(node, it, rest, s, cm)
            if isinstance(cm, Ref) and s.heap[cm.oid].kind == 'inst':
                em = self.class_attr(s, s.heap[cm.oid].cls, '__enter__')
                xm = self.class_attr(s, s.heap[cm.oid].cls, '__exit__')
                if em is not None and xm is not None:
                    return self.with_obj(node, it, rest, s, cm, em, xm)
            v = cm
            if isinstance(cm, Term) and cm.op == 'closing':
                v = cm.args[0]
            suppress = isinstance(cm, Term) and cm.op == 'suppress'
            self.event(s, 'with_enter', v, '', (), (), NONE, node)

            def body(s2):
                outs = self.with_items(node, rest, s2)
                for k, s3, x in outs:
                    self.event(s3, 'with_exit', v, '', (), (), NONE, node)
                if suppress:
                    outs = [('next', s3, None) if k == 'raise'
                            else (k, s3, x) for k, s3, x in outs]
                return outs
            if it.optional_vars is not None:
                return [o2 for o in self.assign(it.optional_vars, v, s)
                        for o2 in (body(o[1]) if o[0] == 'next' else [o])]
            return body(s)
        return self.lift(self.ev(it.context_expr, st), enter)

    def with_obj(self, node, it, rest, st, cm, em, xm):
        def entered(s, v):
            outs = [('next', s, None)]
            if it.optional_vars is not None:
                outs = self.assign(it.optional_vars, v, s)
            res = []
            for o in outs:
                if o[0] != 'next':
                    res.append(o)
                    continue
                for k, s2, x in self.with_items(node, rest, o[1]):
                    args = [NONE, NONE, NONE]
                    if k == 'raise':
                        args = [T('class_of', x), x, T('tb', x)]
                    for k2, s3, y in self.call(s2, BOUND(cm, xm), args, {},
                                               node):
                        if k2 != 'ok':
                            res.append((k2, s3, y))
                        elif k == 'raise':
                            for s4, b in self.truth(s3, y):
                                res.append(('next', s4, None) if b
                                           else (k, s4, x))
                        else:
                            res.append((k, s3, x))
            return res
        return self.lift(self.call(st, BOUND(cm, em), [], {}, node), entered)

    def with_gen(self, node, it, rest, st, cm):
        """Expand a @contextmanager generator around the with body."""
        caller = st.stack
        fn = cm.fn
        recv = []
        if isinstance(fn, Bound):
            recv, fn = [fn.recv], fn.fn
        outs = self.bind_args(st, fn, recv + list(cm.args), dict(cm.kw), node)
        res = []
        for k, s, fr in outs:
            if k != 'ok':
                res.append((k, s, fr))
                continue
            fid = fr
            s.stack = s.stack + (fid,)

            def at_yield(s2, v, fid=fid):
                inner = s2.stack
                s2.stack = caller
                o2 = [('next', s2, None)]
                if it.optional_vars is not None:
                    o2 = self.assign(it.optional_vars, v, s2)
                out = []
                for o in o2:
                    if o[0] != 'next':
                        out.append(o)
                        continue
                    for k3, s3, x in self.with_items(node, rest, o[1]):
                        s3.stack = inner
                        if k3 == 'raise':
                            out.append(('raise', s3, x))
                        else:
                            s3.pending = (k3, x, s3.pending)
                            out.append(('ok', s3, NONE))
                return out
            s.frames[fid][' yield'] = at_yield
            for k2, s2, v2 in self.block(fn.fi.node.body, s):
                s2.stack = caller
                if k2 == 'raise':
                    res.append((k2, s2, v2))
                elif s2.pending is not None:
                    k3, x, s2.pending = s2.pending
                    res.append((k3, s2, x))
                else:
                    # with body raised and the generator swallowed it
                    res.append(('next', s2, None))
        return res

    # ------------------------------------------------------------ defs
    def fi_for(self, node, st):
        key = id(node)
        fi = self.prog.fis.get(key)
        if fi is None:
            f = self.frame(st)
            pre = ''
            if f.get(' class'):
                pre = f[' class'] + '.'
            elif f[' fi'] is not None:
                pre = f[' fi'].qual + '.'
            mod = f[' mod']
            fi = FI(node, mod, pre + getattr(node, 'name', '<lambda>'),
                    self.prog.files[mod])
            self.prog.fis[key] = fi
            self.prog.functions.append(fi)
        return fi

    def s_FunctionDef(self, node, st):
        fi = self.fi_for(node, st)
        defs = node.args.defaults
        kwd = [(a.arg, d) for a, d in zip(node.args.kwonlyargs,
                                          node.args.kw_defaults) if d]

        def f(s, vals):
            fr = self.frame(s)
            parent = None if fr[' fi'] is None and not fr.get(' class') \
                else (fr[' parent'] if fr.get(' class') else s.stack[-1])
            nd = len(defs)
            fv = FUNC(fi, parent, tuple(vals[:nd]),
                      tuple((kwd[i][0], vals[nd + i])
                            for i in range(len(kwd))))
            outs = [('ok', s, fv)]
            for d in reversed(node.decorator_list):
                def deco(s2, v, d=d):
                    return self.lift(
                        self.ev(d, s2),
                        lambda s3, dv: self.decorate(s3, dv, v, node))
                outs = self.lift(outs, deco)

            def fin(s2, v):
                self.store(s2, node.name, v, node)
                return [('next', s2, None)]
            return self.lift(outs, fin)
        return self.lift(self.ev_many(defs + [d for _, d in kwd], st), f)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, st, dv, v, node):
        if isinstance(dv, Ext):
            n = dv.name
            if n == 'builtins.property':
                return [('ok', st, PROP(v))]
            if n == 'builtins.staticmethod':
                return [('ok', st, WRAP('static', v))]
            if n == 'builtins.classmethod':
                return [('ok', st, WRAP('class', v))]
            if n == 'contextlib.contextmanager':
                return [('ok', st, WRAP('contextmanager', v))]
            return [('ok', st, v)]
        if isinstance(dv, BoundExt) and isinstance(dv.recv, Prop):
            if dv.name == 'setter':
                return [('ok', st, PROP(dv.recv.fget, v))]
            return [('ok', st, dv.recv)]
        if isinstance(dv, (Func, Bound)):
            return self.call(st, dv, [v], {}, node)
        return [('ok', st, v)]

    def s_ClassDef(self, node, st):
        def f(s, vals):
            fr = self.frame(s)
            qual = node.name
            if fr[' fi'] is not None:
                qual = fr[' fi'].qual + '.' + qual
            fid = self.new_frame(s, None, fr[' mod'], s.stack[-1]
                                 if fr[' fi'] is not None else None)
            s.frames[fid][' class'] = qual
            s.stack = s.stack + (fid,)
            res = []
            for k, s2, v in self.block(node.body, s):
                if k != 'next':
                    s2.stack = s2.stack[:-1]
                    res.append((k, s2, v))
                    continue
                frame = s2.frames[fid]
                attrs = {a: x for a, x in frame.items()
                         if not a.startswith(' ')}
                ann = frame.get(' annotated', ())
                s2.stack = s2.stack[:-1]
                cls = self.alloc(s2, HClass(node.name, tuple(vals), attrs,
                                            fr[' mod'], qual))
                for x in attrs.values():
                    for y in ((x.fget, x.fset) if isinstance(x, Prop)
                              else (x.fn,) if isinstance(x, Wrapped)
                              else (x,)):
                        if isinstance(y, Func) and y.fi.owner is None:
                            y.fi.owner = cls
                decs = [ast.dump(d) for d in node.decorator_list]
                if any('dataclass' in d for d in decs) or any(
                        isinstance(b, Ext) and b.name == 'typing.NamedTuple'
                        for b in vals):
                    s2.heap[cls.oid] = s2.heap[cls.oid].with_attr(
                        ' fields', tuple(ann))
                self.store(s2, node.name, cls, node)
                res.append(('next', s2, None))
            return res
        return self.lift(self.ev_many(node.bases, st), f)

    def s_Import(self, node, st):
        for al in node.names:
            if al.asname:
                v = self.import_module(st, al.name)
                self.store(st, al.asname, v, node)
            else:
                self.import_module(st, al.name)
                top = al.name.split('.')[0]
                self.store(st, top, MOD(top), node)
        return [('next', st, None)]

    def import_module(self, st, name):
        if name in self.prog.trees and name not in self.prog.mod_oid:
            self.sub_load(st, name)
        return MOD(name)

    def sub_load(self, st, name):
        """Load a module while another one is being loaded."""
        oid = next(self.prog.counter)
        self.prog.mod_oid[name] = oid
        st.heap[oid] = HMod({'__name__': C(name), '__doc__': T('doc', name),
                             '__file__': T('file', name)})
        fid = self.new_frame(st, None, name, None)
        saved = st.stack
        st.stack = st.stack + (fid,)
        mode, self.module_mode = self.module_mode, True
        outs = self.block(self.prog.trees[name].body, st)
        self.module_mode = mode
        for k, s, v in outs:
            if k == 'next':
                if s is not st:
                    for a in State.__slots__:
                        setattr(st, a, getattr(s, a))
                break
        else:
            raise Broken('module %s does not load' % name)
        st.stack = saved

    def s_ImportFrom(self, node, st):
        mod = node.module or ''
        cur = self.frame(st)[' mod']
        if node.level:
            pkg = cur if cur == self.prog.package else cur.rsplit('.', 1)[0]
            for _ in range(node.level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            mod = pkg + ('.' + mod if mod else '')
        for al in node.names:
            v = self.mod_attr(st, self.import_module(st, mod), al.name)
            self.store(st, al.asname or al.name, v, node)
        return [('next', st, None)]

    def mod_attr(self, st, m, name):
        full = m.name + '.' + name
        if m.name in self.prog.mod_oid:
            names = st.heap[self.prog.mod_oid[m.name]].names
            if name in names:
                return names[name]
            if full in self.prog.trees:
                return self.import_module(st, full)
            return T('missing', full)
        if full in self.prog.trees:
            return self.import_module(st, full)
        if any(t.startswith(full + '.') for t in self.prog.trees):
            return MOD(full)
        return EXT(full)

    def s_Match(self, node, st):
        # structural pattern matching: literal, capture, wildcard, or-patterns
        def run(s0, subj):
            res = []
            cur = [s0]
            for case in node.cases:
                nxt = []
                for s in cur:
                    for s2, ok in self.match_pat(s, case.pattern, subj):
                        if not ok:
                            nxt.append(s2)
                            continue
                        outs = [('ok', s2, True)]
                        if case.guard is not None:
                            outs = self.cond(case.guard, s2)
                        for k, s3, b in outs:
                            if k != 'ok':
                                res.append((k, s3, b))
                            elif b:
                                res.extend(self.block(case.body, s3))
                            else:
                                nxt.append(s3)
                cur = nxt
            res.extend(('next', s, None) for s in cur)
            return res
        return self.lift(self.ev(node.subject, st), run)

    def match_pat(self, st, p, v):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store(st, p.name, v, p)
                return [(st, True)]
            res = []
            for s, ok in self.match_pat(st, p.pattern, v):
                if ok and p.name:
                    self.store(s, p.name, v, p)
                res.append((s, ok))
            return res
        if isinstance(p, (ast.MatchValue, ast.MatchSingleton)):
            if isinstance(p, ast.MatchSingleton):
                t = self.compare1(st, 'is', v, C(p.value))
            else:
                t = self.compare1(st, 'eq', v, self.ev(p.value, st)[0][2])
            return self.truth(st, t)
        if isinstance(p, ast.MatchOr):
            res, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, ok in self.match_pat(s, q, v):
                        (res if ok else nxt).append(s2)
                cur = nxt
            return [(s, True) for s in res] + [(s, False) for s in cur]
        return [(st.fork(), True), (st, False)]

    # ------------------------------------------------------------ exprs
    def ev(self, node, st):
        self.steps += 1
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            return [('ok', st, T('expr', type(node).__name__,
                                 C(getattr(node, 'lineno', 0)), C(st.n)))]
        return m(node, st)

    def ev_many(self, nodes, st):
        outs = [('ok', st, ())]
        for n in nodes:
            outs = self.lift(outs, lambda s, vs, n=n: [
                (k, s2, vs + (v,) if k == 'ok' else v)
                for k, s2, v in self.ev(n, s)])
        return outs

    def e_Constant(self, node, st):
        return [('ok', st, C(node.value))]

    def e_Name(self, node, st):
        v = self.lookup(st, node.id)
        if v is None:
            return [('raise', st, self.exc('NameError', C(node.id)))]
        return [('ok', st, v)]

    def e_NamedExpr(self, node, st):
        def f(s, v):
            self.store(s, node.target.id, v, node)
            return [('ok', s, v)]
        return self.lift(self.ev(node.value, st), f)

    def e_Tuple(self, node, st):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return self.lift(self.seq(node.elts, st), lambda s, r: [
                ('ok', s, TUP(r[0]) if r[1] is None
                 else T('tupcat', TUP(r[0]), r[1]))])
        return self.lift(self.ev_many(node.elts, st),
                         lambda s, vs: [('ok', s, TUP(vs))])

    def seq(self, elts, st):
        """Evaluate a display; result (items, opaque star or None)."""
        outs = [('ok', st, ((), None))]
        for e in elts:
            if isinstance(e, ast.Starred):
                def f(s, acc, e=e):
                    def g(s2, v):
                        it = self.as_items(s2, v)
                        if it is None:
                            return [('ok', s2, (acc[0], T(
                                'star', v)))]
                        return [('ok', s2, (acc[0] + tuple(it), acc[1]))]
                    return self.lift(self.ev(e.value, s), g)
            else:
                def f(s, acc, e=e):
                    return [(k, s2, (acc[0] + (v,), acc[1])
                             if k == 'ok' else v)
                            for k, s2, v in self.ev(e, s)]
            outs = self.lift(outs, f)
        return outs

    def e_List(self, node, st):
        return self.lift(self.seq(node.elts, st), lambda s, r: [
            ('ok', s, self.alloc(s, HList(r[0], r[1])))])

    def e_Set(self, node, st):
        return self.lift(self.seq(node.elts, st), lambda s, r: [
            ('ok', s, self.alloc(s, HSet(r[0], r[1])))])

    def e_Dict(self, node, st):
        keys = [k for k in node.keys if k is not None]
        if len(keys) == len(node.keys):
            n = len(keys)
            return self.lift(
                self.ev_many(keys + node.values, st), lambda s, vs: [
                    ('ok', s, self.alloc(s, HDict(
                        dict(zip(vs[:n], vs[n:])).items())))])
        outs = [('ok', st, NONE)]

        def first(s, _):
            return [('ok', s, self.alloc(s, HDict()))]
        outs = self.lift(outs, first)
        for k, vn in zip(node.keys, node.values):
            def f(s, d, k=k, vn=vn):
                if k is None:
                    return self.lift(
                        self.ev(vn, s), lambda s2, v: self.lift(
                            self.dict_update(s2, d, v, vn),
                            lambda s3, _: [('ok', s3, d)]))
                return self.lift(
                    self.ev_many([k, vn], s), lambda s2, kv: [
                        ('ok', s3, d) if kk == 'next' else (kk, s3, x)
                        for kk, s3, x in self.setitem(
                            s2, d, kv[0], kv[1], vn)])
            outs = self.lift(outs, f)
        return outs

    def e_JoinedStr(self, node, st):
        def f(s, vs):
            return [('ok', s, S([self.strpart(s, v) for v in vs]))]
        return self.lift(self.ev_many(node.values, st), f)

    def e_FormattedValue(self, node, st):
        def f(s, v):
            if node.conversion == 114:
                v = self.repr_of(s, v)
            elif node.format_spec is not None:
                spec = node.format_spec
                if not (isinstance(spec, ast.JoinedStr) and not spec.values):
                    v = T('format', v, C(ast.dump(spec)))
            return [('ok', s, v)]
        return self.lift(self.ev(node.value, st), f)

    def repr_of(self, st, v):
        v = st.resolve(v)
        if isinstance(v, Const):
            return C(repr(v.v))
        return T('repr', v)

    def strpart(self, st, v):
        v = st.resolve(v)
        if isinstance(v, Const):
            return C(str(v.v))
        if isinstance(v, Ref):
            return T('strof', v)
        return v

    def e_Lambda(self, node, st):
        fi = self.fi_for(node, st)

        def f(s, vals):
            fr = self.frame(s)
            parent = None if fr[' fi'] is None else s.stack[-1]
            return [('ok', s, FUNC(fi, parent, tuple(vals), ()))]
        return self.lift(self.ev_many(node.args.defaults, st), f)

    def e_IfExp(self, node, st):
        res = []
        for k, s, b in self.cond(node.test, st):
            if k != 'ok':
                res.append((k, s, b))
            else:
                res.extend(self.ev(node.body if b else node.orelse, s))
        return res

    def e_BoolOp(self, node, st):
        is_and = isinstance(node.op, ast.And)
        res = []
        cur = [st]
        for i, e in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in cur:
                for k, s2, v in self.ev(e, s):
                    if k != 'ok' or last:
                        res.append((k, s2, v))
                        continue
                    for s3, b in self.truth(s2, v):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            # the value is returned; keep boolean terms small
                            res.append(('ok', s3, self.as_bool(s3, v, b)))
            cur = nxt
        return res

    @staticmethod
    def as_bool(st, v, b):
        if isinstance(v, Term) and v.op in ('is', 'eq', 'lt', 'in', 'not',
                                            'isinst', 'hasattr'):
            return C(b)
        return v

    def e_UnaryOp(self, node, st):
        if isinstance(node.op, ast.Not):
            return [(k, s, C(not b) if k == 'ok' else b)
                    for k, s, b in self.cond(node.operand, st)]

        def f(s, v):
            v = s.resolve(v)
            if isinstance(v, Const) and isinstance(v.v, (int, float)):
                if isinstance(node.op, ast.USub):
                    return [('ok', s, C(-v.v))]
                if isinstance(node.op, ast.UAdd):
                    return [('ok', s, v)]
            return [('ok', s, T('unary', type(node.op).__name__, v))]
        return self.lift(self.ev(node.operand, st), f)

    def e_BinOp(self, node, st):
        return self.lift(
            self.ev_many([node.left, node.right], st),
            lambda s, vs: self.binop(s, node.op, vs[0], vs[1], node))

    def lin(self, v):
        if isinstance(v, Term) and v.op == 'lin':
            return v.args[0], v.args[1].v
        return v, 0

    def mklin(self, b, k):
        return b if k == 0 else T('lin', b, C(k))

    def binop(self, st, op, a, b, node):
        a, b = st.resolve(a), st.resolve(b)
        name = type(op).__name__
        if isinstance(a, Const) and isinstance(b, Const) and name != 'Mod':
            try:
                import operator
                f = {'Add': operator.add, 'Sub': operator.sub,
                     'Mult': operator.mul, 'Div': operator.truediv,
                     'FloorDiv': operator.floordiv, 'BitOr': operator.or_,
                     'BitAnd': operator.and_, 'Pow': operator.pow}[name]
                r = f(a.v, b.v)
                if not isinstance(r, str) or len(r) < 100000:
                    return [('ok', st, C(r))]
            except Exception:
                pass
        if name == 'Mod' and (is_stringy(a) or isinstance(a, Const)):
            r = self.percent(st, a, b)
            if r is not None:
                return [('ok', st, r)]
            if isinstance(a, Const) and isinstance(b, Const) \
                    and not isinstance(a.v, str):
                try:
                    return [('ok', st, C(a.v % b.v))]
                except Exception:
                    pass
        if name == 'Add':
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [('ok', st, TUP(a.items + b.items))]
            if is_stringy(a) or is_stringy(b):
                return [('ok', st, S([self.strpart(st, a),
                                      self.strpart(st, b)]))]
            if isinstance(a, Ref) and isinstance(b, Ref):
                la, lb = self.get_list(st, a), self.get_list(st, b)
                if la is not None and lb is not None and lb.base is None:
                    return [('ok', st, self.alloc(st, HList(
                        la.items + lb.items, la.base, la.pop)))]
            if isinstance(a, Ref) or isinstance(b, Ref):
                ia, ib = self.as_items(st, a), self.as_items(st, b)
                if ia is not None and ib is not None:
                    return [('ok', st, self.alloc(st, HList(ia + ib)))]
                if ib is not None:
                    return [('ok', st, self.alloc(st, HList(ib, a)))]
                return [('ok', st, self.alloc(st, HList(
                    (), T('listcat', self.freeze(st, a),
                          self.freeze(st, b)))))]
            if isinstance(a, Tup) or isinstance(b, Tup):
                return [('ok', st, T('tupcat', a, b))]
        if name in ('Add', 'Sub'):
            sg = 1 if name == 'Add' else -1
            ba, ka = self.lin(a)
            bb, kb = self.lin(b)
            if isinstance(b, Const) and isinstance(b.v, int):
                return [('ok', st, self.mklin(ba, ka + sg * b.v))]
            if isinstance(a, Const) and isinstance(a.v, int) and sg == 1:
                return [('ok', st, self.mklin(bb, kb + a.v))]
            if sg == -1 and ba is bb:
                return [('ok', st, C(ka - kb))]
            if sg == 1 and ka + kb:
                return [('ok', st, self.mklin(self.addt(ba, bb), ka + kb))]
            if sg == 1:
                return [('ok', st, self.addt(ba, bb))]
        if name == 'Mult':
            for x, y in ((a, b), (b, a)):
                if is_stringy(x):
                    return [('ok', st, T('strrepeat', x, y))]
                items = self.as_items(st, x)
                if isinstance(x, Ref) and isinstance(y, Const) \
                        and items is not None:
                    return [('ok', st, self.alloc(st, HList(items * y.v)))]
        if name in ('BitOr', 'Sub', 'BitAnd') and isinstance(a, Ref) \
                and isinstance(b, Ref):
            m = {'BitOr': 'union', 'Sub': 'difference',
                 'BitAnd': 'intersection'}[name]
            view = self.as_items(st, a) \
                if st.heap[a.oid].kind == 'list' else None
            if view is not None:        # of a dictionary: no list has these
                a = self.alloc(st, HSet(view))
            if st.heap[a.oid].kind == 'set':
                return self.call(st, BEXT(a, m), [b], {}, node)
            if st.heap[a.oid].kind == 'dict' and name == 'BitOr':
                d = self.alloc(st, st.heap[a.oid])
                return self.lift(self.dict_update(st, d, b, node),
                                 lambda s, _: [('ok', s, d)])
        return [('ok', st, T('binop', name, a, b))]

    @staticmethod
    def addt(a, b):
        x, y = sorted((a, b), key=repr)
        return T('add', x, y)

    def freeze(self, st, v):
        """A heap-free rendering of a value, for provenance."""
        v = st.resolve(v)
        if isinstance(v, Ref):
            h = st.heap.get(v.oid)
            lst = self.get_list(st, v)
            if lst is not None:
                t = TUP([self.freeze(st, x) for x in lst.items])
                return t if lst.base is None else T('listof', lst.base, t)
            if h is not None and h.kind == 'dict':
                t = TUP([TUP([self.freeze(st, k), self.freeze(st, x)])
                         for k, x in h.entries])
                return T('dictof', h.base or NONE, t)
            if h is not None and h.kind == 'set':
                return T('setof', TUP([self.freeze(st, x) for x in h.items]))
        if isinstance(v, Tup):
            return TUP([self.freeze(st, x) for x in v.items])
        return v

    def percent(self, st, a, b):
        if isinstance(a, Str):
            # format string with opaque parts: only sound with no directives
            return None
        if not (isinstance(a, Const) and isinstance(a.v, str)):
            return None
        fmt = a.v
        args = list(b.items) if isinstance(b, Tup) else [b]
        named = None
        if isinstance(b, Ref) and st.heap[b.oid].kind == 'dict':
            named = b
        out, i = [], 0
        while i < len(fmt):
            c = fmt[i]
            if c != '%':
                j = fmt.find('%', i)
                j = len(fmt) if j < 0 else j
                out.append(C(fmt[i:j]))
                i = j
                continue
            if i + 1 >= len(fmt):
                return None
            d = fmt[i + 1]
            if d == '%':
                out.append(C('%'))
                i += 2
                continue
            if d == '(' and (named is not None or len(args) == 1):
                j = fmt.find(')', i)
                key = fmt[i + 2:j]
                d = fmt[j + 1:j + 2]
                i = j
                x = None
                if named is not None:
                    for k, y in st.heap[named.oid].entries:
                        if k is C(key):
                            x = y
                if x is None:
                    x = T('item', args[0], C(key))
            elif args:
                x = args.pop(0)
            else:
                return None
            if d == 's':
                out.append(self.strpart(st, x))
            elif d == 'r':
                out.append(self.repr_of(st, x))
            elif d in 'di':
                x = st.resolve(x)
                out.append(C(str(x.v)) if isinstance(x, Const)
                           else T('decimal', x))
            else:
                return T('percent', a, TUP(
                    [self.freeze(st, y) for y in [x] + args]))
            i += 2
        return S(out)

    def e_Compare(self, node, st):
        if len(node.ops) == 1:
            return self.lift(
                self.ev_many([node.left, node.comparators[0]], st),
                lambda s, vs: self.compare(s, node.ops[0], vs[0], vs[1],
                                           node))
        # chained: a < b < c
        vals = []
        parts = []
        left = node.left
        for op, right in zip(node.ops, node.comparators):
            parts.append(ast.copy_location(
                ast.Compare(left, [op], [right]), node))
            left = right
        return self.e_BoolOp(ast.copy_location(
            ast.BoolOp(ast.And(), parts), node), st)

    def compare(self, st, op, a, b, node):
        name = type(op).__name__
        a, b = st.resolve(a), st.resolve(b)
        neg = name in ('IsNot', 'NotEq', 'NotIn')
        if name in ('Is', 'IsNot'):
            t = self.compare1(st, 'is', a, b)
        elif name in ('Eq', 'NotEq'):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and st.heap[x.oid].kind == 'inst':
                    m = self.class_attr(st, st.heap[x.oid].cls, '__eq__')
                    if isinstance(m, Func):
                        outs = self.call(st, BOUND(x, m), [y], {}, node)
                        return self.lift(outs, lambda s, v: [
                            ('ok', s2, C(b2 != neg))
                            for s2, b2 in self.truth(s, v)])
            x, y = self.const_set(st, a), self.const_set(st, b)
            if x is not None and y is not None:
                t = C(x == y)
            else:
                t = self.compare1(st, 'eq', a, b)
        elif name in ('Lt', 'Gt', 'LtE', 'GtE') and self.const_set(
                st, a) is not None and self.const_set(st, b) is not None:
            t = C(getattr(operator, {'Lt': 'lt', 'Gt': 'gt', 'LtE': 'le',
                                     'GtE': 'ge'}[name])(
                self.const_set(st, a), self.const_set(st, b)))
        elif name in ('In', 'NotIn'):
            t = self.compare1(st, 'in', a, b)
        elif name == 'Lt':
            t = self.compare1(st, 'lt', a, b)
        elif name == 'Gt':
            t = self.compare1(st, 'lt', b, a)
        elif name == 'GtE':
            t, neg = self.compare1(st, 'lt', a, b), True
        else:
            t, neg = self.compare1(st, 'lt', b, a), True
        if isinstance(t, Const):
            return [('ok', st, C(bool(t.v) != neg))]
        return [('ok', st, T('not', t) if neg else t)]

    def const_set(self, st, v):
        """The elements of a set of constants, or None."""
        if isinstance(v, Ref) and st.heap[v.oid].kind == 'set':
            h = st.heap[v.oid]
            items = [st.resolve(x) for x in h.items]
            if h.base is None and all(isinstance(x, Const) for x in items):
                return frozenset(x.v for x in items)
        return None

    def compare1(self, st, op, a, b):
        if op in ('eq', 'in', 'lt'):
            a, b = untag(a), untag(b)
        if op in ('is', 'eq'):
            if isinstance(a, (Const,)) and not isinstance(b, Const):
                a, b = b, a
            elif a in self.sentinels and b not in self.sentinels \
                    and not isinstance(b, Const):
                a, b = b, a
            elif isinstance(a, Term) and isinstance(b, Term) \
                    and b not in self.sentinels and repr(a) > repr(b):
                a, b = b, a
        if op == 'eq' and b is NONE:
            op = 'is'
        if op in ('is', 'eq') and isinstance(a, Ref) and isinstance(b, Ref) \
                and op == 'eq':
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            if fa is fb:
                return TRUE
            if isinstance(fa, Tup) and isinstance(fb, Tup):
                return self.compare1(st, 'eq', fa, fb)
            return T('eq', fa, fb)
        if op == 'eq' and isinstance(a, Ref):
            a = self.freeze(st, a)
        if op == 'eq' and isinstance(b, Ref):
            b = self.freeze(st, b)
        t = T(op, a, untag(self.freeze(st, b)) if op == 'in' else b)
        d = self.decide(st, t, raw=(a, b))
        if d is not None:
            return C(d)
        return t

    # ------------------------------------------------------------ truth
    def cond(self, node, st):
        """Outcomes ('ok', state, bool) of a test."""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(k, s, (not b) if k == 'ok' else b)
                    for k, s, b in self.cond(node.operand, st)]
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            res, cur = [], [st]
            for e in node.values:
                nxt = []
                for s in cur:
                    for k, s2, b in self.cond(e, s):
                        if k != 'ok':
                            res.append((k, s2, b))
                        elif b == is_and:
                            nxt.append(s2)
                        else:
                            res.append((k, s2, b))
                cur = nxt
            res.extend(('ok', s, is_and) for s in cur)
            return res
        res = []
        for k, s, v in self.ev(node, st):
            if k != 'ok':
                res.append((k, s, v))
            else:
                res.extend(('ok', s2, b) for s2, b in self.truth(s, v))
        return res

    def truth(self, st, v):
        v = st.resolve(v)
        if isinstance(v, Ref):
            h = st.heap[v.oid]
            if h.kind == 'inst':
                for mn in ('__bool__', '__len__'):
                    m = self.class_attr(st, h.cls, mn)
                    if isinstance(m, Func):
                        res = []
                        for k, s, x in self.call(st, BOUND(v, m), [], {},
                                                 m.fi.node):
                            if k == 'ok':
                                res.extend(self.truth(s, x))
                        return res
        d = self.decide(st, v)
        if d is not None:
            return [(st, d)]
        if self.module_mode:
            return [(st, True)]
        if isinstance(v, Term) and v.op == 'not':
            return [(s, not b) for s, b in self.truth(st, v.args[0])]
        if isinstance(v, Term) and v.op == 'isinst_any':
            res, cur = [], [st]
            for c in v.args[1:]:
                nxt = []
                for s in cur:
                    for s2, b in self.truth(s, T('isinst', v.args[0], c)):
                        (res if b else nxt).append(s2)
                cur = nxt
            return [(s, True) for s in res] + [(s, False) for s in cur]
        if isinstance(v, Term) and v.op == 'in':
            items = self.known_items(v.args[1])
            if items:
                # member exactly if equal to one of the known elements
                res, cur = [], [st]
                for x in items:
                    nxt = []
                    for s in cur:
                        t = self.compare1(s, 'eq', x, v.args[0])
                        for s2, b in self.truth(s, t):
                            (res if b else nxt).append(s2)
                    cur = nxt
                return [(s, True) for s in res] + [(s, False) for s in cur]
        key = v
        if isinstance(v, Ref):
            key = self.truth_key(st, v)
        s2 = st.fork()
        res = []
        if self.assume(st, key, True):
            res.append((st, True))
        if self.assume(s2, key, False):
            res.append((s2, False))
        return res

    def known_items(self, b):
        """Elements of a small container whose contents are all known but
        not all constant."""
        if isinstance(b, Tup):
            items = b.items
        elif isinstance(b, Term) and b.op == 'setof':
            items = b.args[-1].items
        elif isinstance(b, Term) and b.op == 'listof' \
                and b.args[0] in (None, NONE):
            items = b.args[-1].items
        elif isinstance(b, Term) and b.op == 'dictof' and b.args[0] is NONE:
            items = [p.items[0] for p in b.args[1].items]
        else:
            return None
        if len(items) > 4 or all(isinstance(x, Const) for x in items):
            return None
        return items

    def truth_key(self, st, v):
        lst = self.get_list(st, v)
        if lst is not None:
            return T('nonempty', lst.base, C(lst.pop))
        h = st.heap[v.oid]
        if h.kind in ('dict', 'set'):
            return h.base if not (getattr(h, 'gone', ())) else \
                T('nonempty', h.base, TUP(h.gone))
        return v

    def assume(self, st, t, val):
        """Record a fact; False when it contradicts what is known."""
        d = self.decide(st, t)
        if d is not None:
            return d == val
        if isinstance(t, Term) and t.op == 'not':
            return self.assume(st, t.args[0], not val)
        st.facts[t] = val
        if isinstance(t, Term):
            if t.op in ('is', 'eq') and val:
                a, b = t.args
                if isinstance(b, Const) or b in self.sentinels:
                    st.subst[a] = b
                elif isinstance(b, Tup):
                    st.subst[a] = b
                    for i, x in enumerate(b.items):
                        ai = T('item', a, C(i))
                        if isinstance(x, Const):
                            st.subst[ai] = x
                elif t.op == 'is' and isinstance(a, Term) \
                        and isinstance(b, (Term, Ref)):
                    st.subst[a] = b
            if t.op == 'isinst' and val and t.args[1] == 'Message':
                st.facts[T('isinst', t.args[0], 'str')] = True
        return True

    def nonnull_term(self, v):
        return isinstance(v, Term) and (
            v.op in ('lin', 'len', 'add', 'repr', 'out', 'exc', 'excopaque',
                     'strof', 'decimal', 'class_of', 'dictof', 'listof',
                     'setof', 'object', 'items', 'enumerate', 'sorted',
                     'cexpr')
            or is_stringy(v) or v in self.nonnull)

    def decide(self, st, t, raw=None):
        """Truth value of t if the state settles it, else None."""
        t = st.resolve(t) if isinstance(t, V) else t
        if isinstance(t, Term) and t.op == 'msg':
            t = t.args[0]
        if isinstance(t, Const):
            return bool(t.v)
        if isinstance(t, Tup):
            return bool(t.items)
        if isinstance(t, Str):
            for p in t.parts:
                if isinstance(p, str):
                    return True
            d = [self.decide(st, p) for p in t.parts
                 if is_stringy(p)]
            if True in d:
                return True
            return st.facts.get(t)
        if isinstance(t, (Func, Bound, BoundExt, Ext, Mod, Prop, Wrapped,
                          Regex, Match)):
            return True
        if isinstance(t, Ref):
            h = st.heap.get(t.oid)
            if h is None:
                return True
            lst = self.get_list(st, t)
            if lst is not None:
                if lst.items:
                    return True
                if lst.base is None:
                    return False
                k = self.truth_key(st, t)
                if k in st.facts:
                    return st.facts[k]
                return None
            if h.kind == 'dict':
                if h.entries:
                    return True
                if h.base is None:
                    return False
                k = self.truth_key(st, t)
                return self.decide(st, k) if k is not t else None
            if h.kind == 'set':
                if h.items:
                    return True
                return False if h.base is None else None
            return True
        if not isinstance(t, Term):
            return None
        op = t.op
        if op == 'not':
            d = self.decide(st, t.args[0])
            return None if d is None else not d
        if t in st.facts:
            return st.facts[t]
        if op in ('is', 'eq', 'lt', 'in', 'isinst'):
            a = st.resolve(t.args[0])
            b = st.resolve(t.args[1]) if isinstance(t.args[1], V) \
                else t.args[1]
            if a is not t.args[0] or b is not t.args[1]:
                if op in ('is', 'eq') and isinstance(a, Const) \
                        and not isinstance(b, Const):
                    a, b = b, a
                t2 = T(op, a, b)
                if t2 in st.facts:
                    return st.facts[t2]
            if op == 'is':
                return self.decide_is(st, a, b)
            if op == 'eq':
                return self.decide_eq(st, a, b)
            if op == 'lt':
                return self.decide_lt(st, a, b)
            if op == 'in':
                return self.decide_in(st, a, b, raw)
            if op == 'isinst':
                return self.decide_isinst(st, a, b)
        if op == 'isinst_any':
            ds = [self.decide(st, T('isinst', t.args[0], c))
                  for c in t.args[1:]]
            if True in ds:
                return True
            return False if all(d is False for d in ds) else None
        if op == 'nonempty':
            return None
        if op in ('exc', 'excopaque', 'object', 'class_of', 'enumerate'):
            return True
        if op == 'listof':
            return True if t.args[1].items else None
        # plain truthiness of an opaque value
        if st.facts.get(T('is', t, NONE)) is True:
            return False
        return None

    def decide_is(self, st, a, b):
        if a is b:
            return True
        if isinstance(a, Const) and isinstance(b, Const):
            return False
        if b is NONE or isinstance(b, Const):
            if isinstance(a, (Ref, Tup, Str, Func, Bound, BoundExt, Ext, Mod,
                              Match, Regex, Wrapped)):
                return False
            if a in self.sentinels:
                return False
            if b is NONE:
                if self.nonnull_term(a):
                    return False
                if st.facts.get(a) is True:
                    return False
                for c in ('str', 'Message', 'tuple', 'list', 'dict'):
                    if st.facts.get(T('isinst', a, c)) is True:
                        return False
            return None
        if isinstance(a, (Ref, Tup, Str)) or isinstance(b, (Ref, Tup, Str)):
            if isinstance(a, Ref) and isinstance(b, Ref):
                return False
            if isinstance(a, Ref) and a.oid >= self.prog.base_limit \
                    and not (isinstance(b, Term)
                             and b.op in ('field', 'item')):
                return False
            return None
        if a in self.sentinels and b in self.sentinels:
            return False
        if b in self.sentinels:
            if self.nonnull_term(a):
                return False
            for c in ('str', 'Message'):
                if st.facts.get(T('isinst', a, c)) is True:
                    return False
        return None

    def decide_eq(self, st, a, b):
        if a is b:
            return True
        if isinstance(a, Const) and isinstance(b, Const):
            return a.v == b.v
        if isinstance(b, Const):
            if isinstance(a, (Tup, Func, Bound, BoundExt, Ext, Mod)):
                return False
            if isinstance(a, Ref):
                return False
            if isinstance(a, Term) and a.op in ('dictof', 'listof', 'setof',
                                                'exc', 'object'):
                return False
            if isinstance(a, Str) and isinstance(b.v, str):
                p0, p1 = a.parts[0], a.parts[-1]
                if isinstance(p0, str) and not b.v.startswith(p0):
                    return False
                if isinstance(p1, str) and not b.v.endswith(p1):
                    return False
                mn = sum(len(p) for p in a.parts if isinstance(p, str))
                if mn > len(b.v):
                    return False
            if st.facts.get(a) is False and isinstance(a, Term) and b.v:
                return False
            if st.facts.get(a) is True and not b.v:
                return False
            for f, val in st.facts.items():
                if isinstance(f, Term) and f.op == 'in' and f.args[0] is a:
                    cs = self.member_keys(f.args[1])
                    if cs is not None and all(isinstance(c, Const)
                                              for c in cs):
                        if val and b not in cs:
                            return False
                        if val and len(cs) == 1:
                            return True
                        if not val and b in cs:
                            return False
            return None
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            ds = [self.decide_eq(st, st.resolve(x), st.resolve(y))
                  for x, y in zip(a.items, b.items)]
            if False in ds:
                return False
            if all(d is True for d in ds):
                return True
            return None
        ba, ka = self.lin(a)
        bb, kb = self.lin(b)
        if ba is bb:
            return ka == kb
        return None

    def decide_lt(self, st, a, b):
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return a.v < b.v
            except TypeError:
                return None
        ba, ka = self.lin(a)
        bb, kb = self.lin(b)
        if ba is bb:
            return ka < kb
        for f, val in st.facts.items():
            # same pair of bases, other offsets: x + i < y + j
            if isinstance(f, Term) and f.op == 'lt':
                x, i = self.lin(st.resolve(f.args[0]))
                y, j = self.lin(st.resolve(f.args[1]))
                if x is ba and y is bb:
                    # fact: x+i<y+j is val ; question: x+ka < y+kb
                    if val and ka - kb <= i - j:
                        return True
                    if not val and ka - kb >= i - j:
                        return False
                elif x is bb and y is ba:
                    # fact: bb+i < ba+j ; question: ba+ka < bb+kb
                    if val and ka - kb >= j - i:
                        return False
                    if not val and ka - kb < j - i:
                        return True
        # lengths are not negative
        if isinstance(a, Const) and isinstance(bb, Term) and bb.op == 'len' \
                and isinstance(a.v, int) and a.v < kb:
            return True
        if isinstance(b, Const) and isinstance(ba, Term) and ba.op == 'len' \
                and isinstance(b.v, int) and b.v <= ka:
            return False
        return None

    def decide_in(self, st, a, b, raw=None):
        if isinstance(b, Const) and isinstance(b.v, str):
            if isinstance(a, Const) and isinstance(a.v, str):
                return a.v in b.v
            return None
        cs = _const_items(b)
        if cs is not None:
            if isinstance(a, Const):
                return any(c.v == a.v for c in cs)
            if not cs:
                return False
            for f, val in st.facts.items():
                if isinstance(f, Term) and f.op == 'in' \
                        and f.args[0] is a and val:
                    c2 = _const_items(f.args[1])
                    if c2 is not None:
                        if set(c2) <= set(cs):
                            return True
                        if not set(c2) & set(cs):
                            return False
                if isinstance(f, Term) and f.op == 'in' \
                        and f.args[0] is a and not val:
                    c2 = _const_items(f.args[1])
                    if c2 is not None and set(cs) <= set(c2):
                        return False
            if all(st.facts.get(T('eq', a, c)) is False for c in cs):
                return False
            return None
        items = None
        base = None
        if isinstance(b, Tup):
            items = b.items
        elif isinstance(b, Term) and b.op in ('listof', 'setof'):
            items = b.args[-1].items
            base = b.args[0] if b.op == 'listof' else None
        elif isinstance(b, Term) and b.op == 'dictof':
            items = [p.items[0] for p in b.args[1].items]
            base = None if b.args[0] is NONE else b.args[0]
        if items is not None:
            ds = [self.decide_eq(st, st.resolve(x), a) if not isinstance(
                x, Const) else self.decide_eq(st, a, x) for x in items]
            if True in ds:
                return True
            if base is None and all(d is False for d in ds):
                return False
            return None
        if isinstance(b, Str) and isinstance(a, Const):
            for p in b.parts:
                if isinstance(p, str) and a.v in p:
                    return True
        return None

    def decide_isinst(self, st, a, c):
        if isinstance(a, Const):
            t = getattr(builtins, c, None)
            return isinstance(a.v, t) if isinstance(t, type) else False
        if isinstance(a, Str):
            return c in ('str', 'object')
        if isinstance(a, Tup):
            return c in ('tuple', 'object')
        if a in self.sentinels:
            return c == 'object'
        if isinstance(a, Ref):
            h = st.heap[a.oid]
            if h.kind in ('list', 'dict', 'set'):
                return c in (h.kind, 'object')
            if h.kind == 'inst':
                for k in self.prog.mro(h.cls, st.heap):
                    if isinstance(k, Ref) and (
                            st.heap[k.oid].name == c):
                        return True
                    if isinstance(k, Ext):
                        kn = k.name.rsplit('.', 1)[-1]
                        if kn == c:
                            return True
                        x, y = getattr(builtins, kn, None), getattr(
                            builtins, c, None)
                        if isinstance(x, type) and isinstance(y, type) \
                                and issubclass(x, y):
                            return True
                return False
            if h.kind == 'class':
                return c in ('type', 'object')
        if isinstance(a, Term):
            if is_stringy(a):
                return c == 'str' if c != 'Message' else False
            if c == 'Message' and st.facts.get(
                    T('isinst', a, 'str')) is False:
                return False
            if c in ('Exception', 'BaseException') and a.op in (
                    'exc', 'excopaque'):
                return True
            if st.facts.get(T('is', a, NONE)) is True:
                return False
        return None

    # ------------------------------------------------------------ subscr
    def e_Slice(self, node, st):
        parts = [p if p is not None else ast.Constant(None)
                 for p in (node.lower, node.upper, node.step)]
        return self.lift(self.ev_many(parts, st),
                         lambda s, vs: [('ok', s, T('sliceobj', *vs))])

    def slice_range(self, st, lst, sl):
        """(start, stop) inside the known items, or None."""
        lo, hi, step = [st.resolve(x) for x in sl.args]
        if step is not NONE and not (isinstance(step, Const)
                                     and step.v == 1):
            return None
        n = len(lst.items)

        def norm(x, default):
            if x is NONE:
                return default
            if isinstance(x, Const) and isinstance(x.v, int):
                k = x.v
                if lst.base is not None:
                    if k < 0 and n + k >= 0:
                        return n + k
                    return None
                if k < 0:
                    return max(0, n + k)
                return min(k, n)
            if lst.base is not None:
                b, k = self.lin(x)
                if b is T('len', lst.base):
                    j = k + lst.pop
                    if 0 <= j <= n:
                        return j
            return None
        a = norm(lo, 0 if lst.base is None else None)
        b = norm(hi, n)
        if a is None or b is None:
            return None
        return a, max(a, b)

    def e_Subscript(self, node, st):
        return self.lift(
            self.ev_many([node.value, node.slice], st),
            lambda s, vs: self.subscript(s, vs[0], vs[1], node))

    def item(self, st, o, i):
        """Opaque indexing with normalisation."""
        o = st.resolve(o)
        if isinstance(o, Tup) and isinstance(i, Const) \
                and isinstance(i.v, int) and -len(o.items) <= i.v < len(
                    o.items):
            return o.items[i.v]
        if isinstance(o, Term) and o.op == 'slice' and isinstance(i, Const) \
                and isinstance(i.v, int) and i.v >= 0:
            lo = o.args[1]
            if lo is NONE:
                return self.item(st, o.args[0], i)
            if isinstance(lo, Const) and lo.v >= 0:
                return self.item(st, o.args[0], C(lo.v + i.v))
        if isinstance(o, Term) and o.op == 'tupcat' and isinstance(i, Const) \
                and isinstance(i.v, int) and isinstance(o.args[0], Tup) \
                and 0 <= i.v < len(o.args[0].items):
            return o.args[0].items[i.v]
        if isinstance(o, Term) and o.op == 'tupcat' and isinstance(i, Const) \
                and isinstance(i.v, int) and isinstance(o.args[1], Tup) \
                and -len(o.args[1].items) <= i.v < 0:
            return o.args[1].items[i.v]
        if isinstance(o, Term) and o.op == 'getdefault':
            pass
        key = ('item', o, i)
        if key in st.over:
            return st.over[key]
        return st.resolve(T('item', o, i))

    def subscript(self, st, o, i, node):
        o, i = st.resolve(o), st.resolve(i)
        is_slice = isinstance(i, Term) and i.op == 'sliceobj'
        if o is NONE:
            return [('raise', st, self.exc('TypeError'))]
        if isinstance(o, Tup):
            if isinstance(i, Const) and isinstance(i.v, int):
                if -len(o.items) <= i.v < len(o.items):
                    return [('ok', st, o.items[i.v])]
                return [('raise', st, self.exc('IndexError'))]
            if is_slice:
                try:
                    a, b, c = [x.v for x in i.args]
                    return [('ok', st, TUP(o.items[a:b:c]))]
                except (AttributeError, TypeError):
                    return [('ok', st, T('slice', o, i.args[0], i.args[1]))]
        if isinstance(o, Ref):
            h = st.heap[o.oid]
            if h.kind == 'inst':
                m = self.class_attr(st, h.cls, '__getitem__')
                if m is not None:
                    return self.call(st, BOUND(o, m), [i], {}, node)
            lst = self.get_list(st, o)
            if lst is not None:
                return self.list_index(st, o, lst, i, is_slice)
            if h.kind == 'dict':
                res = []
                for s, found, e in self.dict_find(st, o, i):
                    if found:
                        res.append(('ok', s, e[1] if e[1] is not None
                                    else T('item', s.heap[o.oid].base, i)))
                    else:
                        res.append(('raise', s, self.exc('KeyError', i)))
                return res
        if isinstance(o, Const) and isinstance(o.v, (str, bytes)):
            try:
                if is_slice:
                    a, b, c = [x.v for x in i.args]
                    return [('ok', st, C(o.v[a:b:c]))]
                return [('ok', st, C(o.v[i.v]))]
            except (AttributeError, TypeError):
                pass
            except IndexError:
                return [('raise', st, self.exc('IndexError'))]
        if isinstance(o, Match):
            return self.match_method(st, o, 'group', [i])
        if is_slice:
            lo, hi, step = i.args
            if step is not NONE:
                return [('ok', st, T('slice3', o, lo, hi, step))]
            if isinstance(lo, Const) and lo.v == 0:
                lo = NONE
            if lo is NONE and hi is NONE:
                if isinstance(o, Str) or is_stringy(o):
                    return [('ok', st, o)]
                # a copy
                return [('ok', st, self.alloc(st, HList((), o)))]
            if isinstance(o, Term) and o.op == 'slice' and hi is NONE \
                    and isinstance(lo, Const) and o.args[2] is NONE \
                    and isinstance(o.args[1], Const) and lo.v >= 0 \
                    and o.args[1].v is not None and o.args[1].v >= 0:
                return [('ok', st, T('slice', o.args[0],
                                     C(o.args[1].v + lo.v), NONE))]
            return [('ok', st, T('slice', o, lo, hi))]
        if isinstance(o, (Str, Term)):
            return [('ok', st, self.item(st, o, i))]
        return [('ok', st, T('item', o, i))]

    def list_index(self, st, o, lst, i, is_slice):
        n = len(lst.items)
        if is_slice:
            if i.args[0] is NONE and i.args[1] is NONE and \
                    i.args[2] is NONE:
                return [('ok', st, self.alloc(st, HList(
                    lst.items, lst.base, lst.pop)))]
            if lst.base is None:
                try:
                    a, b, c = [st.resolve(x).v for x in i.args]
                    return [('ok', st, self.alloc(st, HList(
                        lst.items[a:b:c])))]
                except (AttributeError, TypeError):
                    pass
            rng = self.slice_range(st, lst, i)
            if rng is not None:
                return [('ok', st, self.alloc(st, HList(
                    lst.items[rng[0]:rng[1]])))]
            return [('ok', st, T('slice', self.freeze(st, o), i.args[0],
                                 i.args[1]))]
        if isinstance(i, Const) and isinstance(i.v, int):
            k = i.v
            if lst.base is None:
                if -n <= k < n:
                    return [('ok', st, lst.items[k])]
                return [('raise', st, self.exc('IndexError'))]
            if k < 0:
                if -k <= n:
                    return [('ok', st, lst.items[k])]
                return [('ok', st, st.resolve(T(
                    'top', lst.base, C(lst.pop - k - n))))]
            return [('ok', st, T('item', lst.base, i))]
        if lst.base is not None:
            b, k = self.lin(i)
            if b is T('len', lst.base):
                j = k + lst.pop
                if 0 <= j < n:
                    return [('ok', st, lst.items[j])]
                if j < 0:
                    return [('ok', st, T('top', lst.base,
                                         C(lst.pop - j)))]
        return [('ok', st, T('item', self.freeze(st, o), i))]

    # ------------------------------------------------------------ dict
    def dict_find(self, st, o, key):
        """[(state, found, (key, value))]; value None means 'in the base'."""
        h = st.heap[o.oid]
        key = st.resolve(key)
        res = []
        cur = st
        for k, v in h.entries:
            t = self.compare1(cur, 'eq', key, k)
            if isinstance(t, Const):
                if t.v:
                    res.append((cur, True, (k, v)))
                    return res
                continue
            s2 = cur.fork()
            if self.assume(s2, t, True):
                res.append((s2, True, (k, v)))
            if not self.assume(cur, t, False):
                return res
        if h.base is None:
            keys = {untag(k) for k, v in h.entries}
            for f, val in cur.facts.items():
                if val and isinstance(f, Term) and f.op == 'in' \
                        and f.args[0] is untag(key):
                    cs = self.member_keys(f.args[1])
                    if cs is not None and cs <= keys:
                        return res      # cannot be missing
            res.append((cur, False, (key, None)))
            return res
        if key in h.gone:
            res.append((cur, False, (key, None)))
            return res
        t = T('in', key, h.base)
        for s, b in self.truth(cur, t):
            res.append((s, b, (key, None)))
        return res

    @staticmethod
    def member_keys(b):
        cs = _const_items(b)
        if cs is not None:
            return set(cs)
        if isinstance(b, Term) and b.op == 'dictof' and b.args[0] is NONE:
            return {p.items[0] for p in b.args[1].items}
        return None

    def dict_update(self, st, d, other, node):
        other = st.resolve(other)
        if isinstance(other, Ref) and st.heap[other.oid].kind == 'dict':
            oh = st.heap[other.oid]
            outs = [('ok', st, NONE)]
            if oh.base is not None:
                h = st.heap[d.oid]
                b = oh.base if h.base is None and not h.entries else T(
                    'merged', h.base or NONE, TUP([
                        TUP(e) for e in h.entries]), oh.base)
                st.heap[d.oid] = HDict((), b)
            for k, v in oh.entries:
                outs = self.lift(outs, lambda s, _, k=k, v=v: [
                    ('ok', s2, NONE) if kk == 'next' else (kk, s2, x)
                    for kk, s2, x in self.setitem(s, d, k, v, node)])
            return outs
        items = self.as_items(st, other)
        if items is not None:
            outs = [('ok', st, NONE)]
            for e in items:
                pr = self.as_items(st, e)
                if pr is None or len(pr) != 2:
                    pr = [self.item(st, e, C(0)), self.item(st, e, C(1))]
                outs = self.lift(outs, lambda s, _, pr=pr: [
                    ('ok', s2, NONE) if kk == 'next' else (kk, s2, x)
                    for kk, s2, x in self.setitem(s, d, pr[0], pr[1], node)])
            return outs
        h = st.heap[d.oid]
        b = other if h.base is None and not h.entries else T(
            'merged', h.base or NONE,
            TUP([TUP(e) for e in h.entries]), other)
        st.heap[d.oid] = HDict((), b)
        return [('ok', st, NONE)]

    # ------------------------------------------------------------ attrs
    def class_attr(self, st, cls, name):
        for c in self.prog.mro(cls, st.heap):
            if isinstance(c, Ref) and name in st.heap[c.oid].attrs:
                return st.heap[c.oid].attrs[name]
        return None

    def e_Attribute(self, node, st):
        return self.lift(self.ev(node.value, st),
                         lambda s, o: self.getattr(s, o, node.attr, node))

    def ext_bases(self, st, cls):
        return [c for c in self.prog.mro(cls, st.heap) if isinstance(c, Ext)
                and c.name != 'builtins.object']

    def bind_attr(self, st, o, v, node, cls=None):
        if isinstance(v, Func):
            return [('ok', st, BOUND(o, v))]
        if isinstance(v, Prop):
            return self.call(st, v.fget, [o], {}, node)
        if isinstance(v, Wrapped):
            if v.kind == 'static':
                return [('ok', st, v.fn)]
            if v.kind == 'class':
                return [('ok', st, BOUND(cls or o, v.fn))]
            if v.kind == 'contextmanager':
                return [('ok', st, WRAP('contextmanager',
                                        BOUND(o, v.fn)))]
        if isinstance(v, Ext):
            # e.g. write = list.append in a class body
            return [('ok', st, BEXT(o, v.name.rsplit('.', 1)[-1]))]
        return [('ok', st, v)]

    def getattr(self, st, o, name, node, default=None):
        o = st.resolve(o)
        for hk in self.hooks:
            f = getattr(hk, 'on_getattr', None)
            if f:
                r = f(self, st, o, name, node)
                if r is not None:
                    return r
        if isinstance(o, Term) and o.op == 'msg' and name in MSG_FIELDS:
            return [('ok', st, o.args[1 + MSG_FIELDS.index(name)])]
        if isinstance(o, Ref):
            h = st.heap[o.oid]
            if h.kind == 'inst':
                cv = self.class_attr(st, h.cls, name)
                if isinstance(cv, Prop):
                    return self.bind_attr(st, o, cv, node)
                if name in h.fields:
                    return [('ok', st, h.fields[name])]
                if name == '__class__':
                    return [('ok', st, h.cls)]
                if name == '__dict__':
                    return [('ok', st, T('__dict__', o))]
                if cv is not None:
                    return self.bind_attr(st, o, cv, node, h.cls)
                if h.lazy is not None:
                    v = T('field', h.lazy, name)
                    st.heap[o.oid] = h.with_field(name, v)
                    return [('ok', st, v)]
                if self.ext_bases(st, h.cls) or h.data is not None:
                    return [('ok', st, BEXT(o, name))]
                if default is not None:
                    return [('ok', st, default)]
                if name.startswith('__'):
                    return [('ok', st, T('attr', o, name))]
                return [('raise', st, self.exc('AttributeError', C(name)))]
            if h.kind == 'class':
                v = self.class_attr(st, o, name)
                if v is not None:
                    if isinstance(v, Wrapped):
                        if v.kind == 'static':
                            return [('ok', st, v.fn)]
                        if v.kind == 'class':
                            return [('ok', st, BOUND(o, v.fn))]
                    return [('ok', st, v)]
                if name == '__name__':
                    return [('ok', st, C(h.name))]
                ext = self.ext_bases(st, o)
                if ext:
                    return [('ok', st, EXT(ext[0].name + '.' + name))]
                if name == '__mro__':
                    return [('ok', st, TUP(self.prog.mro(o, st.heap)))]
                return [('ok', st, default if default is not None
                         else EXT('builtins.object.' + name))]
            return [('ok', st, BEXT(o, name))]
        if isinstance(o, Mod):
            return [('ok', st, self.mod_attr(st, o, name))]
        if isinstance(o, Ext):
            k = ('attr', o, name)
            if k in st.over:
                return [('ok', st, st.over[k])]
            return [('ok', st, EXT(o.name + '.' + name))]
        if isinstance(o, (Const, Str, Tup, Regex, Match, Prop)):
            if isinstance(o, Regex) and name == 'pattern':
                return [('ok', st, C(o.pattern))]
            if o is NONE and not name.startswith('__'):
                if default is not None:
                    return [('ok', st, default)]
                self.event(st, 'none_attr', o, name, (), (), NONE, node)
                return [('raise', st, self.exc('AttributeError', C(name)))]
            if name == '__class__' and isinstance(o, Tup):
                return [('ok', st, EXT('builtins.tuple'))]
            return [('ok', st, BEXT(o, name))]
        if isinstance(o, Term) and o.op == 'superof':
            selfv, owner = o.args
            cls = st.heap[selfv.oid].cls if st.heap[selfv.oid].kind == \
                'inst' else selfv
            mro = self.prog.mro(cls, st.heap)
            if owner in mro:
                mro = mro[mro.index(owner) + 1:]
            for c in mro:
                if isinstance(c, Ref) and name in st.heap[c.oid].attrs:
                    return self.bind_attr(st, selfv,
                                          st.heap[c.oid].attrs[name], node)
                if isinstance(c, Ext):
                    return [('ok', st, WRAP('partial', EXT(
                        c.name + '.' + name), (selfv,)))]
            return [('ok', st, WRAP('partial', EXT(
                'builtins.object.' + name), (selfv,)))]
        if isinstance(o, Func):
            if name == '__name__':
                return [('ok', st, C(o.fi.name))]
            return [('ok', st, T('attr', T('fn', o), name))]
        k = ('attr', o, name)
        if k in st.over:
            return [('ok', st, st.over[k])]
        return [('ok', st, st.resolve(T('attr', o, name)))]

    # ------------------------------------------------------------ calls
    def e_Call(self, node, st):
        # zero-argument super()
        if isinstance(node.func, ast.Name) and node.func.id == 'super' \
                and not node.args:
            fr = self.frame(st)
            fi = fr[' fi']
            if fi is not None and fi.params:
                return [('ok', st, T('superof', fr[fi.params[0]],
                                     fi.owner))]

        def f(s, fv):
            return self.lift(self.seq(node.args, s), lambda s2, acc: g(
                s2, fv, acc))

        def g(s, fv, acc):
            outs = [('ok', s, {})]
            for kw in node.keywords:
                def h(s2, kws, kw=kw):
                    res = []
                    for k, s3, v in self.ev(kw.value, s2):
                        if k != 'ok':
                            res.append((k, s3, v))
                            continue
                        d = dict(kws)
                        if kw.arg is None:
                            v = s3.resolve(v)
                            if isinstance(v, Ref) and s3.heap[
                                    v.oid].kind == 'dict':
                                for kk, x in s3.heap[v.oid].entries:
                                    if isinstance(kk, Const):
                                        d[kk.v] = x
                                if s3.heap[v.oid].base is not None:
                                    d['**'] = s3.heap[v.oid].base
                            else:
                                d['**'] = v
                        else:
                            d[kw.arg] = v
                        res.append(('ok', s3, d))
                    return res
                outs = self.lift(outs, h)
            args = list(acc[0])
            if acc[1] is not None:
                args.append(acc[1])
            return self.lift(outs, lambda s2, kws: self.call(
                s2, fv, args, kws, node))
        return self.lift(self.ev(node.func, st), f)

    def call(self, st, fv, args, kw, node):
        fv = st.resolve(fv)
        for hk in self.hooks:
            f = getattr(hk, 'on_call', None)
            if f:
                r = f(self, st, fv, list(args), dict(kw), node)
                if r is not None:
                    return r
        if isinstance(fv, Func):
            return self.inline(st, fv, list(args), kw, node)
        if isinstance(fv, Bound):
            return self.call(st, fv.fn, [fv.recv] + list(args), kw, node)
        if isinstance(fv, Wrapped):
            if fv.kind == 'partial':
                k2 = dict(fv.kw)
                k2.update(kw)
                return self.call(st, fv.fn, list(fv.args) + list(args), k2,
                                 node)
            if fv.kind == 'contextmanager':
                return [('ok', st, WRAP('cm', fv.fn, tuple(args),
                                        tuple(sorted(kw.items()))))]
            return self.call(st, fv.fn, args, kw, node)
        if isinstance(fv, Ref):
            h = st.heap[fv.oid]
            if h.kind == 'class':
                return self.instantiate(st, fv, list(args), kw, node)
            if h.kind == 'inst':
                m = self.class_attr(st, h.cls, '__call__')
                if m is not None:
                    return self.call(st, BOUND(fv, m), args, kw, node)
        if isinstance(fv, BoundExt):
            return self.call_method(st, fv.recv, fv.name, list(args), kw,
                                    node)
        if isinstance(fv, Ext):
            return self.call_ext(st, fv.name, list(args), kw, node)
        if isinstance(fv, Term) and fv.op == 'attr':
            return self.call_method(st, fv.args[0], fv.args[1], list(args),
                                    kw, node)
        return self.opaque_call(st, fv, '__call__', args, kw, node)

    def opaque_call(self, st, recv, name, args, kw, node, kind='call'):
        res = T('res', recv, name, TUP([self.freeze(st, a) for a in args]),
                TUP([TUP([C(k), self.freeze(st, v)])
                     for k, v in sorted(kw.items())]), C(st.n))
        ev = self.event(st, kind, recv, name, args, tuple(sorted(kw.items())),
                        res, node)
        outs = None
        for hk in self.hooks:
            f = getattr(hk, 'on_event', None)
            if f:
                outs = f(self, st, ev, node)
                if outs is not None:
                    return outs
        return [('ok', st, res)]

    def bind_args(self, st, fn, args, kw, node):
        fi = fn.fi
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        star = None
        args = list(args)
        if args and isinstance(args[-1], Term) and args[-1].op == 'star':
            star = args.pop()
        for i, p in enumerate(params):
            if i < len(args):
                loc[p] = args[i]
        extra = args[len(params):]
        kw = dict(kw)
        kwbase = kw.pop('**', None)
        names = set(params) | {x.arg for x in a.kwonlyargs}
        left = {}
        for k, v in kw.items():
            if k in names and k not in loc:
                loc[k] = v
            else:
                left[k] = v
        nd = len(fn.defaults)
        for i, p in enumerate(params):
            if p not in loc:
                if star is not None:
                    loc[p] = T('item', star.args[0], C(i - len(args)))
                elif i >= len(params) - nd:
                    loc[p] = fn.defaults[i - (len(params) - nd)]
                else:
                    self.event(st, 'badcall', fn, fi.qual, tuple(args), (),
                               NONE, node)
                    return [('raise', st, self.exc('TypeError'))]
        for x in a.kwonlyargs:
            if x.arg not in loc:
                d = dict(fn.kwdefaults)
                loc[x.arg] = d.get(x.arg, T('missing', x.arg))
        if a.vararg:
            if star is not None:
                loc[a.vararg.arg] = T('tupcat', TUP(extra), star.args[0])
            else:
                loc[a.vararg.arg] = TUP(extra)
        elif extra:
            self.event(st, 'badcall', fn, fi.qual, tuple(args), (), NONE,
                       node)
            return [('raise', st, self.exc('TypeError'))]
        if a.kwarg:
            loc[a.kwarg.arg] = self.alloc(st, HDict(
                [(C(k), v) for k, v in left.items()], kwbase))
        elif left:
            self.event(st, 'badcall', fn, fi.qual, tuple(args), (), NONE,
                       node)
            return [('raise', st, self.exc('TypeError'))]
        fid = self.new_frame(st, fi, fi.module, fn.frame)
        st.frames[fid].update(loc)
        return [('ok', st, fid)]

    def inline(self, st, fn, args, kw, node):
        fi = fn.fi
        self.functions_seen.add(fi)
        cnt = sum(1 for f in st.stack if f in st.frames
                  and st.frames[f][' fi'] is fi)
        if cnt >= self.recursion or len(st.stack) > self.max_depth:
            return self.opaque_call(st, T('fn', fn), '__call__', args, kw,
                                    node)
        outs = self.bind_args(st, fn, args, kw, node)
        if outs[0][0] != 'ok':
            return outs
        _, st, fid = outs[0]
        st.stack = st.stack + (fid,)
        if isinstance(fi.node, ast.Lambda):
            outs = [('return' if k == 'ok' else k, s, v)
                    for k, s, v in self.ev(fi.node.body, st)]
        else:
            if fi.is_gen:
                st.frames[fid][' yields'] = ()
            outs = self.block(fi.node.body, st)
        res = []
        for k, s, v in outs:
            fr = s.frames.get(fid)
            if fi.is_gen and k != 'raise':
                v = self.alloc(s, HList(fr[' yields']))
            s.stack = s.stack[:-1]
            if not fi.has_nested:
                s.frames.pop(fid, None)
            if k == 'raise':
                res.append((k, s, v))
            else:
                res.append(('ok', s, v if v is not None else NONE))
        return res

    def e_Yield(self, node, st):
        def f(s, v):
            fr = self.frame(s)
            if ' yield' in fr:
                return fr[' yield'](s, v)
            if ' yields' in fr:
                fr[' yields'] = fr[' yields'] + (v,)
            return [('ok', s, NONE)]
        if node.value is None:
            return f(st, NONE)
        return self.lift(self.ev(node.value, st), f)

    def e_YieldFrom(self, node, st):
        def f(s, v):
            res = []
            for s2, el in self.iterate(s, v, node):
                fr = self.frame(s2)
                if ' yields' in fr:
                    fr[' yields'] = fr[' yields'] + tuple(el)
                res.append(('ok', s2, NONE))
            return res
        return self.lift(self.ev(node.value, st), f)

    def e_Await(self, node, st):
        return self.ev(node.value, st)

    def e_Starred(self, node, st):
        return self.ev(node.value, st)

    def instantiate(self, st, cls, args, kw, node):
        h = st.heap[cls.oid]
        data = None
        ext = [c.name for c in self.ext_bases(st, cls)]
        if 'builtins.list' in ext:
            data = HList()
        inst = HInst(cls, {}, data)
        ref = self.alloc(st, inst)
        fields = self.class_attr(st, cls, ' fields')
        init = self.class_attr(st, cls, '__init__')
        if init is None and fields:
            fl = {}
            for i, n in enumerate(fields):
                if i < len(args):
                    fl[n] = args[i]
                elif n in kw:
                    fl[n] = kw[n]
                else:
                    fl[n] = self.class_attr(st, cls, n) or NONE
            st.heap[ref.oid] = HInst(cls, fl, HList(
                [fl[n] for n in fields]))
            return [('ok', st, ref)]
        if init is None:
            if data is not None and args:
                it = self.as_items(st, args[0])
                if it is not None:
                    st.heap[ref.oid] = inst.with_data(HList(it))
                else:
                    st.heap[ref.oid] = inst.with_data(HList((), args[0]))
            elif ext:
                st.heap[ref.oid] = inst.with_field('args', TUP(args))
            return [('ok', st, ref)]
        return self.lift(self.call(st, BOUND(ref, init), args, kw, node),
                         lambda s, v: [('ok', s, ref)])

    # ---- methods of builtin values --------------------------------
    def call_method(self, st, recv, name, args, kw, node):
        recv = st.resolve(recv)
        if isinstance(recv, Term) and recv.op == 'msg':
            recv = recv.args[0]
        args = [st.resolve(a) for a in args]
        if self.any_text and name == 'encode' and narrow(args, kw) \
                and isinstance(recv, (Term, Str)):
            s = st.fork()
            return [('ok', st, T('m', name, recv, *args)),
                    ('raise', s, self.exc('UnicodeEncodeError'))]
        if isinstance(recv, Ref):
            h = st.heap[recv.oid]
            if self.get_list(st, recv) is not None:
                return self.list_method(st, recv, name, args, kw, node)
            if h.kind == 'dict':
                return self.dict_method(st, recv, name, args, kw, node)
            if h.kind == 'set':
                return self.set_method(st, recv, name, args, kw, node)
            return self.opaque_call(st, recv, name, args, kw, node, 'ext')
        if isinstance(recv, Const) and isinstance(recv.v, (str, bytes)) \
                or isinstance(recv, Str):
            r = self.str_method(st, recv, name, args, kw, node)
            if r is not None:
                return r
        if isinstance(recv, (Tup, Const)):
            if name == '__contains__' and len(args) == 1:
                return [('ok', st, self.compare1(st, 'in', args[0], recv))]
            if name == '__getitem__' and len(args) == 1:
                return self.subscript(st, recv, args[0], node)
        if isinstance(recv, Tup):
            if name == 'index' and args:
                for i, x in enumerate(recv.items):
                    if x is args[0]:
                        return [('ok', st, C(i))]
            if name == 'count':
                return [('ok', st, T('m', name, recv, *args))]
        if isinstance(recv, Regex):
            return self.regex_method(st, recv, name, args, kw, node)
        if isinstance(recv, Match):
            return self.match_method(st, recv, name, args)
        if isinstance(recv, Term):
            if name in PURE or name in ('copy', 'translate'):
                r = self.term_method(st, recv, name, args, kw, node)
                if r is not None:
                    return r
        return self.opaque_call(st, recv, name, args, kw, node)

    def is_program_str(self, v):
        return True

    def term_method(self, st, recv, name, args, kw, node):
        for hk in self.hooks:
            f = getattr(hk, 'is_object', None)
            if f and f(recv):
                return None
        if name == 'copy' and not args:
            return [('ok', st, self.alloc(st, HDict((), recv)))]
        if name == 'get' and args:
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            res = []
            t = T('in', args[0], recv)
            for s, b in self.truth(st, t):
                res.append(('ok', s, self.item(s, recv, args[0])
                            if b else d))
            return res
        if name in ('__getitem__',) and args:
            return self.subscript(st, recv, args[0], node)
        if name == '__contains__' and args:
            return [('ok', st, self.compare1(st, 'in', args[0], recv))]
        r = self.str_method(st, recv, name, args, kw, node)
        if r is not None:
            return r
        if name == 'translate':
            return None
        return [('ok', st, T('m', name, recv, *[
            self.freeze(st, a) for a in args]))]

    def str_method(self, st, recv, name, args, kw, node):
        allc = isinstance(recv, Const) and all(
            isinstance(a, Const) or isinstance(a, Tup) and all(
                isinstance(x, Const) for x in a.items)
            for a in args) and not kw
        if allc:
            m = getattr(recv.v, name, None)
            if m is None:
                return None
            try:
                r = m(*[a.v if isinstance(a, Const) else tuple(
                    x.v for x in a.items) for a in args])
            except Exception:
                return None
            if isinstance(r, list):
                return [('ok', st, self.alloc(st, HList(map(C, r))))]
            if isinstance(r, tuple):
                return [('ok', st, TUP(map(C, r)))]
            if isinstance(r, (str, bytes, int, bool, float)):
                return [('ok', st, C(r))]
            return None
        if name == 'join' and args:
            return self.join(st, recv, args[0], node)
        if name == 'format':
            return self.format(st, recv, args, kw)
        if name == 'replace' and len(args) >= 2:
            if len(args) > 2:
                return [('ok', st, T('m', name, recv, *args))]
            if isinstance(args[0], Const) and isinstance(args[0].v, str) \
                    and isinstance(args[1], Const) and len(args[0].v) == 1:
                a, b = args[0].v, args[1].v
                return [('ok', st, self.per_char(
                    recv, lambda x: x.replace(a, b),
                    lambda x: T('replace', x, args[0], args[1])))]
            return [('ok', st, T('replace', recv, args[0], args[1]))]
        if name in ('lower', 'upper') and not args:
            return [('ok', st, T(name, recv))]
        if name in ('strip',) and not args:
            return [('ok', st, T('strip', recv))]
        if name in ('startswith', 'endswith') and args and isinstance(
                recv, Str) and isinstance(args[0], Const) \
                and isinstance(args[0].v, str):
            p = recv.parts[0 if name == 'startswith' else -1]
            if isinstance(p, str):
                if getattr(p, name)(args[0].v):
                    return [('ok', st, TRUE)]
                n = min(len(p), len(args[0].v))
                if n == 0 or (p[:n] != args[0].v[:n]
                              if name == 'startswith'
                              else p[-n:] != args[0].v[-n:]):
                    return [('ok', st, FALSE)]
        if name == 'translate' and len(args) == 1:
            m = None
            if isinstance(args[0], Ref) and st.heap[
                    args[0].oid].kind == 'dict':
                m = TUP([TUP(e) for e in st.heap[args[0].oid].entries])
            elif isinstance(args[0], Term) and args[0].op == 'maketrans':
                m = args[0].args[0]
            if m is not None:
                pairs = char_pairs(m)
                if pairs is None:
                    return [('ok', st, T('strtranslate', recv, m))]
                return [('ok', st, self.charmap(recv, pairs))]
            return None
        if isinstance(recv, (Const, Str)) and name in PURE:
            return [('ok', st, T('m', name, recv, *[
                self.freeze(st, a) for a in args]))]
        return None

    @staticmethod
    def per_char(v, const, term):
        """Apply a character-wise function to each piece of a string."""
        if isinstance(v, Const):
            return C(const(v.v))
        if isinstance(v, Str):
            return S([const(p) if isinstance(p, str) else term(p)
                      for p in v.parts])
        return term(v)

    def charmap(self, v, pairs):
        d = dict(pairs)
        return self.per_char(
            v, lambda x: ''.join(d.get(c, c) for c in x),
            lambda x: T('charmap', x, pairs))

    def resub(self, st, rx, repl, subject, node):
        """re.sub of single characters is a character map."""
        from .regexes import single_chars
        if isinstance(subject, Const) and isinstance(subject.v, str) \
                and isinstance(rx.flags, int) \
                and isinstance(repl, Const) and isinstance(repl.v, str):
            import re
            return C(re.sub(re.compile(rx.pattern, rx.flags), repl.v,
                            subject.v))
        chars = single_chars(rx)
        if chars is not None:
            pairs = []
            for c in chars:
                if isinstance(repl, Const) and isinstance(repl.v, str):
                    if '\\' in repl.v:
                        break
                    pairs.append((c, repl.v))
                    continue
                try:
                    outs = self.call(st.fork(), repl,
                                     [MATCH(rx, 'match', C(c))], {}, node)
                except Budget:
                    break
                if len(outs) != 1 or outs[0][0] != 'ok' or not isinstance(
                        outs[0][2], Const) or not isinstance(
                        outs[0][2].v, str):
                    break
                pairs.append((c, outs[0][2].v))
            else:
                return self.charmap(subject, tuple(pairs))
        return T('resub', rx, repl, subject)

    def join(self, st, sep, seq, node):
        items = self.as_items(st, seq)
        if items is None and isinstance(seq, Ref):
            lst = self.get_list(st, seq)
            if lst is not None and lst.items:
                head = T('join', sep, T('listof', lst.base, TUP(())))
                parts = [head]
                for x in lst.items:
                    parts += [sep, self.strpart(st, x)]
                return [('ok', st, S(parts))]
        if items is None:
            return [('ok', st, T('join', sep, self.freeze(st, seq)))]
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.append(sep)
            parts.append(self.strpart(st, x))
        if len(parts) == 1 and isinstance(parts[0], Term):
            return [('ok', st, S(parts))]
        return [('ok', st, S(parts))]

    def format(self, st, recv, args, kw):
        if not (isinstance(recv, Const) and isinstance(recv.v, str)):
            return [('ok', st, T('m', 'format', recv, *args))]
        import string
        out, auto = [], 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(recv.v):
                out.append(C(lit))
                if fld is None:
                    continue
                if fld == '':
                    v = args[auto]
                    auto += 1
                elif fld.isdigit():
                    v = args[int(fld)]
                elif fld in kw:
                    v = kw[fld]
                else:
                    v = T('fmtfield', C(fld), TUP(args))
                if conv == 'r':
                    v = self.repr_of(st, v)
                if spec:
                    v = T('format', v, C(spec))
                out.append(self.strpart(st, v))
        except (IndexError, ValueError):
            return [('ok', st, T('m', 'format', recv, *args))]
        return [('ok', st, S(out))]

    def list_method(self, st, o, name, args, kw, node):
        lst = self.get_list(st, o)
        if lst is None:
            return self.opaque_call(st, o, name, args, kw, node)
        if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear',
                    'sort', 'reverse'):
            self.note_mut(st, o, name, tuple(args), node)
        items = lst.items
        if name in ('append', 'write') and args:
            if lst.pop and not items and st.resolve(args[0]) is st.resolve(
                    T('top', lst.base, C(lst.pop))):
                self.set_list(st, o, HList((), lst.base, lst.pop - 1))
                return [('ok', st, NONE)]
            self.set_list(st, o, HList(items + (args[0],), lst.base,
                                       lst.pop))
            return [('ok', st, NONE)]
        if name == 'extend' and args:
            it = self.as_items(st, args[0])
            if it is not None:
                self.set_list(st, o, HList(items + tuple(it), lst.base,
                                           lst.pop))
                return [('ok', st, NONE)]
            res = []
            for s, el in self.iterate(st, args[0], node):
                l2 = self.get_list(s, o)
                self.set_list(s, o, HList(l2.items + tuple(el), l2.base,
                                          l2.pop))
                res.append(('ok', s, NONE))
            return res
        if name == 'pop':
            k = -1
            if args:
                if isinstance(args[0], Const):
                    k = args[0].v
                else:
                    k = None
            if k is not None and -len(items) <= k < len(items) and (
                    lst.base is None or k < 0):
                v = items[k]
                kk = k if k >= 0 else k + len(items)
                self.set_list(st, o, HList(items[:kk] + items[kk + 1:],
                                           lst.base, lst.pop))
                return [('ok', st, v)]
            if lst.base is None and k is not None:
                return [('raise', st, self.exc('IndexError'))]
            if k == -1:
                self.set_list(st, o, HList((), lst.base, lst.pop + 1))
                return [('ok', st, st.resolve(T('top', lst.base,
                                                C(lst.pop + 1))))]
            v = T('item', self.freeze(st, o), args[0])
            self.set_list(st, o, HList((), T('popped', self.freeze(st, o),
                                             args[0])))
            return [('ok', st, v)]
        if name == 'insert' and len(args) == 2 and lst.base is None \
                and isinstance(args[0], Const):
            k = args[0].v
            li = list(items)
            li.insert(k, args[1])
            self.set_list(st, o, HList(li))
            return [('ok', st, NONE)]
        if name == 'remove' and args:
            res = []
            cur = st
            for i, x in enumerate(items):
                t = self.compare1(cur, 'eq', x, args[0])
                if isinstance(t, Const) and not t.v:
                    continue
                if isinstance(t, Const):
                    self.set_list(cur, o, HList(
                        items[:i] + items[i + 1:], lst.base, lst.pop))
                    return res + [('ok', cur, NONE)]
                s2 = cur.fork()
                if self.assume(s2, t, True):
                    self.set_list(s2, o, HList(
                        items[:i] + items[i + 1:], lst.base, lst.pop))
                    res.append(('ok', s2, NONE))
                if not self.assume(cur, t, False):
                    return res
            if lst.base is None:
                return res + [('raise', cur, self.exc('ValueError'))]
            self.set_list(cur, o, HList(items, T('removed', lst.base,
                                                 args[0]), 0))
            return res + [('ok', cur, NONE)]
        if name == 'clear':
            self.set_list(st, o, HList())
            return [('ok', st, NONE)]
        if name == 'reverse':
            if lst.base is None:
                self.set_list(st, o, HList(items[::-1]))
            else:
                self.set_list(st, o, HList((), T('reversed',
                                                 self.freeze(st, o))))
            return [('ok', st, NONE)]
        if name == 'sort':
            if isinstance(o, Ref):
                st.ghost['sorted'] = st.ghost.get('sorted', ()) + (o.oid,)
            if lst.base is None and all(isinstance(x, Const)
                                        for x in items) and not kw:
                try:
                    self.set_list(st, o, HList(sorted(
                        items, key=lambda c: c.v)))
                except TypeError:
                    pass
            return [('ok', st, NONE)]
        if name == 'copy':
            return [('ok', st, self.alloc(st, HList(items, lst.base,
                                                    lst.pop)))]
        if name == 'index' and args:
            for i, x in enumerate(items):
                if lst.base is not None:
                    break
                if x is args[0]:
                    return [('ok', st, C(i))]
                t = self.compare1(st, 'eq', x, args[0])
                if not isinstance(t, Const):
                    break
                if t.v:
                    return [('ok', st, C(i))]
            else:
                if lst.base is None:
                    return [('raise', st, self.exc('ValueError'))]
            return [('ok', st, T('m', 'index', self.freeze(st, o), *args))]
        if name == 'count':
            return [('ok', st, T('m', 'count', self.freeze(st, o), *args))]
        if name == '__len__':
            return self.call_ext(st, 'builtins.len', [o], {}, node)
        if name == '__init__':
            if args:
                it = self.as_items(st, args[0])
                self.set_list(st, o, HList(it) if it is not None
                              else HList((), args[0]))
            return [('ok', st, NONE)]
        return self.opaque_call(st, o, name, args, kw, node, 'ext')

    def dict_method(self, st, o, name, args, kw, node):
        h = st.heap[o.oid]
        if name in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
            self.note_mut(st, o, name, tuple(args), node)
        if name == 'get' and args:
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            res = []
            for s, found, e in self.dict_find(st, o, args[0]):
                if found:
                    res.append(('ok', s, e[1] if e[1] is not None
                                else self.item(s, s.heap[o.oid].base,
                                               args[0])))
                else:
                    res.append(('ok', s, d))
            return res
        if name == 'pop' and args:
            res = []
            for s, found, e in self.dict_find(st, o, args[0]):
                hh = s.heap[o.oid]
                if found:
                    v = e[1] if e[1] is not None else self.item(
                        s, hh.base, args[0])
                    s.heap[o.oid] = HDict(
                        [x for x in hh.entries if x[0] is not e[0]]
                        if e[1] is not None else hh.entries,
                        hh.base, hh.gone + (
                            (args[0],) if hh.base is not None else ()))
                    res.append(('ok', s, v))
                elif len(args) > 1:
                    res.append(('ok', s, args[1]))
                else:
                    res.append(('raise', s, self.exc('KeyError', args[0])))
            return res
        if name == 'setdefault' and args:
            d = args[1] if len(args) > 1 else NONE
            res = []
            for s, found, e in self.dict_find(st, o, args[0]):
                hh = s.heap[o.oid]
                if found:
                    res.append(('ok', s, e[1] if e[1] is not None
                                else self.item(s, hh.base, args[0])))
                else:
                    s.heap[o.oid] = HDict(hh.entries + ((args[0], d),),
                                          hh.base, hh.gone)
                    res.append(('ok', s, d))
            return res
        if name == 'update':
            outs = [('ok', st, NONE)]
            for a in args:
                outs = self.lift(outs, lambda s, _, a=a: self.dict_update(
                    s, o, a, node))
            for k, v in kw.items():
                outs = self.lift(outs, lambda s, _, k=k, v=v: [
                    ('ok', s2, NONE) if kk == 'next' else (kk, s2, x)
                    for kk, s2, x in self.setitem(s, o, C(k), v, node)])
            return outs
        if name == 'copy':
            return [('ok', st, self.alloc(st, h))]
        if name == 'clear':
            st.heap[o.oid] = HDict()
            return [('ok', st, NONE)]
        if name in ('items', 'keys', 'values'):
            f = {'items': lambda e: TUP(e), 'keys': lambda e: e[0],
                 'values': lambda e: e[1]}[name]
            base = None if h.base is None else T(name, h.base, TUP(h.gone))
            return [('ok', st, self.alloc(st, HList(
                [f(e) for e in h.entries], base)))]
        if name == '__contains__' and args:
            return [('ok', st, self.compare1(st, 'in', args[0], o))]
        if name == '__getitem__' and args:
            return self.subscript(st, o, args[0], node)
        return self.opaque_call(st, o, name, args, kw, node, 'ext')

    def set_method(self, st, o, name, args, kw, node):
        h = st.heap[o.oid]
        if name in ('add', 'discard', 'remove', 'update', 'clear'):
            self.note_mut(st, o, name, tuple(args), node)
        if name == 'add':
            if args[0] not in h.items:
                st.heap[o.oid] = HSet(h.items + (args[0],), h.base)
            return [('ok', st, NONE)]
        if name in ('discard', 'remove'):
            st.heap[o.oid] = HSet([x for x in h.items if x is not args[0]],
                                  h.base)
            return [('ok', st, NONE)]
        if name in ('union', 'update', 'intersection', 'difference'):
            items = list(h.items)
            base = h.base
            for a in args:
                it = self.as_items(st, a)
                if it is None:
                    base = T('setop', name, base or NONE,
                             self.freeze(st, a))
                    continue
                if name in ('union', 'update'):
                    items += [x for x in it if x not in items]
                elif name == 'intersection':
                    items = [x for x in items if x in it]
                else:
                    items = [x for x in items if x not in it]
            if name == 'update':
                st.heap[o.oid] = HSet(items, base)
                return [('ok', st, NONE)]
            return [('ok', st, self.alloc(st, HSet(items, base)))]
        if name == 'copy':
            return [('ok', st, self.alloc(st, h))]
        if name == '__contains__':
            return [('ok', st, self.compare1(st, 'in', args[0], o))]
        if name in ('isdisjoint', 'issubset', 'issuperset') and args:
            mine = self.const_set(st, o)
            it = self.as_items(st, args[0])
            if mine is not None and it is not None and all(
                    isinstance(x, Const) for x in it):
                return [('ok', st, C(getattr(mine, name)(
                    [x.v for x in it])))]
        return self.opaque_call(st, o, name, args, kw, node, 'ext')

    # ---- regular expressions --------------------------------------
    def regex_method(self, st, rx, name, args, kw, node):
        if name in ('match', 'search', 'fullmatch') and args:
            from .regexes import total, const_match
            if total(rx, name):
                return [('ok', st, MATCH(rx, name, args[0]))]
            if len(args) == 1:
                cm = const_match(rx, name, args[0])
                if cm is not None:
                    return [('ok', st, MATCH(rx, name, args[0])
                             if cm else NONE)]
            t = T('re', name, rx, args[0])
            res = []
            for s, b in self.truth(st, t):
                res.append(('ok', s, MATCH(rx, name, args[0])
                            if b else NONE))
            return res
        if name == 'sub' and len(args) == 2 and not kw:
            return [('ok', st, self.resub(st, rx, args[0], args[1], node))]
        if name in ('findall', 'split') and len(args) == 1 and not kw \
                and isinstance(args[0], Const) \
                and isinstance(args[0].v, str) \
                and isinstance(rx.flags, int):
            import re
            r = getattr(re.compile(rx.pattern, rx.flags), name)(args[0].v)
            return [('ok', st, self.alloc(st, HList([
                TUP([C(y) for y in x]) if isinstance(x, tuple) else C(x)
                for x in r])))]
        return [('ok', st, T('rem', name, rx, *[self.freeze(st, a)
                                                for a in args]))]

    def match_method(self, st, m, name, args):
        if name in ('group', '__getitem__'):
            if not args:
                args = [C(0)]
            if len(args) == 1:
                return self.group(st, m, args[0])
            outs = [('ok', st, ())]
            for a in args:
                outs = self.lift(outs, lambda s, vs, a=a: [
                    (k, s2, vs + (v,)) for k, s2, v in self.group(
                        s, m, a)])
            return [(k, s, TUP(v)) for k, s, v in outs]
        if name == 'groups':
            import re
            try:
                n = re.compile(m.regex.pattern, m.regex.flags).groups
            except re.error:
                return [('ok', st, T('groups', m))]
            return self.match_method(st, m, 'group',
                                     [C(i + 1) for i in range(n)]) \
                if n > 1 else self.lift(
                    self.group(st, m, C(1)),
                    lambda s, v: [('ok', s, TUP([v]))])
        if name in ('start', 'end', 'span') and all(
                isinstance(a, Const) for a in args):
            from .regexes import const_match
            cm = const_match(m.regex, m.how, m.subject)
            if cm:
                r = getattr(cm, name)(*[a.v for a in args])
                return [('ok', st, TUP([C(x) for x in r])
                         if name == 'span' else C(r))]
        return [('ok', st, T('m', name, m, *args))]

    def group(self, st, m, i):
        from .regexes import finite_group, const_match
        g = T('group', m.regex, m.how, m.subject, i)
        if isinstance(i, Const):
            cm = const_match(m.regex, m.how, m.subject)
            if cm:
                try:
                    return [('ok', st, C(cm.group(i.v)))]
                except (IndexError, TypeError):
                    pass
            alts = finite_group(m.regex, i.v)
            if alts is not None:
                if g in st.subst:
                    return [('ok', st, st.subst[g])]
                res = []
                for a in alts:
                    s = st.fork()
                    s.subst[g] = C(a)
                    res.append(('ok', s, C(a)))
                return res
        return [('ok', st, st.resolve(g))]

    # ---- builtins and library -------------------------------------
    def call_ext(self, st, name, args, kw, node):
        from . import library
        args = [st.resolve(a) for a in args]
        r = library.call(self, st, name, args, kw, node)
        if r is not None:
            return r
        return self.opaque_call(st, EXT(name), '__call__', args, kw, node,
                                'ext')

    # ---- comprehensions -------------------------------------------
    def comp(self, node, elts, st):
        """Outcomes with a tuple of element tuples."""
        def rec(gens, s):
            if not gens:
                return self.lift(self.ev_many(elts, s), lambda s2, vs: [
                    ('ok', s2, (vs,))])
            g, rest = gens[0], gens[1:]

            def run(s0, itv):
                res = []
                for s1, el in self.iterate(s0, itv, node):
                    outs = [('ok', s1, ())]
                    for e in el:
                        def one(s2, acc, e=e):
                            r = []
                            for k, s3, v in self.assign(g.target, e, s2):
                                if k != 'next':
                                    r.append((k, s3, v))
                                    continue
                                cur = [('ok', s3, True)]
                                for c in g.ifs:
                                    nxt = []
                                    for k4, s4, b in cur:
                                        if k4 == 'ok' and b:
                                            nxt.extend(self.cond(c, s4))
                                        else:
                                            nxt.append((k4, s4, b))
                                    cur = nxt
                                for k4, s4, b in cur:
                                    if k4 != 'ok':
                                        r.append((k4, s4, b))
                                    elif not b:
                                        r.append(('ok', s4, acc))
                                    else:
                                        r.extend(
                                            (k5, s5, acc + v5
                                             if k5 == 'ok' else v5)
                                            for k5, s5, v5 in rec(rest, s4))
                            return r
                        outs = self.lift(outs, one)
                    res.extend(outs)
                return res
            return self.lift(self.ev(g.iter, s), run)
        # comprehension targets do not leak
        names = [n.id for g in node.generators for n in ast.walk(g.target)
                 if isinstance(n, ast.Name)]
        fr = self.frame(st)
        if fr[' fi'] is None and not fr.get(' class'):
            fid = self.new_frame(st, None, fr[' mod'], None)
            st.frames[fid][' class'] = '<comp>'
            st.stack = st.stack + (fid,)
            outs = rec(node.generators, st)
            for k, s, v in outs:
                s.stack = s.stack[:-1]
            return outs
        saved = {n: fr[n] for n in names if n in fr}
        outs = rec(node.generators, st)
        for k, s, v in outs:
            f2 = s.frames.get(s.stack[-1]) if s.stack else None
            if f2 is not None:
                for n in names:
                    f2.pop(n, None)
                f2.update(saved)
        return outs

    def e_ListComp(self, node, st):
        return self.lift(self.comp(node, [node.elt], st), lambda s, v: [
            ('ok', s, self.alloc(s, HList([x[0] for x in v])))])

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, node, st):
        return self.lift(self.comp(node, [node.elt], st), lambda s, v: [
            ('ok', s, self.alloc(s, HSet([x[0] for x in v])))])

    def e_DictComp(self, node, st):
        return self.lift(
            self.comp(node, [node.key, node.value], st), lambda s, v: [
                ('ok', s, self.alloc(s, HDict(dict(v).items())))])


def _const_items(b):
    """Constant elements of a container value, or None."""
    items = None
    if isinstance(b, Tup):
        items = b.items
    elif isinstance(b, Term) and b.op == 'setof':
        items = b.args[0].items
    elif isinstance(b, Term) and b.op == 'dictof' and b.args[0] is NONE:
        items = [p.items[0] for p in b.args[1].items]
    if items is None or not all(isinstance(x, Const) for x in items):
        return None
    return items


def _as_load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n
