"""Abstract values of the provenance domain.

Every value is interned, so equality is identity and values are cheap to use
as dictionary keys (global value numbering).  Nothing here ever holds an
object of the analysed program: constants come from literals in the source,
everything else is an opaque term that records where the value came from.
"""

_table = {}


def _intern(key, make):
    v = _table.get(key)
    if v is None:
        v = _table[key] = make()
    return v


class V:
    __slots__ = ()


class Const(V):
    __slots__ = ('v',)

    def __repr__(self):
        return repr(self.v)


def C(v):
    def make():
        o = Const()
        o.v = v
        return o
    return _intern(('C', type(v), v), make)


class Term(V):
    __slots__ = ('op', 'args')

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


def T(op, *args):
    def make():
        o = Term()
        o.op = op
        o.args = args
        return o
    return _intern(('T', op, args), make)


class Tup(V):
    __slots__ = ('items',)

    def __repr__(self):
        return 'Tup' + repr(self.items)


def TUP(items):
    items = tuple(items)

    def make():
        o = Tup()
        o.items = items
        return o
    return _intern(('U', items), make)


class Str(V):
    """Concatenation of constant pieces and opaque string values."""
    __slots__ = ('parts',)

    def __repr__(self):
        return 'Str' + repr(self.parts)


def S(parts):
    out = []
    for p in parts:
        if isinstance(p, Const):
            if isinstance(p.v, str):
                p = p.v
            else:
                p = str(p.v)
        elif isinstance(p, Term) and p.op == 'msg':
            p = p.args[0].v if isinstance(p.args[0], Const) else p.args[0]
        if isinstance(p, Str):
            sub = p.parts
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return C('')
    if len(out) == 1 and isinstance(out[0], str):
        return C(out[0])
    if len(out) == 1 and is_stringy(out[0]):
        return out[0]
    parts = tuple(out)

    def make():
        o = Str()
        o.parts = parts
        return o
    return _intern(('S', parts), make)


STRINGY_OPS = frozenset([
    'replace', 'html_escape', 'join', 'repr', 'lower', 'upper', 'strip',
    'resub', 'strrepeat', 'out', 'strtranslate', 'charmap', 'str'])


def is_stringy(v):
    if isinstance(v, Str):
        return True
    if isinstance(v, Const):
        return isinstance(v.v, str)
    return isinstance(v, Term) and v.op in STRINGY_OPS


class Ref(V):
    __slots__ = ('oid',)

    def __repr__(self):
        return '#%d' % self.oid


def R(oid):
    def make():
        o = Ref()
        o.oid = oid
        return o
    return _intern(('R', oid), make)


class Func(V):
    __slots__ = ('fi', 'frame', 'defaults', 'kwdefaults')

    def __repr__(self):
        return '<fn %s>' % self.fi.qual


def FUNC(fi, frame, defaults, kwdefaults):
    def make():
        o = Func()
        o.fi, o.frame, o.defaults, o.kwdefaults = \
            fi, frame, defaults, kwdefaults
        return o
    return _intern(('F', fi, frame, defaults, kwdefaults), make)


class Bound(V):
    __slots__ = ('recv', 'fn')

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.recv)


def BOUND(recv, fn):
    def make():
        o = Bound()
        o.recv, o.fn = recv, fn
        return o
    return _intern(('B', recv, fn), make)


class BoundExt(V):
    """Method of a builtin container, of a constant or of an opaque value."""
    __slots__ = ('recv', 'name')

    def __repr__(self):
        return '%r.%s' % (self.recv, self.name)


def BEXT(recv, name):
    def make():
        o = BoundExt()
        o.recv, o.name = recv, name
        return o
    return _intern(('X', recv, name), make)


class Ext(V):
    """Something outside the repository, by dotted name."""
    __slots__ = ('name',)

    def __repr__(self):
        return '<ext %s>' % self.name


def EXT(name):
    def make():
        o = Ext()
        o.name = name
        return o
    return _intern(('E', name), make)


class Mod(V):
    __slots__ = ('name',)

    def __repr__(self):
        return '<mod %s>' % self.name


def MOD(name):
    def make():
        o = Mod()
        o.name = name
        return o
    return _intern(('M', name), make)


class Prop(V):
    __slots__ = ('fget', 'fset')


def PROP(fget, fset=None):
    def make():
        o = Prop()
        o.fget, o.fset = fget, fset
        return o
    return _intern(('P', fget, fset), make)


class Wrapped(V):
    """staticmethod / classmethod / contextmanager / partial."""
    __slots__ = ('kind', 'fn', 'args', 'kw')

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.fn)


def WRAP(kind, fn, args=(), kw=()):
    def make():
        o = Wrapped()
        o.kind, o.fn, o.args, o.kw = kind, fn, args, kw
        return o
    return _intern(('W', kind, fn, args, kw), make)


class Regex(V):
    __slots__ = ('pattern', 'flags')

    def __repr__(self):
        return '<re %r %d>' % (self.pattern, self.flags)


def REGEX(pattern, flags=0):
    def make():
        o = Regex()
        o.pattern, o.flags = pattern, flags
        return o
    return _intern(('G', pattern, flags), make)


class Match(V):
    __slots__ = ('regex', 'how', 'subject')

    def __repr__(self):
        return '<match %r %r>' % (self.regex, self.subject)


def MATCH(regex, how, subject):
    def make():
        o = Match()
        o.regex, o.how, o.subject = regex, how, subject
        return o
    return _intern(('H', regex, how, subject), make)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def walk(v, seen=None):
    """All values reachable inside v without going through the heap."""
    stack = [v]
    seen = set() if seen is None else seen
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, list)):
            stack.extend(x)
            continue
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        yield x
        if isinstance(x, Term):
            stack.extend(x.args)
        elif isinstance(x, Tup):
            stack.extend(x.items)
        elif isinstance(x, Str):
            stack.extend(x.parts)
        elif isinstance(x, (Bound,)):
            stack.append(x.recv)
            stack.append(x.fn)
        elif isinstance(x, BoundExt):
            stack.append(x.recv)
        elif isinstance(x, Match):
            stack.append(x.subject)
        elif isinstance(x, Wrapped):
            stack.append(x.fn)
            stack.extend(x.args)


# ---------------------------------------------------------------- heap

class HList:
    kind = 'list'
    __slots__ = ('base', 'pop', 'items')

    def __init__(self, items=(), base=None, pop=0):
        self.items = tuple(items)
        self.base = base
        self.pop = pop

    def __repr__(self):
        b = '' if self.base is None else '%r-%d|' % (self.base, self.pop)
        return '[%s%s]' % (b, ', '.join(map(repr, self.items)))

    def same(self, other):
        return (type(other) is HList and self.items == other.items
                and self.base is other.base and self.pop == other.pop)


class HDict:
    kind = 'dict'
    __slots__ = ('base', 'entries', 'gone')

    def __init__(self, entries=(), base=None, gone=()):
        self.entries = tuple(entries)
        self.base = base
        self.gone = tuple(gone)

    def __repr__(self):
        return '{%s%s}' % ('' if self.base is None else '**%r ' % self.base,
                           ', '.join('%r: %r' % e for e in self.entries))


class HSet:
    kind = 'set'
    __slots__ = ('items', 'base')

    def __init__(self, items=(), base=None):
        self.items = tuple(items)
        self.base = base

    def __repr__(self):
        return 'set(%r)' % (self.items,)


class HInst:
    kind = 'inst'
    __slots__ = ('cls', 'fields', 'data', 'lazy')

    def __init__(self, cls, fields=None, data=None, lazy=None):
        self.cls = cls
        self.fields = fields or {}
        self.data = data
        self.lazy = lazy

    def with_field(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return HInst(self.cls, f, self.data, self.lazy)

    def with_data(self, d):
        return HInst(self.cls, self.fields, d, self.lazy)

    def __repr__(self):
        return '<inst %r %r%s>' % (
            self.cls, self.fields,
            '' if self.data is None else ' ' + repr(self.data))


class HClass:
    kind = 'class'
    __slots__ = ('name', 'bases', 'attrs', 'module', 'qual')

    def __init__(self, name, bases, attrs, module, qual):
        self.name, self.bases, self.attrs = name, bases, attrs
        self.module, self.qual = module, qual

    def with_attr(self, k, v):
        a = dict(self.attrs)
        a[k] = v
        return HClass(self.name, self.bases, a, self.module, self.qual)

    def __repr__(self):
        return '<class %s>' % self.qual


class HMod:
    kind = 'mod'
    __slots__ = ('names',)

    def __init__(self, names):
        self.names = names


class Event:
    __slots__ = ('kind', 'recv', 'name', 'args', 'kw', 'result', 'loc', 'n',
                 'snap')

    def __init__(self, kind, recv, name, args, kw, result, loc, n, snap=None):
        self.kind, self.recv, self.name = kind, recv, name
        self.args, self.kw, self.result = args, kw, result
        self.loc, self.n, self.snap = loc, n, snap

    def __repr__(self):
        return '%s %r.%s(%s) @%s' % (
            self.kind, self.recv, self.name,
            ', '.join([repr(a) for a in self.args]
                      + ['%s=%r' % k for k in self.kw]), self.loc)
