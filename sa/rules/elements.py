"""Driving the code generator through whole elements."""
from .common import *
from ..gen import Gen, freeze, cexpr
from ..values import HList, HDict

POS = TUP([C(101), C(7)])
END = TUP([C(203), C(9)])
NS = ('tal', 'metal', 'i18n')


def dirv(ns, key):
    return T('dir', ns, key)


class Element:
    """One outcome of compiling an element."""

    def __init__(self, els, kind, st, val):
        self.els, self.kind, self.st, self.val = els, kind, st, val
        self._code = None

    @property
    def code(self):
        """(program, macros) as Python trees."""
        if self._code is None:
            self._code = freeze(self.els.gen.eng, self.st, self.val)
        return self._code

    @property
    def program(self):
        return self.code[0]

    @property
    def macros(self):
        return self.code[1]

    def fact(self, t):
        return self.els.gen.eng.decide(self.st, t)

    def ops(self, prog=None):
        return list(flat(self.program if prog is None else prog))

    def compiled_from(self, o, v):
        return any(isinstance(x, Term) and x.op == 'cexpr' and any(
            y is v for y in walk(x)) for x in walk(astup(o[1])))

    def keyword(self, v):
        """Literals that parts of directive value v are known to equal."""
        out = set()
        for t, c in self.st.subst.items():
            if isinstance(c, Const) and isinstance(c.v, str) and any(
                    x is v for x in walk(t)):
                out.add(c.v)
        for t, val in self.st.facts.items():
            if not val or not isinstance(t, Term) or not any(
                    x is v for x in walk(t)):
                continue
            for x in walk(t):
                if isinstance(x, Const) and isinstance(x.v, str):
                    if t.op == 'eq' or (t.op == 'm'
                                        and t.args[0] == 'startswith'):
                        out.add(x.v.strip())
        return out

    def facts(self):
        out = []
        for t, v in self.st.facts.items():
            if isinstance(t, Term) and t.op in ('dir', 'compiler'):
                continue
            out.append('assume %s is %s' % (short(t), v))
        for t, v in self.st.subst.items():
            out.append('assume %s is %r' % (short(t), v))
        return out

    def exc_class(self):
        v = self.val
        if isinstance(v, Ref) and v.oid in self.st.heap:
            h = self.st.heap[v.oid]
            if h.kind == 'inst':
                return self.st.heap[h.cls.oid].name
        if isinstance(v, Term) and v.op == 'exc':
            return v.args[0]
        return None

    def is_tal_error(self):
        v = self.val
        if not (isinstance(v, Ref) and v.oid in self.st.heap):
            return False
        h = self.st.heap[v.oid]
        if h.kind != 'inst':
            return False
        names = [self.st.heap[c.oid].name for c in self.els.prog.mro(
            h.cls, self.st.heap) if isinstance(c, Ref)]
        return 'TALError' in names

    def exc_field(self, name):
        v = self.val
        if isinstance(v, Ref) and v.oid in self.st.heap \
                and self.st.heap[v.oid].kind == 'inst':
            r = self.st.heap[v.oid].fields.get(name)
            return None if r is None else self.st.resolve(r)
        return None

    def exc_text(self):
        v = self.exc_field('msg')
        return short(v) if v is not None else short(self.val)

    def loc(self):
        fn = self.els.gen.method('emitStartElement')
        return (fn.fi.file, fn.fi.node.lineno, fn.fi.qual)


def astup(x):
    """A Python tree as an abstract value tree usable with walk()."""
    if isinstance(x, (tuple, list)):
        return TUP([astup(y) for y in x])
    if isinstance(x, dict):
        return TUP([TUP([astup(k), astup(v)]) for k, v in x.items()])
    if isinstance(x, V):
        return x
    return C(x)


def is_program(x):
    return isinstance(x, list) and all(
        isinstance(i, tuple) and i and isinstance(i[0], str)
        for i in x)


def flat(prog):
    """All instructions of a program, nested ones included."""
    for ins in prog:
        if not isinstance(ins, tuple) or not ins:
            continue
        op, arg = ins[0], ins[1] if len(ins) > 1 else None
        yield op, arg
        for sub in nested_blocks(op, arg):
            yield from flat(sub)


def nested_blocks(op, arg):
    if op in ('startTag', 'startEndTag'):
        return
    if isinstance(arg, tuple):
        for x in arg:
            if isinstance(x, list) and is_program(x):
                yield x
            elif isinstance(x, dict) and op in ('useMacro', 'extendMacro'):
                for y in x.values():
                    if isinstance(y, list) and is_program(y):
                        yield y


class Elements:
    def __init__(self, prog, xml=False, source=True, **kw):
        self.prog, self.xml = prog, xml
        kw.setdefault('max_states', 100000)
        self.gen = Gen(prog, xml=xml, source=source, **kw)

    def dirs(self, st, ns, keys, values):
        d = {}
        for k in keys:
            v = values.get((ns, k), values.get(k))
            if v is None:
                v = dirv(ns, k)
                st.facts[v] = True
            d[k] = v
        return d

    def start(self, tal=(), metal=(), i18n=(), values=None, name='p',
              attrs=None, pos=POS, isend=0):
        values = values or {}
        g = self.gen

        def f(s):
            ds = {ns: self.dirs(s, ns, ks, values)
                  for ns, ks in zip(NS, (tal, metal, i18n))}
            al = list(attrs if attrs is not None else
                      [TUP([C('class'), C('static')])])
            for ns in NS:
                for k, v in ds[ns].items():
                    if k != 'tal tag':
                        al.append(TUP([C(ns + ':' + k), v, C(ns)]))
            args = [C(name), g.eng.alloc(s, HList(al))] + [
                g.dict(s, ds[ns]) for ns in NS] + [pos]
            return g.call(s, 'emitStartElement', args,
                          {'isend': C(isend)} if isend else {})
        return f

    def text(self, t='@body@'):
        return lambda s: self.gen.call(s, 'emitRawText', [C(t)])

    def end(self, name='p', pos=END, **kw):
        def f(s):
            k = {'position': pos}
            k.update({a: C(b) for a, b in kw.items()})
            return self.gen.call(s, 'emitEndElement', [C(name)], k)
        return f

    def code(self, s):
        return self.gen.call(s, 'getCode')

    def steps(self, *steps, state=None):
        st = (state or self.gen.state).fork()
        return [Element(self, k, s, v)
                for k, s, v in self.gen.seq(st, *steps)]

    def run(self, tal=(), metal=(), i18n=(), values=None, empty=(),
            outer=(), isend=0, before=None, after=None, attrs=None,
            body='@body@'):
        """Outcomes of compiling one element, inside the given outer ones."""
        values = dict(values or {})
        for k in empty:
            values[k] = C('')
        steps = []
        for i, (t, m, x) in enumerate(outer):
            steps.append(self.start(
                t, m, x, {k: C('') for k in ('translate',)}
                if 'translate' in x else None, name='o%d' % i,
                attrs=[], pos=TUP([C(11 + i), C(i)])))
        if before is not None:
            steps.append(self.text(before))
        steps.append(self.start(tal, metal, i18n, values, isend=isend,
                                attrs=attrs))
        if not isend:
            if body is not None:
                steps.append(self.text(body))
            steps.append(self.end())
        if after is not None:
            steps.append(self.text(after))
        for i in reversed(range(len(outer))):
            steps.append(self.end(name='o%d' % i,
                                  pos=TUP([C(311 + i), C(i)])))
        steps.append(self.code)
        return self.steps(*steps)


# ------------------------------------------------------- normal form

def normal(prog, keep_pos=True):
    """Program tree without the effects of optimisation: consecutive static
    text joined, the combined instructions taken apart."""
    out = []

    def text(s):
        if not s and isinstance(s, str):
            return
        if out and out[-1][0] == 'text':
            out[-1] = ('text', out[-1][1] + pieces_of(s))
        else:
            out.append(('text', pieces_of(s)))
    for ins in prog:
        op, arg = ins[0], ins[1] if len(ins) > 1 else None
        if op in ('rawtextOffset', 'rawtextColumn'):
            text(arg[0])
        elif op == 'rawtext':
            text(arg)
        elif op == 'rawtextBeginScope':
            s, col, pos, closeprev, d = arg
            if closeprev:
                out.append(('endScope', ()))
            text(s)
            if keep_pos:
                out.append(('setPosition', pos))
            out.append(('beginScope', d))
        elif op == 'setPosition' and not keep_pos:
            pass
        elif op in ('startTag', 'startEndTag'):
            out.append((op, arg))
        elif isinstance(arg, tuple):
            out.append((op, tuple(
                normal(x, keep_pos) if isinstance(x, list) and is_program(x)
                else {k: normal(y, keep_pos) for k, y in x.items()}
                if isinstance(x, dict) and op in ('useMacro', 'extendMacro')
                else x for x in arg)))
        else:
            out.append((op, arg))
    return [(o, ''.join(a) if o == 'text' and all(
        isinstance(y, str) for y in a) else a) for o, a in out]


def pieces_of(s):
    if isinstance(s, str):
        return (s,)
    return tuple(pieces(s))
