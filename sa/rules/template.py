"""Whole templates: a parser together with the code generator.

A page is a list of
  ('<', tag, attrs)     start tag
  ('/>', tag, attrs)    empty element tag
  ('</', tag)           end tag
  text
The library parser is modelled as the sequence of the corresponding
callbacks; item n of the page is at position(n).
"""
from .common import *
from .markup import *
from .elements import Element
from ..gen import Gen
from ..parse import FEEDS
from ..values import BOUND, S

NSATTRS = [('xmlns:tal', TAL_NS), ('xmlns:metal', METAL_NS),
           ('xmlns:i18n', I18N_NS)]
ENV = {None: None, 'tal': TAL_NS, 'metal': METAL_NS, 'i18n': I18N_NS}


class Template(Markup):
    def __init__(self, prog, xml=False, **kw):
        self.prog, self.xml, self.n = prog, xml, 0
        self.handlers, self.config = {}, {}
        self.pending, self.pos = None, NONE
        kw.setdefault('max_states', 100000)
        self.gen = g = Gen(prog, xml=xml, **kw)
        self.eng = g.eng
        self.eng.hooks.append(self)
        self.cls = prog.cls(*(('talparser', 'TALParser') if xml
                              else ('htmltalparser', 'HTMLTALParser')))
        outs = self.eng.instantiate(g.state.fork(), self.cls, [g.ref], {},
                                    self.node())
        outs = [o for o in outs if o[0] == 'ok']
        if not outs:
            raise Broken('the parser cannot be constructed')
        _, self.state, self.ref = outs[0]
        self.init_events = self.state.events()
        self.state.trace, self.state.n = None, 0
        self.ps = self
        if xml:
            self.read_expat()

    # ---- engine hooks
    def is_object(self, v):
        return False

    def on_getattr(self, eng, st, o, name, node):
        if (name.endswith('LineNumber') or name.endswith('ColumnNumber')) \
                and isinstance(o, Term) and 'ParserCreate' in repr(o):
            return [('ok', st, self.pos.items[
                0 if name.endswith('LineNumber') else 1])]
        return None

    def on_event(self, eng, st, ev, node):
        if ev.name == 'getpos' and ev.recv is self.ref:
            return [('ok', st, self.pos)]
        if ev.name in FEEDS and self.pending is not None:
            outs = [('ok', st, NONE)]
            for s in self.pending:
                outs = self.then(outs, s)
            return [(k, s, NONE if k == 'ok' else v) for k, s, v in outs]
        return None

    # ---- driving
    def call(self, st, name, args=(), kw=None):
        fn = self.prog.need_method(self.cls, name)
        return self.eng.call(st, BOUND(self.ref, fn), list(args),
                             dict(kw or {}), fn.fi.node)

    def items(self, page):
        out = []
        self.n = 0
        root = True
        for it in page:
            if isinstance(it, str):
                out.append(self.event('DefaultHandler', it) if self.xml
                           else self.html('handle_data', it))
                continue
            op, tag = it[:2]
            if op == '</':
                out.append(self.end(tag, ENV))
                continue
            attrs = list(it[2]) if len(it) > 2 else []
            if self.xml and root:
                attrs = NSATTRS + attrs
            root = False
            if op == '<':
                out.append(self.start(tag, attrs, ENV))
            elif not self.xml:
                out.append(self.startend(tag, attrs))
            else:
                out.append(self.both(tag, attrs))
        return out

    def both(self, tag, attrs):
        a, b = self.start(tag, attrs, ENV), self.end(tag, ENV)
        self.n -= 1

        def f(s):
            self.pos = position(a.n)
            outs = self.xml_start(s, tag, attrs, ENV)
            return self.then(outs, lambda s2: self.expat(
                s2, 'EndElementHandler', [C(self.expanded(tag, ENV))]))
        f.n = a.n
        return f

    def compile(self, page, state=None, nonempty=()):
        """Outcomes of parsing the page and getting the code."""
        st = (state or self.state).fork()
        for v in nonempty:
            st.facts[v] = True
        self.pending = self.items(page)
        try:
            outs = self.call(st, 'parseString', [S([T('text'), C('.')])])
            outs = self.then(outs, lambda s: self.call(s, 'getCode'))
        finally:
            self.pending = None
        return [Outline(self, k, s, v) for k, s, v in outs]

    def loc(self, name='parseString'):
        fn = self.prog.need_method(self.cls, name)
        return fn.fi.file, fn.fi.node.lineno, fn.fi.qual


class Outline(Element):
    """Outcome of compiling a template."""

    def mro(self):
        v = self.val
        if isinstance(v, Ref) and v.oid in self.st.heap:
            h = self.st.heap[v.oid]
            if h.kind == 'inst':
                return [self.st.heap[c.oid].name for c in
                        self.els.prog.mro(h.cls, self.st.heap)
                        if isinstance(c, Ref)]
        return []

    def at(self):
        """(line, column) the error carries."""
        line, col = self.exc_field('lineno'), self.exc_field('offset')
        return tuple(x.v if isinstance(x, Const) else x
                     for x in (line, col))


def where_is(n):
    p = position(n)
    return tuple(x.v for x in p.items)


def show(page):
    out = []
    for it in page:
        if isinstance(it, str):
            out.append(it)
        elif it[0] == '</':
            out.append('</%s>' % it[1])
        else:
            out.append('<%s%s%s' % (it[1], ''.join(
                ' %s' % k if v is None else ' %s="%s"' % (
                    k, v if isinstance(v, str) else '*')
                for k, v in (it[2] if len(it) > 2 else ())),
                '>' if it[0] == '<' else '/>'))
    return ''.join(out)
