"""Driving the template parsers through sequences of library callbacks."""
import ast

from .common import *
from ..parse import Parse, Outcome, GEN
from ..values import HList, HDict

TAL_NS = 'http://xml.zope.org/namespaces/tal'
METAL_NS = 'http://xml.zope.org/namespaces/metal'
I18N_NS = 'http://xml.zope.org/namespaces/i18n'
XML_URI = 'http://www.w3.org/XML/1998/namespace'
URIS = {TAL_NS: 'tal', METAL_NS: 'metal', I18N_NS: 'i18n'}


def position(n):
    # column 0, the start of a line, is a position like any other
    return TUP([C(1000 + n), C(0 if n % 2 else 10 + n)])


def wrap(v):
    return v if isinstance(v, V) else C(v)


class Markup:
    """One of the two parsers; steps are made by start(), end(), ..."""

    def __init__(self, prog, xml=False, white=None, **kw):
        self.prog, self.xml = prog, xml
        self.ps = Parse(prog, xml, **kw)
        self.ps.white = white
        self.eng = self.ps.eng
        self.n = 0
        gcls = prog.cls('talgenerator', 'TALGenerator')
        self.sigs = {}
        for m in ('emitStartElement', 'emitEndElement', 'emitRawText'):
            fn = prog.need_method(gcls, m)
            a = fn.fi.node.args
            names = [x.arg for x in a.posonlyargs + a.args][1:]
            self.sigs[m] = names, self.defaults(a)
        self.handlers = {}
        self.config = {}
        if xml:
            self.read_expat()

    @staticmethod
    def defaults(a):
        out = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        for nm, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            try:
                out[nm] = ast.literal_eval(d)
            except ValueError:
                pass
        return out

    def read_expat(self):
        """How the library parser has been configured."""
        sep = None
        made = None
        for e in self.ps.init_events:
            if e.kind == 'ext' and 'ParserCreate' in repr(e.recv) \
                    + e.name:
                made = e
                kw = dict(e.kw)
                s = e.args[1] if len(e.args) > 1 else kw.get(
                    'namespace_separator')
                if isinstance(s, Const) and s.v is not None:
                    sep = s.v
            elif e.kind == 'setattr' and made is not None:
                v = e.args[0]
                if e.name.endswith('Handler') or e.name.endswith('Expand'):
                    self.handlers[e.name] = v
                else:
                    self.config[e.name] = v.v if isinstance(v, Const) else v
        if made is None:
            raise Broken('no expat parser is created')
        self.sep = sep

    # ------------------------------------------------------------ steps
    def step(self, f):
        n = self.n
        self.n += 1

        def g(s):
            self.ps.pos = position(n)
            return f(s)
        g.n = n
        return g

    def html_attrs(self, s, attrs):
        return self.eng.alloc(s, HList([TUP([C(k), wrap(v)])
                                        for k, v in attrs]))

    def start(self, tag, attrs=(), env=None):
        if not self.xml:
            return self.step(lambda s: self.ps.call(
                s, 'handle_starttag', [C(tag), self.html_attrs(s, attrs)]))
        return self.step(lambda s: self.xml_start(s, tag, attrs, env))

    def startend(self, tag, attrs=(), env=None):
        return self.step(lambda s: self.ps.call(
            s, 'handle_startendtag', [C(tag), self.html_attrs(s, attrs)]))

    def end(self, tag, env=None, decls=()):
        if not self.xml:
            return self.step(lambda s: self.ps.call(s, 'handle_endtag',
                                                    [C(tag)]))

        def f(s):
            outs = self.expat(s, 'EndElementHandler', [
                C(self.expanded(tag, env))])
            for p in reversed([p for p, u in decls]):
                outs = self.then(outs, lambda s2, p=p: self.expat(
                    s2, 'EndNamespaceDeclHandler', [C(p)]))
            return outs
        return self.step(f)

    def html(self, method, *args):
        return self.step(lambda s: self.ps.call(s, method,
                                                [wrap(a) for a in args]))

    def event(self, handler, *args):
        """An expat event that has no own handler goes to the default
        handler, as its source text."""
        return self.step(lambda s: self.expat(s, handler, [
            wrap(a) for a in args]))

    @staticmethod
    def then(outs, f):
        res = []
        for k, s, v in outs:
            if k == 'ok':
                res.extend(f(s))
            else:
                res.append((k, s, v))
        return res

    def expat(self, s, handler, args):
        h = self.handlers.get(handler)
        if h is None or h is NONE:
            return [('ok', s, NONE)]
        return self.eng.call(s, h, args, {}, self.node())

    @staticmethod
    def node():
        return ast.parse('f()').body[0].value

    def expanded(self, name, env, attr=False):
        """The name as expat reports it."""
        if self.sep is None:
            return name
        if ':' in name:
            prefix, local = name.split(':', 1)
            uri = XML_URI if prefix == 'xml' else env[prefix]
            out = uri + self.sep + local
            if self.config.get('namespace_prefixes'):
                out += self.sep + prefix
            return out
        if attr or not env.get(None):
            return name
        return env[None] + self.sep + name

    def xml_start(self, s, tag, attrs, env):
        decls = [((k[6:] or None) if k != 'xmlns' else None, v or None)
                 for k, v in attrs if k == 'xmlns' or k[:6] == 'xmlns:']
        outs = [('ok', s, NONE)]
        if self.sep is None:
            plain = list(attrs)
        else:
            plain = [(k, v) for k, v in attrs
                     if k != 'xmlns' and k[:6] != 'xmlns:']
            for p, u in decls:
                outs = self.then(outs, lambda s2, p=p, u=u: self.expat(
                    s2, 'StartNamespaceDeclHandler', [C(p), C(u)]))

        def f(s2):
            pairs = [(C(self.expanded(k, env, True)), wrap(v))
                     for k, v in plain]
            if self.config.get('ordered_attributes'):
                arg = self.eng.alloc(s2, HList(
                    [x for pr in pairs for x in pr]))
            else:
                arg = self.eng.alloc(s2, HDict(pairs))
            return self.expat(s2, 'StartElementHandler', [
                C(self.expanded(tag, env)), arg])
        return self.then(outs, f)

    # ------------------------------------------------------------ results
    def run(self, steps, **kw):
        return self.ps.run(steps, **kw)

    def bound(self, o, e):
        """Arguments of a call of the generator by parameter name, as
        Python values."""
        from ..gen import freeze
        names, defaults = self.sigs[e.name]
        d = dict(defaults)
        for nm, v in zip(names, e.args):
            d[nm] = v
        d.update(dict(e.kw))
        st = getattr(e, 'snap', None) or o.st
        return {k: freeze(self.eng, st, v) if isinstance(v, V) else v
                for k, v in d.items()}
