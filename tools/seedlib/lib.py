"""Helpers of the demonstrations: compile and render with a logging engine."""
import io
import sys

from zope.tal.dummyengine import Default  # noqa: F401
from zope.tal.dummyengine import DummyEngine
from zope.tal.htmltalparser import HTMLTALParser
from zope.tal.talgenerator import TALGenerator
from zope.tal.talinterpreter import TALInterpreter
from zope.tal.talparser import TALParser

NS = ('xmlns:tal="http://xml.zope.org/namespaces/tal" '
      'xmlns:metal="http://xml.zope.org/namespaces/metal" '
      'xmlns:i18n="http://xml.zope.org/namespaces/i18n"')


class Engine(DummyEngine):
    """DummyEngine that logs what it is asked for."""

    def __init__(self, macros=None, **variables):
        DummyEngine.__init__(self, macros)
        self.log = []
        self.globals['default'] = Default
        self.globals['nothing'] = None
        self.globals.update(variables)

    def note(self, *what):
        self.log.append(what)

    def named(self, *names):
        return [x for x in self.log if x[0] in names]

    def beginScope(self):
        self.note('beginScope')
        DummyEngine.beginScope(self)

    def endScope(self):
        self.note('endScope')
        DummyEngine.endScope(self)

    def setLocal(self, name, value):
        self.note('setLocal', name, value)
        DummyEngine.setLocal(self, name, value)

    def setGlobal(self, name, value):
        self.note('setGlobal', name, value)
        DummyEngine.setGlobal(self, name, value)

    def setPosition(self, position):
        self.note('setPosition', position)
        DummyEngine.setPosition(self, position)

    def setSourceFile(self, f):
        self.note('setSourceFile', f)
        DummyEngine.setSourceFile(self, f)

    def evaluate(self, expr):
        self.note('evaluate', expr[1:-1])
        return DummyEngine.evaluate(self, expr)

    def evaluateMacro(self, expr):
        self.note('macro', expr[1:-1])
        if expr[1:-1] in self.macros:
            return self.macros[expr[1:-1]]
        m = self.globals.get(expr[1:-1])
        if m is not None:
            return m
        return DummyEngine.evaluateMacro(self, expr)

    def translate(self, msgid, domain=None, mapping=None, default=None):
        self.note('translate', msgid, domain, dict(mapping or {}), default)
        return '[%s]' % msgid


def code(src, xml=0, file=None, engine=None):
    gen = TALGenerator(engine or DummyEngine(), xml=xml, source_file=file)
    p = TALParser(gen) if xml else HTMLTALParser(gen)
    p.parseString(src)
    return p.getCode()


def render(src, engine=None, xml=0, file=None, **kw):
    """Output for a template source or a (program, macros) pair."""
    if isinstance(src, str):
        src = code(src, xml, file, engine)
    program, macros = src
    if engine is None:
        engine = Engine()
    for k, v in macros.items():
        engine.macros.setdefault(k, v)
    out = io.StringIO()
    kw.setdefault('wrap', 0)
    TALInterpreter(program, macros, engine, out, **kw)()
    return out.getvalue()


def expect(got, want):
    if got != want:
        print('got      %r\nexpected %r' % (got, want))
        sys.exit(1)


def fails(exc, f, *a, **kw):
    try:
        r = f(*a, **kw)
    except exc as e:
        return e
    print('%s was not raised, got %r' % (exc, r))
    sys.exit(1)
