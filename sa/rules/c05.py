"""Directives on one element take effect in the TAL order."""
import re

from .common import *
from . import structure as st

CORE = ['define', 'condition', 'repeat', 'content', 'replace', 'attributes',
        'on-error', 'omit-tag', 'script', 'translate=', 'name']


def check(rep, prog, tier):
    rep.rule('nesting', 'every accepted combination of directives compiles '
             'to instructions nested in the documented order, each with the '
             'operands of its own directive', 500)
    rep.rule('written-order', 'the order in which the directives are written '
             'makes no difference', 50)
    rep.assume('directive values are opaque; lists in them have one '
               'statement')
    thorough = tier == 'thorough'
    st.compare(rep, prog, 'nesting', list(st.OPTIONS), size=2)
    st.compare(rep, prog, 'nesting', list(st.OPTIONS), size=2, xmls=(0,),
               isends=(1,), contexts=('', 'unit'))
    st.compare(rep, prog, 'nesting', CORE if not thorough else
               list(st.OPTIONS), size=3, xmls=(0, 1) if thorough else (0,),
               contexts=('unit',))
    st.compare(rep, prog, 'nesting', CORE + ['define-slot', 'fill-slot',
                                             'domain', 'define-macro'],
               size=2, need=('define-slot', 'fill-slot', 'define-macro'),
               contexts=('def', 'use', 'fill'), xmls=(0,), isends=(0, 1))
    st.compare(rep, prog, 'nesting', CORE + ['define-slot', 'fill-slot',
                                             'define-macro', 'use-macro'],
               size=3, need=('define-slot', 'fill-slot', 'define-macro',
                             'use-macro'),
               contexts=('def', 'use'), xmls=(0,))
    st.compare(rep, prog, 'written-order', CORE, size=2 if not thorough
               else 3, xmls=(0,), contexts=('unit',),
               order=lambda c: tuple(reversed(c)))
    if thorough:
        st.compare(rep, prog, 'nesting', CORE, size=4, xmls=(0,),
                   contexts=('unit',))
    rep.rule('effect', 'the renderer evaluates the expression of an '
             'instruction before it renders the blocks of that instruction, '
             'and those in the order of the element', 16)
    for mode in ('html', 'xml'):
        effect(rep, interp(prog, raises=False), mode)


# evaluations and blocks of one instruction, in order
EFFECT = {
    'setLocal': 'evaluateValue setLocal',
    'setGlobal': 'evaluateValue setGlobal',
    'beginScope': 'beginScope setLocal',
    'rawtextBeginScope': '(endScope )?beginScope setLocal',
    'condition': 'evaluateBoolean( program)?',
    'loop': 'setRepeat( __next__( program)?)*',
    'optTag': '(evaluateBoolean )?start( program)?',
    'insertText': 'evaluateText( program)?',
    'insertI18nText': 'evaluateText( program)?',
    'insertStructure': 'evaluateStructure( program| inserted)?',
    'insertI18nStructure': 'evaluateStructure( program| inserted)?',
    'i18nVariable': 'program',
    'defineMacro': 'program', 'fillSlot': 'program',
    'onError': 'program( handler)?',
}
CALLS = EVALUATES + ('setLocal', 'setGlobal', 'beginScope', 'endScope',
                     '__next__')


def effect(rep, ip, mode):
    state = ip.moded(mode)
    for op, pattern in EFFECT.items():
        for variant, spec in operands(op):
            if (op, variant) == ('i18nVariable', 'expr'):
                continue
            for p in ip.run(op, variant, spec, state):
                rep.count('paths')
                if p.kind != 'ok':
                    continue
                rep.seen('effect', name(op, variant))
                got = ' '.join(steps(p, op))
                if not re.fullmatch(pattern, got):
                    rep.violation('effect', name(op, variant), where(p),
                                  '%s: takes effect as %s' % (mode, got),
                                  trace(p))
    rep.use(ip.eng)


def steps(p, op):
    for e in p.st.events():
        if e.kind == 'interp':
            a = p.st.resolve(e.args[0])
            yield a.args[1].v if isinstance(a, Term) and a.op == 'block' \
                and isinstance(a.args[1], Const) else (
                    a.args[1] if isinstance(a, Term) and a.op == 'block'
                    else 'inserted')
        elif e.kind == 'call' and e.name in CALLS and (
                e.recv is ENGINE or e.name == '__next__'):
            yield e.name
