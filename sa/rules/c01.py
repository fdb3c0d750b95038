"""Inserted text and attribute values are escaped exactly once."""
from .common import *
from . import elements
from .c28 import source


def check(rep, prog, tier):
    rep.rule('text-escape', 'every value written by a text insertion is the '
             'final (translated) value with exactly & < > replaced by their '
             'references', 2)
    rep.rule('attr-escape', 'every attribute value written for a computed '
             'attribute is enclosed in double quotes and has exactly '
             '& < > " replaced by their references', 6)
    rep.rule('translate-raw', 'what is handed to the translation service is '
             'not yet escaped', 4)
    rep.rule('raw-only-structure', 'content, replace and on-error compile to '
             'an unescaped insertion exactly when the structure keyword is '
             'given', 6)
    for mode in ('html', 'xml'):
        ip = interp(prog, raises=False)
        st = ip.moded(mode)
        for op in ('insertText', 'insertI18nText'):
            for variant, spec in operands(op):
                for p in ip.run(op, variant, spec, st):
                    text(rep, p, op)
        for op in ('startTag', 'startEndTag'):
            for kind in ('replace', 'insert', 'replace-i18n'):
                for p in ip.run(op, kind, ('attrs', (kind,)), st):
                    attr(rep, p, op, kind)
    # partially written tags when an expression fails
    ip2 = interp(prog)
    for p in ip2.run('startTag', 'replace+replace',
                     ('attrs', ('replace', 'replace')), ip2.moded('xml')):
        if p.kind == 'raise':
            attr(rep, p, 'startTag', 'replace+replace')
    rep.use(ip.eng)
    generator(rep, prog)


def dynamic(v):
    """Does v contain something computed or taken from a template value?"""
    return any(isinstance(x, Term) and x.op in (
        'res', 'attrvalue', 'attrmsgid') for x in walk(v))


def raw_translate(rep, p, inst):
    for e in engine_calls(p, 'translate'):
        rep.seen('translate-raw', inst)
        vals = list(e.args[:1]) + [v for k, v in e.kw if k == 'default']
        for v in vals:
            v = p.st.resolve(v)
            cm = char_map(v) if isinstance(v, V) else None
            if (cm and cm[1]) or any(
                    isinstance(x, Term) and x.op in (
                        'replace', 'html_escape', 'charmap', 'resub')
                    for x in walk(v)):
                rep.violation('translate-raw', inst, e.loc, 'the translation '
                              'service gets %s, which is already escaped' %
                              short(v), trace(p))


def text(rep, p, op):
    if p.kind != 'ok':
        return
    rep.count('paths')
    raw_translate(rep, p, op)
    for x in output(p):
        if is_out(x):
            continue
        if isinstance(x, str):
            rep.violation('text-escape', op, where(p), 'the literal %r is '
                          'added to inserted text' % x, trace(p))
            continue
        rep.seen('text-escape', op)
        cm = char_map(x)
        if cm is None or not isinstance(cm[0], Term) or cm[0].op != 'res':
            rep.violation('text-escape', op, where(p), 'writes %s, which is '
                          'not the escaped value' % short(x), trace(p))
            continue
        bad = escape_faults(cm[1], False, absent(p.st, cm[0]))
        if bad:
            rep.violation('text-escape', op, where(p), 'inserted text: '
                          + '; '.join(bad), trace(p))


def attr(rep, p, op, kind):
    rep.count('paths')
    inst = '%s[%s]' % (op, kind)
    raw_translate(rep, p, inst)
    out = output(p)
    for i, x in enumerate(out):
        if isinstance(x, str) or not dynamic(x):
            continue
        rep.seen('attr-escape', inst)
        cm = char_map(x)
        if cm is None or dynamic_inside(cm[0]):
            rep.violation('attr-escape', inst, where(p), 'writes %s, which '
                          'is not an escaped value' % short(x), trace(p))
            continue
        bad = escape_faults(cm[1], True, absent(p.st, cm[0]))
        if bad:
            rep.violation('attr-escape', inst, where(p), 'attribute value: '
                          + '; '.join(bad), trace(p))
        before = out[i - 1] if i else ''
        after = out[i + 1] if i + 1 < len(out) else ''
        if not (isinstance(before, str) and before.endswith('="')
                and isinstance(after, str) and after.startswith('"')):
            rep.violation('attr-escape', inst, where(p), 'the attribute '
                          'value is written between %s and %s instead of '
                          'in double quotes' % (short(before), short(after)),
                          trace(p))


def dynamic_inside(leaf):
    """A leaf that wraps a value in an operation we do not know."""
    if isinstance(leaf, Term) and leaf.op in ('res', 'attrvalue',
                                              'attrmsgid'):
        return False
    return dynamic(leaf)


def generator(rep, prog):
    sets = [(('content',), ()), (('replace',), ()), (('on-error',), ()),
            (('content',), ('translate',)), (('replace',), ('translate',)),
            (('content', 'omit-tag'), ()), (('content', 'on-error'), ())]
    for xml in (False, True):
        el = elements.Elements(prog, xml)
        for tal, i18n in sets:
            inst = '+'.join(tal + i18n) + ('/xml' if xml else '/html')
            for e in el.run(tal=tal, i18n=i18n, empty=('translate',)):
                if e.kind != 'ok':
                    continue
                rep.count('compilations')
                for d in ('content', 'replace', 'on-error'):
                    if d not in tal:
                        continue
                    v = T('dir', 'tal', d)
                    kw = e.keyword(v)
                    ops = [o for o in e.ops() if o[0].startswith('insert')
                           and o[0] != 'insertTranslation'
                           and e.compiled_from(o, v)]
                    rep.seen('raw-only-structure', inst + ':' + d)
                    want = 'Structure' if 'structure' in kw else 'Text'
                    if len(ops) != 1 or not ops[0][0].endswith(want):
                        rep.violation(
                            'raw-only-structure', 'tal:%s of %s' % (d, inst),
                            e.loc(), 'with keyword %s the directive compiles '
                            'to %s' % (sorted(kw) or 'none',
                                       [o[0] for o in ops]), e.facts())
        keywords(rep, el, xml)
        rep.use(el.gen.eng)


# value -> expression if it is inserted as text
AS_TEXT = {
    'x': 'x', 'text x': 'x', ' text  x': 'x', 'text\n x': 'x',
    'structure/x': 'structure/x', 'structurex y': 'structurex y',
    'structure:x': 'structure:x', 'structure|x y': 'structure|x y',
    'structure-x y': 'structure-x y', 'structure': 'structure',
    'Structure x': 'Structure x', 'STRUCTURE x': 'STRUCTURE x',
    'text structure x': 'structure x', 'text/structure x':
    'text/structure x', 'x structure y': 'x structure y',
    'nostructure x': 'nostructure x', 'x | structure y': 'x | structure y',
    'struct x': 'struct x', 'html x': 'html x',
}
AS_STRUCTURE = {
    'structure x': 'x', ' structure  x y': 'x y', 'structure\n x': 'x',
    'structure text x': 'text x', 'structure structure x': 'structure x',
}


def keywords(rep, els, xml):
    for d in ('content', 'replace', 'on-error'):
        for wanted, values in (('Text', AS_TEXT),
                               ('Structure', AS_STRUCTURE)):
            for value, expr in values.items():
                inst = '%s=%r' % (d, value)
                for e in els.run((d,), values={d: C(value)}):
                    rep.count('compilations')
                    rep.seen('raw-only-structure', inst)
                    got = [(o, source(a[0])) for o, a in e.ops()
                           if o.startswith('insert')] \
                        if e.kind == 'ok' else 'an error'
                    if got != [('insert' + wanted, expr)]:
                        rep.violation('raw-only-structure', 'tal:' + inst,
                                      e.loc(), '%s: compiles to %s' % (
                                          'xml' if xml else 'html',
                                          short(got)), e.facts())
