"""Invalid templates, by the rules of TAL, METAL and the i18n namespace.

`cases` lists pages together with the number of the item that is wrong.
"""
import itertools

from . import structure
from .structure import CONTEXTS, OPTIONS, Rejected, Sib, expected

VALUES = {
    'define': 'v e#', 'condition': 'e#', 'repeat': 'i e#', 'content': 'e#',
    'replace': 'e#', 'attributes': 'k e#', 'on-error': 'e#',
    'omit-tag': 'e#', 'omit-tag=': '', 'script': 'text/server-python',
    'define-macro': 'm#', 'use-macro': 'e#', 'extend-macro': 'e#',
    'define-slot': 's#', 'fill-slot': 's#', 'translate': 'id#',
    'translate=': '', 'domain': 'd#', 'source': 'en', 'target': 'de',
    'name': 'n#', 'i18n:attributes': 'title', 'data': 'e#',
}
EMPTY_TAGS = '''base meta link hr br param img area input col basefont
isindex frame'''.split()
# directives that may have an empty value or none at all
OPTIONAL = ('omit-tag', 'translate', 'domain', 'source', 'target')
# option -> options it needs on the same element, context
NEEDS = {
    'extend-macro': (('define-macro',), ''), 'data': (('translate',), ''),
    'define-slot': ((), 'def'), 'fill-slot': ((), 'use'),
    'name': ((), 'unit')}
UNKNOWN = {
    'tal': '''foo contents omit omit_tag define-macro use-macro translate
 domain onerror insert attribute block tal id label switch name fill-slot
 ignore data repeats comment xmlns''',
    'metal': '''foo content macro slot define use fill use-slot define_macro
 extend-slot translate metal extend attributes name block omit-tag id
 condition domain xmlns''',
    'i18n': '''foo msgid id content attribute translated define-macro
 domains i18n mode define names ignore-attribute context comment xmlns''',
}
# in XML names are not folded to lower case
UNKNOWN_XML = {
    'tal': 'Content REPLACE Define on-Error OMIT-TAG Script',
    'metal': 'Use-macro DEFINE-SLOT fill-Slot',
    'i18n': 'Translate DOMAIN Name Ignore',
}
MALFORMED = {
    'define': ['v', '1v e', 'a.b e', 'global', 'local',
               'v e; w', 'v e;w', '; v e', 'v e; ; w f', ' ', ';',
               'v; w e', '-v e', 'v/w e', '$v e', 'v e;;; w',
               'v e; 1w f', 'w f; v e; x', 'v e; ;'],
    'repeat': ['i', '1i e', 'a.b e', ' ', '-i e', 'i/j e', '$i e',
               '(a,b) e'],
    'attributes': ['k', 'k e; l', ' ', ';', 'k e; ; l f', '; k e',
                   'k e;;; l', 'k e;l', 'k e; ;'],
    'define-macro': ['1m', 'a b', 'a.b', 'a/b', ' ', '$m', '-m', 'm;n',
                     'a\nb', 'm:n', 'm!'],
    'define-slot': ['1s', 'a b', 'a.b', 'a/b', ' ', '$s', '-s', 's;t',
                    'a\nb', 's!'],
    'fill-slot': ['1s', 'a b', 'a.b', 'a/b', ' ', '$s', '-s', 's;t',
                  'a\nb', 's!'],
    'name': ['1n', 'a b', 'a.b', 'a/b', ' ', '$n', '-n', 'n;o', 'n\n',
             '${n}', 'n!', ''],
    'i18n:attributes': ['title id more', ' ', 'title;a b c', 'a b c; title',
                        'title; '],
    'data': ['structure e'],
}
DUPLICATE_ATTRS = {
    'attributes': ['k e; k f', 'k e; l f; k g', 'k e;k e'],
    'i18n:attributes': ['title; title', 'title id; alt; title',
                        'title; title id', 'title id; title id'],
}
ONLY_HTML_DUPLICATES = {
    'attributes': ['k e; K f', 'Kk e; l f; kK g'],
    'i18n:attributes': ['title; Title', 'TITLE id; alt; title'],
}


class Case:
    def __init__(self, rule, why, page, at):
        self.rule, self.why, self.page, self.at = rule, why, page, at


class Page(list):
    def put(self, op, tag, opts=(), values=None, extra=()):
        """A start tag with these options; returns its number."""
        n = len(self)
        attrs = []
        if 'tal tag' in opts:
            tag = 'tal:' + tag
        for o in opts:
            if o == 'tal tag':
                continue
            v = (values or {}).get(o, VALUES[o])
            if isinstance(v, str):
                v = v.replace('#', str(n))
            attrs.append(('%s:%s' % OPTIONS[o], v))
        attrs += list(extra)
        if ':' not in tag:
            attrs.insert(0, ('class', 'static'))
        self.append((op, tag, attrs))
        return n

    def close(self, n):
        self.append(('</', self[n][1]))

    def inside(self, context):
        """Opens the elements of a context; returns their numbers."""
        out = []
        for i, oo in enumerate(CONTEXTS[context]):
            n = self.put('<', 'o%d' % i, oo)
            if isinstance(oo, Sib):
                self.append('@sib@')
                self.close(n)
            else:
                out.append(n)
        return out

    def outside(self, opened):
        for n in reversed(opened):
            self.close(n)


def wrapped(context, opts, form='element', values=None, tag='p', extra=(),
            child=()):
    """(page, number of the element)"""
    page = Page()
    if context == '':
        opened = [page.put('<', 'root')]
    else:
        opened = page.inside(context)
    page.append('@before@')
    n = page.put('/>' if form == 'empty' else '<', tag, opts, values, extra)
    if form != 'empty':
        page.append('@body@')
        if child:
            c = page.put('<', 'c', child)
            page.append('@child@')
            page.close(c)
        page.close(n)
    page.append('@after@')
    page.outside(opened)
    return page, n


def needed(o):
    base = o.rstrip('=')
    return NEEDS.get(base, ((), ''))


def conflicts(xml, size, contexts):
    options = [o for o in OPTIONS]
    for context in contexts:
        for n in range(1, size + 1):
            for opts in itertools.combinations(options, n):
                if structure.duplicates(opts):
                    continue
                try:
                    expected(xml, opts, context)
                    continue
                except Rejected as e:
                    why = str(e)
                yield opts, context, why


def cases(xml, tier, child=(), triples=True):
    quick = tier != 'thorough'
    for ns, names in UNKNOWN.items():
        for nm in names.split() + UNKNOWN_XML[ns].split() * bool(xml):
            for form in ('element', 'empty'):
                for ctx in ('', 'def'):
                    page, n = wrapped(ctx, (), form, extra=[
                        ('%s:%s' % (ns, nm), 'x')], child=child)
                    yield Case('unknown', '%s:%s' % (ns, nm), page, n)
            page, n = wrapped('', ('condition', 'domain'), extra=[
                ('%s:%s' % (ns, nm), 'x')], child=child)
            yield Case('unknown', '%s:%s' % (ns, nm), page, n)
            page, n = wrapped('', (), extra=[('%s:%s' % (ns, nm), '')],
                              child=child)
            yield Case('unknown', '%s:%s' % (ns, nm), page, n)
            if nm == 'xmlns':
                continue    # a declaration if it has no prefix
            page, n = wrapped('', (), tag=ns + ':x', extra=[
                (nm, 'x')], child=child)
            yield Case('unknown', '%s:x %s' % (ns, nm), page, n)
    for o, (ns, d) in OPTIONS.items():
        if d in OPTIONAL or o == 'tal tag':
            continue
        more, ctx = needed(o)
        for v in ('',) if xml else ('', None):
            for form in ('element', 'empty'):
                for extra in ((), ('condition',), ('omit-tag=',)):
                    if set(extra) & {o}:
                        continue
                    page, n = wrapped(ctx, (o,) + more + extra, form,
                                      {o: v}, child=child)
                    yield Case('required', '%s:%s without value' % (ns, d),
                               page, n)
    for o, bad in MALFORMED.items():
        more, ctx = needed(o)
        for v in bad:
            for extra in ((), ('omit-tag=', 'on-error')):
                page, n = wrapped(ctx, (o,) + more + extra, values={o: v},
                                  child=child)
                yield Case('values', '%s="%s"' % (o, v), page, n)
    for o in ('define-macro',):
        for v in MALFORMED[o]:
            page, n = wrapped('', (o, 'extend-macro'), values={o: v},
                              child=child)
            yield Case('values', '%s="%s"' % (o, v), page, n)
    yield from duplicates(xml, child)
    contexts = [c for c in CONTEXTS]
    for opts, context, why in conflicts(xml, 2, contexts):
        for form in ('element', 'empty') if not (quick and context) \
                else ('element',):
            page, n = wrapped(context, opts, form, child=child)
            yield Case('misplaced' if 'outside' in why else 'conflicts',
                       why, page, n)
    for opts, context, why in conflicts(
            xml, 3 if triples else 0, contexts if not quick else [''] if xml
            else ['', 'use', 'unit']):
        if len(opts) == 3:
            page, n = wrapped(context, opts, child=child)
            yield Case('misplaced' if 'outside' in why else 'conflicts',
                       why, page, n)
    yield from after_units()
    if not xml:
        yield from implicit(tier)
        yield from filled()


def after_units():
    """A name after a complete translation unit is outside of it."""
    for unit in (('translate=',), ('translate',), ('translate=', 'content'),
                 ('translate=', 'replace'), ('translate=', 'omit-tag='),
                 ('translate=', 'content', 'condition'),
                 ('translate=', 'content', 'repeat')):
        for form in ('<', '/>'):
            page = Page()
            root = page.put('<', 'root')
            n = page.put(form, 'q', unit)
            if form == '<':
                page.append('@unit@')
                page.close(n)
            n = page.put('<', 'p', ('name',))
            page.append('@body@')
            page.close(n)
            page.close(root)
            yield Case('misplaced', 'name after %s' % '+'.join(unit), page,
                       n)


def duplicates(xml, child):
    tables = [DUPLICATE_ATTRS] + ([] if xml else [ONLY_HTML_DUPLICATES])
    for t in tables:
        for o, vals in t.items():
            for v in vals:
                page, n = wrapped('', (o,), values={o: v}, child=child)
                yield Case('duplicates', '%s="%s"' % (o, v), page, n)
    both = [('k e', 'k id'), ('k e; l f', 'l id'), ('l f; k e', 'l; k id'),
            ('a e; b f; c g', 'c; a id'), ('k e', 'title; k id; alt')]
    if not xml:
        both += [('K e', 'k id'), ('k e', 'K id'), ('l f; K e', 'k id')]
    for a, i in both:
        for extra in ((), ('replace',), ('translate=',)):
            page, n = wrapped('', ('attributes', 'i18n:attributes') + extra,
                              values={'attributes': a,
                                      'i18n:attributes': i}, child=child)
            yield Case('conflicts', 'attributes "%s" with "%s"' % (a, i),
                       page, n)
    # macros
    for second in ('m', ' m', 'm '):
        for opts in (('define-macro',), ('define-macro', 'extend-macro')):
            for between in ((), ('use-macro',), ('define-macro',)):
                page = Page()
                r = page.put('<', 'root')
                a = page.put('<', 'a', ('define-macro',),
                             {'define-macro': 'm'})
                page.close(a)
                if between:
                    b = page.put('<', 'b', between)
                    page.close(b)
                n = page.put('<', 'c', opts, {'define-macro': second})
                if child:
                    c = page.put('<', 'i', child)
                    page.close(c)
                page.close(n)
                page.close(r)
                yield Case('duplicates', 'macro %s defined twice' % second,
                           page, n)
    # a macro inside one of the same name: the outer one ends last
    page = Page()
    n = page.put('<', 'a', ('define-macro',), {'define-macro': 'm'})
    b = page.put('<', 'b', ('define-macro',), {'define-macro': 'm'})
    page.close(b)
    page.close(n)
    yield Case('duplicates', 'macro m in macro m', page, n)
    # fillers
    for second in ('s', ' s', 's '):
        for between in ((), ('fill-slot',), ('condition',)):
            for deep in (False, True):
                for use in (('use-macro',),
                            ('define-macro', 'extend-macro')):
                    page = Page()
                    r = page.put('<', 'root', use)
                    a = page.put('<', 'a', ('fill-slot',),
                                 {'fill-slot': 's'})
                    page.close(a)
                    if between:
                        b = page.put('<', 'b', between)
                        page.close(b)
                    if deep:
                        d = page.put('<', 'd')
                    n = page.put('<', 'c', ('fill-slot',),
                                 {'fill-slot': second})
                    page.append('@body@')
                    if child:
                        c = page.put('<', 'i', child)
                        page.close(c)
                    page.close(n)
                    if deep:
                        page.close(d)
                    page.close(r)
                    yield Case('duplicates', 'slot %s filled twice' % second,
                               page, n)
    # after a nested use of a macro with a filler of its own
    page = Page()
    r = page.put('<', 'root', ('use-macro',))
    a = page.put('<', 'a', ('fill-slot',), {'fill-slot': 's'})
    b = page.put('<', 'b', ('use-macro',))
    c = page.put('<', 'c', ('fill-slot',), {'fill-slot': 's'})
    page.close(c)
    page.close(b)
    page.close(a)
    n = page.put('<', 'd', ('fill-slot',), {'fill-slot': 's'})
    page.close(n)
    page.close(r)
    yield Case('duplicates', 'slot filled twice around a nested macro',
               page, n)
    if not xml:
        for d, v in (('tal:content', 'e'), ('metal:use-macro', 'e'),
                     ('i18n:translate', ''), ('i18n:domain', 'd'),
                     ('tal:omit-tag', '')):
            for form in ('element', 'empty'):
                page, n = wrapped('', (), form, extra=[
                    (d, v), (d, v)], child=child)
                yield Case('duplicates', d + ' twice', page, n)
                ns, base = d.split(':')
                page, n = wrapped('', (), form, tag=ns + ':x', extra=[
                    (base, v), (d, v)], child=child)
                yield Case('duplicates', d + ' twice', page, n)


def implicit(tier):
    """Elements with directives that are closed implicitly."""
    closings = [
        ('p', [('<', 'p', [])]), ('p', [('<', 'div', [])]),
        ('p', [('<', 'b', []), 'x', ('<', 'h1', [])]),
        ('li', [('<', 'li', [])]), ('td', [('<', 'tr', [])]),
        ('td', [('<', 'th', [])]), ('tr', [('<', 'td', []),
                                           ('<', 'tr', [])]),
        ('dt', [('<', 'dd', [])]), ('b', None), ('p', None), ('div', None),
        ('b', 'end'), ('li', 'end'), ('p', 'end'), ('td', 'end'),
        ('custom', 'end')]
    for o in OPTIONS:
        more, ctx = needed(o)
        for tag, how in closings:
            page = Page()
            outer = page.inside(ctx) if ctx else [page.put('<', 'root')]
            if tag in ('td', 'tr'):
                t = page.put('<', 'table')
                if tag == 'td':
                    page.put('<', 'tr')
            n = page.put('<', tag, (o,) + more)
            page.append('x')
            if isinstance(how, list):
                page.extend(how)
                page.append('y')
            if how != 'end':
                # an end tag of an element around it
                if tag in ('td', 'tr'):
                    page.close(t)
                page.close(outer[-1])
                page.outside(outer[:-1])
            yield Case('implicit', '%s on <%s> %s' % (
                o, tag, 'closed by the end' if how == 'end'
                else 'closed by ' + structure_of(how)), page, n)


def structure_of(how):
    return '<%s>' % how[-1][1] if how else 'an enclosing end tag'


def filled():
    for tag in EMPTY_TAGS:
        for form in ('<', '/>'):
            for extra in [()] + [(o,) for o in OPTIONS if o not in (
                    'content', 'replace', 'tal tag', 'translate', 'name',
                    'fill-slot', 'define-slot', 'extend-macro', 'data',
                    'script')]:
                page = Page()
                r = page.put('<', 'root')
                n = page.put(form, tag, ('content',) + extra)
                page.append('x')
                page.close(r)
                yield Case('empty-tags', 'content on <%s>' % tag, page, n)
