"""Both parsers recognise directives by namespace."""
from .common import *
from . import structure
from .markup import *

# almost the namespace of the template attributes
NEAR = [TAL_NS + '/', TAL_NS.upper(), ' ' + TAL_NS, TAL_NS + ' ',
        TAL_NS + '#', TAL_NS[:-1], TAL_NS.replace('http:', 'https:'), 'tal',
        TAL_NS + '/1.4', METAL_NS + '/', I18N_NS + '/']


V_ = lambda *a: T('value', *a)      # noqa: E731

T_, M_, I_ = 'xmlns:t', 'xmlns:m', 'xmlns:i'
O_ = 'http://example.org/other'


def element(tag, *attrs):
    """Element with attributes given as names (opaque values) or
    name=uri."""
    out = []
    for a in attrs:
        if isinstance(a, tuple):
            out.append(a)
        else:
            out.append((a, V_(tag, a)))
    return tag, out


HTML = [
    [('p', 'tal:content', 'metal:fill-slot', 'i18n:domain', 'class')],
    [('p', 'class', 'i18n:name', 'id', 'metal:use-macro', 'tal:define')],
    [('tal:block', 'content', 'define')],
    [('metal:block', 'use-macro', 'tal:define')],
    [('i18n:x', 'domain', 'metal:y', 'tal:z')],
    [('tal:block', 'metal:x', 'i18n:y', 'content')],
    [('p', (T_, TAL_NS), 't:content', 'tal:define')],
    [('p', 't:content', (T_, TAL_NS))],
    [('p', (M_, METAL_NS), 'm:use-macro')],
    [('p', (I_, I18N_NS), 'i:name')],
    [('p', (T_, O_), 't:content', 'class')],
    [('p', 't:content', 'content', 'taladdress', 'x-tal:content')],
    [('p', ('xmlns:tal', O_), 'tal:content', 'metal:x', 'i18n:y')],
    [('p', ('xmlns:metal', TAL_NS), 'metal:content', 'tal:define')],
    [('p', ('xmlns:x', O_), 'x:y', 'xml:lang', 'xmlns')],
    [('t:block', (T_, TAL_NS), 'content', 'class')],
    [('t:block', (T_, O_), 'content', 'tal:define')],
    [('tal:block', 'xml:lang', ('xmlns:x', O_), 'x:y', 'content')],
    [('tal:block', ('xmlns:x', METAL_NS), 'x:y', 'content')],
    [('tal:block', ('xmlns:tal', O_), 'content')],
    [('p', 'tal:a:b', 'tal:')],
    [('p', ('class', None), ('tal:omit-tag', None))],
    # nested
    [('p', (T_, TAL_NS), 't:define'), ('b', 't:content', 'id')],
    [('p', (T_, TAL_NS)), ('b', (T_, O_), 't:content'), 'b',
     ('i', 't:content')],
    [('div',), ('b', (T_, TAL_NS), 't:content'), 'b', ('i', 't:content')],
    [('div', ('xmlns:tal', O_)), ('b', 'tal:content'), 'b', 'div',
     ('i', 'tal:content')],
    [('div', (T_, TAL_NS)), ('br', (T_, METAL_NS), 't:x'),
     ('i', 't:content')],
    [('div', (T_, TAL_NS)), ('/img', (T_, METAL_NS), 't:x'),
     ('i', 't:content')],
    [('div', (T_, TAL_NS)), ('/x', (T_, METAL_NS), 't:content'),
     ('i', 't:content')],
    [('div', (T_, TAL_NS)), ('t:b', 'define', (M_, METAL_NS), 'm:x'),
     ('i', 't:content', 'm:y')],
    [('p', (T_, TAL_NS)), ('p', 't:content')],
    [('td', (T_, TAL_NS), 't:x'), ('b', (M_, METAL_NS), 'm:x', 't:x'),
     ('td', 't:content', 'm:y')],
] + [[('p', (T_, u), 't:content', 'class')] for u in NEAR]

D_ = ('xmlns:tal', TAL_NS), ('xmlns:metal', METAL_NS), (
    'xmlns:i18n', I18N_NS)
XML = [
    [('p',) + D_ + ('tal:content', 'metal:fill-slot', 'i18n:domain',
                    'class')],
    [('p', 'class') + D_ + ('i18n:name', 'id', 'metal:use-macro',
                            'tal:define')],
    [('tal:block',) + D_ + ('content', 'define')],
    [('metal:block',) + D_ + ('use-macro', 'tal:define')],
    [('i18n:x',) + D_ + ('domain', 'metal:y', 'tal:z')],
    [('p', (T_, TAL_NS), 't:content', 'content')],
    [('p', (T_, O_), 't:content', 'content')],
    [('p', ('xmlns:tal', O_), 'tal:content', 'tal')],
    [('p', ('xmlns:metal', TAL_NS), 'metal:content')],
    [('p', ('xmlns', TAL_NS), 'content', 'xml:lang')],
    [('p', ('xmlns', O_), 'content', 'xml:lang'), ('b', ('xmlns', ''),
                                                   'q')],
    [('p', (T_, TAL_NS), ('xmlns:u', TAL_NS), 't:content', 'u:define')],
    [('p', (T_, O_), ('xmlns:u', O_), 't:content', 'u:define')],
    [('p', (T_, O_), ('xmlns', O_), 't:content', 'u')],
    [('t:p', ('xmlns', O_), (T_, O_), 't:content', 'u'), ('q', 'u')],
    [('t:block', (T_, TAL_NS), 'content', 'xml:lang', ('xmlns:x', O_),
      'x:y')],
    [('p', (T_, TAL_NS), 't:define'), ('b', 't:content', 'id'), 'b',
     ('i', 't:replace')],
    [('p', (T_, TAL_NS)), ('b', (T_, O_), 't:content'), 'b',
     ('i', 't:content')],
    [('p', (T_, TAL_NS)), ('b', ('xmlns:u', TAL_NS), 't:content', 'u:x'),
     'b', ('i', 't:content')],
    [('t:p', (T_, O_)), ('u:b', ('xmlns:u', O_), 'u:x'), 'u:b',
     ('t:i', 't:content')],
    [('p', ('xmlns', TAL_NS), 'content'), ('b', ('xmlns', ''), 'content'),
     'b', ('i', 'content')],
] + [[('p', (T_, u), 't:content', 'class')] for u in NEAR if ' ' not in u]


def check(rep, prog, tier):
    rep.rule('html', 'every element is given to the generator with its '
             'directives sorted by the namespace its prefixes are bound to '
             'and all its attributes in order', 20)
    rep.rule('xml', 'the same for XML', 15)
    rep.assume('html.parser and expat report tags, attributes and namespace '
               'declarations as documented')
    for xml, pages in ((False, HTML), (True, XML)):
        mk = Markup(prog, xml, white=NONE)
        for page in pages:
            one(rep, mk, page)
        rep.use(mk.eng)


def resolve(name, env, xml):
    if name == 'xmlns' and xml:
        return None, name
    if ':' in name:
        prefix, local = name.split(':', 1)
        if prefix == 'xmlns':
            return ('xmlns' if env.get(local) in URIS else 'x'), name
        uri = env.get(prefix)
        if uri in URIS:
            return URIS[uri], local
        return 'x', name
    return None, name


def expected(tag, attrs, env, xml):
    if xml and ':' not in tag:
        ns = URIS.get(env.get(None))
    else:
        ns = resolve(tag, env, xml)[0]
    al, ds = [], {'tal': {}, 'metal': {}, 'i18n': {}}
    for k, v in attrs:
        kn, base = resolve(k, env, xml)
        if kn is None and not (xml and k == 'xmlns'):
            kn = ns
        if xml and k == 'xmlns':
            kn = 'xmlns' if v in URIS else None
        if kn in ds:
            ds[kn][base] = v
        if kn in ds or kn == 'xmlns':
            al.append((k, v, kn))
        else:
            al.append((k, v))
    if ns in ds:
        ds['tal']['tal tag'] = ns
    return al, ds


def one(rep, mk, page, rule=None):
    xml = mk.xml
    rule = rule or ('xml' if xml else 'html')
    steps, want, label = [], [], []
    env0 = {'xml': XML_URI} if xml else {
        'tal': TAL_NS, 'metal': METAL_NS, 'i18n': I18N_NS}
    stack = [(None, env0, ())]
    mk.n = 0
    for item in page:
        if isinstance(item, str):
            label.append('</%s>' % item)
            tag, env, decls = stack.pop()
            steps.append(mk.end(item, env, decls))
            continue
        tag, attrs = element(*item)
        closed = tag[0] == '/'
        tag = tag.lstrip('/')
        if not xml and tag == 'td' and stack[-1][0]:
            while len(stack) > 1:
                stack.pop()
        if not xml and tag == 'p' and stack[-1][0] == 'p':
            stack.pop()
        env = dict(stack[-1][1])
        decls = []
        for k, v in attrs:
            if k[:6] == 'xmlns:':
                env[k[6:]] = v
                decls.append((k[6:], v))
            elif k == 'xmlns' and xml:
                env[None] = v
                decls.append((None, v))
        label.append('<%s %s>' % (tag, ' '.join(
            '%s=%s' % (k, str(v).rsplit('/', 1)[-1])
            if k[:5] == 'xmlns' else k for k, v in attrs)))
        st = (mk.startend if closed else mk.start)(tag, attrs, env)
        steps.append(st)
        want.append((tag, expected(tag, attrs, env, xml), position(st.n)))
        if not closed and tag != 'br':
            stack.append((tag, env, decls))
    while len(stack) > 1 and xml:
        tag, env, decls = stack.pop()
        steps.append(mk.end(tag, env, decls))
    label = ''.join(label)
    rep.seen(rule, label)
    loc = handler(mk)
    outs = mk.run(steps)
    ok = 0
    for o in outs:
        rep.count('parses')
        if o.kind != 'ok':
            rep.violation(rule, label, loc, 'fails with %s' % (
                o.exc_class()), o.facts())
            continue
        ok += 1
        got = o.calls('emitStartElement')
        if len(got) != len(want):
            rep.violation(rule, label, loc, '%d elements instead of %d' % (
                len(got), len(want)), o.facts())
            continue
        for e, (tag, (al, ds), pos) in zip(got, want):
            b = mk.bound(o, e)
            al2 = [tuple(C(x) if not isinstance(x, V) else x for x in i)
                   for i in b['attrlist']]
            al1 = [tuple(C(x) if not isinstance(x, V) else x for x in i)
                   for i in al]
            if xml:
                # expat does not tell where the declarations stand
                al1.sort(key=lambda i: not i[0].v.startswith('xmlns'))
                al2.sort(key=lambda i: not (
                    isinstance(i[0], Const) and i[0].v.startswith('xmlns')))
            for what, x, y in (
                    ('name', b['name'], tag),
                    ('attribute list', al2, al1),
                    ('TAL directives', b['taldict'], ds['tal']),
                    ('METAL directives', b['metaldict'], ds['metal']),
                    ('I18N directives', b['i18ndict'], ds['i18n'])):
                if x != y:
                    rep.violation(rule, label, e.loc, '%s of <%s> is %s '
                                  'instead of %s' % (what, tag, short(x),
                                                     short(y)), o.facts())


def handler(mk):
    if mk.xml:
        h = mk.handlers.get('StartElementHandler')
        fi = h.fn.fi if h is not None and hasattr(h, 'fn') else None
        if fi is None:
            raise Broken('no start element handler')
    else:
        fi = mk.ps.method('handle_starttag').fi
    return fi.file, fi.node.lineno, fi.qual
