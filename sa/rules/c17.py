"""Static markup comes out as it was written."""
import html
import itertools
import re

from .common import *
from . import structure
from .markup import *
from . import c26
from .c26 import handler
from .elements import Elements, normal, flat, nested_blocks
from ..gen import freeze

X = T('text')


def check(rep, prog, tier):
    rep.rule('html-text', 'everything html.parser reports that is not a tag '
             'is emitted once, with the delimiters it was written with', 10)
    rep.rule('html-references', 'html.parser is told to leave character '
             'references alone', 1)
    rep.rule('xml-text', 'everything expat reports that is not a tag is '
             'emitted verbatim through the default handler', 8)
    rep.rule('white', 'white space taken back before an implied end tag is '
             'emitted right after it', 3)
    rep.rule('tag', 'the generator gets every element with the name and the '
             'attributes it was written with, in order', 12)
    rep.rule('given', 'the library parser is given the text of the template '
             'as it is and told where it ends', 6)
    rep.rule('compiled', 'the static text of the compiled program is the '
             'text that was emitted, in place and once', 60)
    rep.rule('attribute', 'a static attribute is compiled to name="value" '
             'with a value that means the same, a minimised one to its '
             'name', 20)
    rep.rule('written', 'static text of a program is written verbatim', 8)
    rep.rule('together', 'with any two directives on an element the text '
             'before, in and after it is compiled in place and once', 200)
    work = [(parsers,), (tags,), (given,), (white,), (compiled, tier), (attributes,),
            (written,)]
    work += [(together, tier, xml, i) for xml in (False, True)
             for i in range(8)]
    structure.fan(rep, work, lambda r, w: w[0](r, prog, *w[1:]))


# ------------------------------------------------------------- parsers

HTML_TEXT = [
    ('handle_data', X, S([X])), ('handle_charref', X, S(['&#', X, ';'])),
    ('handle_entityref', X, S(['&', X, ';'])),
    ('handle_comment', X, S(['<!--', X, '-->'])),
    ('handle_decl', X, S(['<!', X, '>'])),
    ('handle_pi', X, S(['<?', X, '>'])),
    ('unknown_decl', C('CDATA[x'), C('<![CDATA[x]]>')),
    ('unknown_decl', C('CDATA[else'), C('<![CDATA[else]]>')),
    ('unknown_decl', C('if IE'), C('<![if IE]>')),
    ('unknown_decl', C('endif'), C('<![endif]>')),
    ('unknown_decl', C('CDATA[ x '), C('<![CDATA[ x ]]>')),
    ('unknown_decl', C('CDATA[<B>&x'), C('<![CDATA[<B>&x]]>')),
    ('unknown_decl', C('if IE '), C('<![if IE ]>')),
    ('unknown_decl', C('INCLUDE[x'), C('<![INCLUDE[x]]>')),
    ('handle_decl', C('DOCTYPE html'), C('<!DOCTYPE html>')),
    ('handle_data', C(' \n '), C(' \n ')),
    ('handle_data', C('<&>"'), C('<&>"')),
]
XML_EVENTS = [
    ('CharacterDataHandler', 1), ('CommentHandler', 1),
    ('ProcessingInstructionHandler', 2), ('StartCdataSectionHandler', 0),
    ('EndCdataSectionHandler', 0), ('XmlDeclHandler', 3),
    ('StartDoctypeDeclHandler', 4), ('EndDoctypeDeclHandler', 0),
    ('ElementDeclHandler', 2), ('AttlistDeclHandler', 5),
    ('EntityDeclHandler', 7), ('NotationDeclHandler', 4),
    ('UnparsedEntityDeclHandler', 5), ('SkippedEntityHandler', 2),
    ('ExternalEntityRefHandler', 4), ('NotStandaloneHandler', 0)]


def base_text(v):
    """A value without a wrapping that does not change a string."""
    if isinstance(v, Str) and len(v.parts) == 1 and isinstance(
            v.parts[0], V):
        return v.parts[0]
    return v


def parsers(rep, prog):
    mk = Markup(prog, white=NONE)
    ps = mk.ps
    if ps.base_init is None:
        raise Broken('html.parser is not initialised')
    args, kw, loc = ps.base_init
    rep.seen('html-references', 'HTMLParser.__init__')
    v = kw.get('convert_charrefs')
    if not (isinstance(v, Const) and not v.v):
        rep.violation('html-references', 'convert_charrefs', loc,
                      'convert_charrefs is %s: references in text are '
                      'replaced before they are emitted' % (
                          short(v) if v is not None else 'left on'), [])
    for method, arg, want in HTML_TEXT:
        for ctx in ((), ('p',), ('script',)):
            mk.n = 0
            label = '%s(%s)%s' % (method, short(arg), ' in ' + ctx[0]
                                  if ctx else '')
            rep.seen('html-text', label)
            steps = [mk.start(t) for t in ctx] + [mk.html(method, arg)]
            for o in mk.run(steps):
                rep.count('parses')
                if o.kind != 'ok':
                    rep.violation('html-text', label, at(mk, method),
                                  'fails with %s' % o.exc_class(),
                                  o.facts())
                    continue
                texts = [o.st.resolve(e.args[0] if e.args else dict(
                    e.kw).get('text')) for e in o.calls('emitRawText')]
                got = S(texts)
                if base_text(got) is not base_text(want):
                    rep.violation('html-text', label, at(mk, method),
                                  'emits %s instead of %s' % (
                                      short(texts), short(want)), o.facts())
                kinds = [e.name for e in o.calls()
                         if e.name.startswith('emit')]
                if ctx and kinds != ['emitStartElement', 'emitRawText',
                                     'emitEndElement']:
                    rep.violation('html-text', label, at(mk, method),
                                  'leads to %s' % kinds, o.facts())
    rep.use(mk.eng)
    mk = Markup(prog, True)
    h = mk.handlers.get('DefaultHandler')
    loc = handler(mk)
    for ev, n in XML_EVENTS:
        rep.seen('xml-text', ev)
        if mk.handlers.get(ev) not in (None, NONE):
            fi = mk.handlers[ev].fn.fi if hasattr(
                mk.handlers[ev], 'fn') else None
            own(rep, mk, ev, n, (fi.file, fi.node.lineno, fi.qual)
                if fi else loc)
    rep.seen('xml-text', 'DefaultHandler')
    if 'DefaultHandlerExpand' in mk.handlers:
        rep.violation('xml-text', 'DefaultHandlerExpand', loc, 'entity '
                      'references are expanded', [])
        h = mk.handlers['DefaultHandlerExpand']
    if h is None or h is NONE:
        rep.violation('xml-text', 'DefaultHandler', loc, 'no default '
                      'handler is set, all text is dropped', [])
        return
    for arg in (X, C('&amp;'), C('<![CDATA['), C('\n')):
        for o in mk.run([mk.event('DefaultHandlerExpand' if (
                'DefaultHandlerExpand' in mk.handlers)
                else 'DefaultHandler', arg)]):
            rep.count('parses')
            texts = [o.st.resolve(e.args[0] if e.args else dict(
                e.kw).get('text')) for e in o.calls('emitRawText')]
            if o.kind != 'ok' or len(o.calls()) != len(texts) \
                    or base_text(S(texts)) is not base_text(S([arg])):
                rep.violation('xml-text', 'DefaultHandler', loc,
                              '%s is emitted as %s' % (short(arg),
                                                       short(texts)),
                              o.facts())
    rep.use(mk.eng)


ODD = [' a ', 'a\n b', 'A', '', '&amp;', '&#60;', "it's"]
TAGS = [
    [('p', 'id', 'class', 'a')], [('p', ('id', ' x '), 'class')],
    [('br', 'class', ('id', ''))], [('/img', 'src', 'alt')],
    [('p', 'class'), ('b', 'id'), 'b', ('i', 'id', 'class')],
    [('div', 'x:y', ('xmlns:x', c26.O_), 'xml:lang')],
    [('p', 'tal:content', 'class', 'metal:use-macro', 'id')],
] + [[('p', 'a', ('b', v), 'c')] for v in ODD]
HTML_ONLY = [
    [('p', 'class', 'id', 'class')], [('p', ('a', '1'), ('a', '1'))],
    [('p', ('a', '1'), ('a', '2'), 'a')], [('input', ('checked', None),
                                           ('checked', None))],
    [('script', ('type', 'text/x'), 'src')], [('script', ('type', None))],
    [('script', ('type', ''), 'tal:define')],
    [('script', 'src', ('language', 'text/server-x'))],
    [('p', ('type', 'text/server-x'))],
]


def tags(rep, prog):
    for xml in (False, True):
        mk = Markup(prog, xml, white=NONE)
        for page in TAGS if xml else TAGS + HTML_ONLY:
            if xml:
                # expat makes no difference between <e/> and <e></e>
                page = [('e' + i[0].strip('/'),) + i[1:]
                        if isinstance(i, tuple) else 'e' + i for i in page]
                page[0] += c26.D_
            c26.one(rep, mk, page, 'tag')
        for page in c26.XML if xml else c26.HTML:
            c26.one(rep, mk, page, 'tag')
        rep.use(mk.eng)


def given(rep, prog):
    for xml in (False, True):
        mk = Markup(prog, xml, white=NONE)
        fi = mk.ps.method('parseString').fi
        loc = fi.file, fi.node.lineno, fi.qual
        tail = [mk.event('DefaultHandler', X) if xml
                else mk.html('handle_data', X)]
        label = 'xml' if xml else 'html'
        text = T('text')
        st = mk.ps.state.fork()
        for o in mk.run([], state=st, arg=text, late=tail):
            rep.count('parses')
            rep.seen('given', '%s %d' % (label, len(o.st.facts)))
            fed = o.st.ghost.get('fed', ())
            args = [o.st.resolve(e.args[0]) for e in fed if e.args]
            args = [a for a in args if not (
                isinstance(a, Const) and not a.v)]
            bad = None
            if o.kind != 'ok':
                bad = 'fails with %s' % o.exc_class()
            elif len(args) != 1 or source(args[0]) is not text:
                bad = 'the library parser is given %s' % short(args)
            elif len(o.calls('emitRawText')) != 1:
                bad = 'the library parser is not told that the text ' \
                    'ends, and what it holds back is lost'
            if bad:
                rep.violation('given', label, loc, bad, o.facts())
        files(rep, mk, xml)
        rep.use(mk.eng)


def files(rep, mk, xml):
    entries = ['parseFile'] + ['parseURL', 'parseStream'] * xml
    for entry in entries:
        fi = mk.ps.method(entry).fi
        loc = fi.file, fi.node.lineno, fi.qual
        tail = [mk.event('DefaultHandler', X) if xml
                else mk.html('handle_data', X)]
        for o in mk.run([], entry=entry, arg=T('file'), late=tail):
            if o.kind != 'ok':
                continue
            rep.count('parses')
            rep.seen('given', '%s %s' % ('xml' if xml else 'html', entry))
            if len(o.calls('emitRawText')) != 1:
                rep.violation('given', entry, loc, 'the library parser is '
                              'not told that the text ends, and what it '
                              'holds back is lost', o.facts())
            for e in o.st.ghost.get('fed', ()):
                a = o.st.resolve(e.args[0]) if e.args else NONE
                changed = [x for x in walk(a) if isinstance(x, Term)
                           and x.op in CHANGES or isinstance(x, Term)
                           and x.op == 'm' and x.args[0] not in (
                               'read', 'encode')]
                if changed:
                    rep.violation('given', entry, loc, 'the library parser '
                                  'is given %s' % short(a), o.facts())


CHANGES = ('strip', 'lstrip', 'rstrip', 'replace', 'slice', 'lower',
           'upper', 'split', 'concat', 'add', 'expandtabs', 'resub')


def source(v):
    """The text that a value is the text or the encoded text of."""
    v = base_text(v)
    while isinstance(v, Term) and v.args:
        if v.op == 'm' and v.args[0] == 'encode' and (
                len(v.args) == 2 or v.args[2] in (C('utf-8'), C('utf8'),
                                                  C('UTF-8'))):
            v = base_text(v.args[1])
        elif v.op in ('bytes', 'encode'):
            v = base_text(v.args[0])
        else:
            break
    return v


def own(rep, mk, ev, n, loc):
    """A handler of its own for something that is not a tag."""
    args = [T('arg', C(i)) for i in range(n)]
    want = {'CommentHandler': lambda a: S(['<!--', a[0], '-->']),
            'ProcessingInstructionHandler': lambda a: S(
                ['<?', a[0], ' ', a[1], '?>']),
            'StartCdataSectionHandler': lambda a: C('<![CDATA['),
            'EndCdataSectionHandler': lambda a: C(']]>')}.get(ev)
    for o in mk.run([mk.event(ev, *args)]):
        rep.count('parses')
        texts = [o.st.resolve(e.args[0] if e.args else dict(
            e.kw).get('text')) for e in o.calls('emitRawText')]
        if want is None or base_text(S(texts)) is not base_text(want(args)):
            rep.violation('xml-text', ev, loc, 'does not pass on the source '
                          'text, emits %s' % short(texts), o.facts())


def at(mk, method):
    if mk.ps.prog.method(mk.ps.cls, method) is None:
        h = mk.ps.prog.base.heap[mk.ps.cls.oid]
        return handler(mk)[0], 0, '%s.%s' % (h.qual, method)
    fi = mk.ps.method(method).fi
    return fi.file, fi.node.lineno, fi.qual


def white(rep, prog):
    """Every result of taking back white space is emitted again."""
    mk = Markup(prog, white=T('white'))
    for truthy in (True, False):
        for page in (('p', 'p'), ('li', 'li'), ('td', 'b', 'td'),
                     ('tr', 'td', 'tr'), ('dd', '/dd'), ('p',),
                     ('div', 'p', '/div'), ('ul', 'li', 'b', '/ul')):
            mk.n = 0
            label = ' '.join(page)
            st = mk.ps.state.fork()
            st.facts[T('white')] = truthy
            steps = [mk.end(t[1:]) if t[0] == '/' else mk.start(t)
                     for t in page]
            for o in mk.run(steps, state=st):
                rep.count('parses')
                if o.kind != 'ok':
                    continue
                rep.seen('white', '%s %s' % (label, truthy))
                due = None
                for e in o.calls():
                    if e.name == 'unEmitWhitespace':
                        if due is not None:
                            break
                        due = 'end'
                    elif due == 'end' and e.name == 'emitEndElement':
                        due = 'text' if truthy else None
                    elif due is not None:
                        if due == 'text' and e.name == 'emitRawText' \
                                and (e.args or [dict(e.kw).get('text')])[
                                    0] is T('white'):
                            due = None
                        else:
                            break
                    elif e.name == 'emitRawText' and (
                            truthy or any(a is T('white')
                                          and truthy for a in e.args)):
                        due = 'spurious'
                        break
                if due is not None:
                    rep.violation('white', label, at(mk, 'handle_starttag'),
                                  'white space before an implied end tag is '
                                  'not put after it: %s' % [
                                      e.name for e in o.calls()],
                                  o.facts())
    rep.use(mk.eng)


# ----------------------------------------------------------- generator

def texts_in_order(prog, endsep=' />'):
    """All static text of a compiled program in document order."""
    out = []
    for op, arg in flat(prog):
        if op in ('rawtextOffset', 'rawtextColumn', 'rawtextBeginScope'):
            out.append(arg[0])
        elif op in ('startTag', 'startEndTag'):
            out.append('<%s%s' % (arg[0], ''.join(
                ' ' + i[1] for i in arg[1] if len(i) == 2)))
            out.append('>' if op == 'startTag' else endsep)
    res = ''
    for t in out:
        res += t if isinstance(t, str) else ''.join(
            x if isinstance(x, str) else '{%s}' % short(x)
            for x in pieces(t))
    return res


BODIES = [['a'], [' '], ['a', ' '], [' ', 'a'], ['a ', '\n', ' '],
          ['\n  '], ['x\n  '], ['x\n', '  '], ['x', '\n  ', '\t'],
          ['x\r\n\t'], ['\n\n  '], ['x \n y \n'], ['a', 'b', ''], [''],
          ['x\n\x0b'], ['\n a\n b'], ['a\n', 'b', ' \n ', ' '],
          [' a ', '\n'], ['\n a\n'], ['x\n', ' ', '\t'],
          ['x\n\t', ' ', '\t ']]


def compiled(rep, prog, tier):
    for xml in (False, True):
        els = Elements(prog, xml=xml, loop_k=1)
        mode = 'xml' if xml else 'html'
        loc = structure.generator(prog)
        # text between plain elements
        for a in BODIES:
            for tal in ((), ('condition',), ('repeat',), ('define',),
                        ('repeat', 'condition')):
                for take in ((False, True) if not tal else (False,)):
                    label = '%s %r %s%s' % (mode, a, '+'.join(tal),
                                            ' taken back' if take else '')
                    steps = [els.text('@0@')] * (not take) + [els.text(t) for t in a]
                    white = []
                    if take:
                        steps.append(take_back(els, white))
                    steps += [els.start(tal, attrs=[])]
                    steps += [els.text('@1@')] + [els.text(t) for t in a] \
                        + [els.end(), els.text('@2@'), els.code]
                    want = ''.join(['@0@'] * (not take) + a + ['<p>@1@'] + a
                                   + ['</p>@2@'])
                    rep.seen('compiled', label)
                    n = 0
                    for el in els.steps(*steps):
                        rep.count('compile_paths')
                        if el.kind != 'ok':
                            continue
                        n += 1
                        got = texts_in_order(el.program)
                        if got != want:
                            rep.violation('compiled', label, loc,
                                          'text %r becomes %r' % (want, got),
                                          el.facts())
                    if not n:
                        rep.violation('compiled', label, loc,
                                      'is not accepted', [])
        # opaque text
        for t in 't1 t2 t3 t4'.split():
            els.gen.eng.nonnull.add(T(t))
            els.gen.state.facts[T(t)] = True
        for tal in ((), ('condition',), ('repeat',)):
            rep.seen('compiled', '%s opaque %s' % (mode, tal))
            f = lambda v: (lambda s: els.gen.call(      # noqa: E731
                s, 'emitRawText', [v]))
            steps = [els.text('@'), f(T('t1')), els.start(tal, attrs=[]),
                     f(T('t2')), f(T('t3')), els.end(), f(T('t4')), els.text('@'),
                     els.code]
            want = '@{t1()}<p>{t2()}{t3()}</p>{t4()}@'
            for el in els.steps(*steps):
                rep.count('compile_paths')
                if el.kind != 'ok':
                    continue
                got = texts_in_order(el.program)
                if got != want and not (tal and 'repeat' in tal):
                    rep.violation('compiled', 'opaque %s' % (tal,), loc,
                                  '%s becomes %s' % (want, got), el.facts())
        # tags
        pages = [
            ([els.start(name='a', attrs=[]), els.end(name='a')],
             '<a/>' if xml else '<a></a>'),
            ([els.start(name='a', attrs=[]), els.text('x'),
              els.end(name='a')], '<a>x</a>'),
            ([els.start(name='a', attrs=[]), els.start(name='b', attrs=[]),
              els.end(name='b'), els.end(name='a')],
             '<a><b/></a>' if xml else '<a><b></b></a>'),
            ([els.start(name='a', attrs=[]), els.start(name='b', attrs=[]),
              els.text('x'), els.end(name='b'), els.end(name='a')],
             '<a><b>x</b></a>'),
        ]
        if not xml:
            pages += [
                ([els.start(name='br', attrs=[]), els.end(
                    name='br', isend=1, implied=-1)], '<br>'),
                ([els.start(name='br', attrs=[], isend=1)], '<br />'),
                ([els.start(name='p', attrs=[]), els.text('x'), els.end(
                    implied=1), els.start(name='p', attrs=[]),
                  els.end(implied=2)], '<p>x</p><p></p>'),
            ]
        for steps, want in pages:
            for tal in (False, True):
                if tal:
                    if steps is not pages[1][0]:
                        continue
                    steps = [els.start(['condition'], name='a', attrs=[]),
                             els.text('x'), els.end(name='a')]
                rep.seen('compiled', '%s %s %s' % (mode, want, tal))
                for el in els.steps(*(steps + [els.code])):
                    rep.count('compile_paths')
                    got = texts_in_order(
                        el.program, '/>' if xml else ' />') if el.kind == 'ok' \
                        else el.exc_text()
                    if got != want:
                        rep.violation('compiled', want, loc, '%s: %r becomes'
                                      ' %r' % (mode, want, got), el.facts())
        rep.use(els.gen.eng)


CONST = {'define': 'v e', 'condition': 'e', 'repeat': 'v e', 'content': 'e',
         'replace': 'e', 'attributes': 'z e', 'on-error': 'e',
         'omit-tag': 'e', 'omit-tag=': '', 'script': 'text/server-x',
         'tal tag': 'tal', 'define-macro': 'm', 'use-macro': 'e',
         'extend-macro': 'e', 'define-slot': 's', 'fill-slot': 's',
         'translate': 'id', 'translate=': '', 'domain': 'd', 'source': 's',
         'target': 't', 'name': 'n', 'i18n:attributes': 'z id', 'data': 'e'}


def text_once(prog):
    """The static text of a program in document order without the tags."""
    out = []
    for ins in prog:
        op, arg = ins[0], ins[1] if len(ins) > 1 else None
        if op in ('rawtextOffset', 'rawtextColumn', 'rawtextBeginScope'):
            out.append(arg[0] if isinstance(arg[0], str) else '?')
        for b in nested_blocks(op, tuple(
                x for x in arg if not isinstance(x, dict))
                if isinstance(arg, tuple) else arg):
            out.append(text_once(b))
    return re.sub(r'</?[po]\d*[^<>]*>', '', ''.join(out))


def together(rep, prog, tier, xml, part):
    """Text around and inside an element with any two directives."""
    els = Elements(prog, xml=xml, loop_k=1)
    loc = structure.generator(prog)
    todo = [()] + [(o,) for o in structure.ORDER] + [
        x for x in itertools.combinations(structure.ORDER, 2)
        if not structure.duplicates(x)]
    bodies = BODIES if tier == 'thorough' else [
        ['\n  '], ['x\n', '  '], [' ', 'a'], ['x\r\n\t']]
    for opts in todo[part::8]:
        outer = [()]
        if 'name' in opts:
            outer.append(('translate=',))
        if 'fill-slot' in opts:
            outer.append(('use-macro',))
        if 'define-slot' in opts:
            outer.append(('define-macro',))
        if 'extend-macro' in opts or 'data' in opts:
            opts += ('define-macro',) * (
                'extend-macro' in opts and 'define-macro' not in opts)
            opts += ('translate',) * (
                'data' in opts and 'translate' not in opts)
            if structure.duplicates(opts):
                continue
        for ns in bodies:
            steps = []
            for i, o in enumerate(outer[1:]):
                steps.append(begin(els, o, 'o%d' % i))
            steps += [els.text('@0@')] + [els.text(t) for t in ns]
            steps += [begin(els, opts, 'p'), els.text('@1@')]
            steps += [els.text(t) for t in ns] + [els.end(),
                                                  els.text('@2@')]
            for i in reversed(range(len(outer) - 1)):
                steps.append(els.end(name='o%d' % i))
            label = '%s %s %r' % ('xml' if xml else 'html', '+'.join(opts),
                                  ns)
            want = '@0@%s@1@%s@2@' % (''.join(ns), ''.join(ns))
            for el in els.steps(*steps + [els.code]):
                rep.count('compile_paths')
                if el.kind != 'ok':
                    continue
                rep.seen('together', label)
                got = text_once(el.program)
                if got != want:
                    rep.violation('together', label, loc, 'text %r becomes '
                                  '%r' % (want, got), el.facts())
    rep.use(els.gen.eng)


def begin(els, opts, name):
    by = {'tal': [], 'metal': [], 'i18n': []}
    values = {}
    for o in opts:
        ns, k = structure.OPTIONS[o]
        by[ns].append(k)
        values[ns, k] = C(CONST[o])
    return els.start(by['tal'], by['metal'], by['i18n'], values, name=name,
                     attrs=[])


def take_back(els, white):
    """What the HTML parser does around an implied end tag."""
    def f(s):
        outs = []
        for k, s2, v in els.gen.call(s, 'unEmitWhitespace'):
            if k != 'ok':
                outs.append((k, s2, v))
                continue
            outs.extend(els.gen.call(s2, 'emitRawText', [v]))
        return outs
    return f


VALUES = ['', 'v', ' a  b\n', '<', '>', '"', "'", '&', 'a&b', 'a & b', '& ',
          '&amp;', '&#65;', '&#x41;', '&#', '&#x', '&;', '&1', '&nbsp',
          '<a href="x">', 'a&b=c&d', "it's", '\xe4€', '&&', '&#12',
          '&#xAg', '&lt', '&lt;b&gt;', 'x?a=1&copy=2']


BARE = re.compile(
    r'&(?!(#[0-9]+|#[xX][0-9a-fA-F]+|[A-Za-z][A-Za-z0-9]*);)')


def attributes(rep, prog):
    for xml in (False, True):
        els = Elements(prog, xml=xml, loop_k=1)
        loc = structure.generator(prog)
        for val in VALUES + [None]:
            for tal in ((), ('condition',), ('attributes',)):
                label = '%s %r %s' % ('xml' if xml else 'html', val,
                                      '+'.join(tal))
                rep.seen('attribute', label)
                at = [TUP([C('a'), C('1')]), TUP([C('b'), C(val)]),
                      TUP([C('c'), C('3')])]
                for el in els.run(tal, values={
                        ('tal', 'attributes'): C('z q')}, attrs=at):
                    rep.count('compile_paths')
                    if el.kind != 'ok':
                        rep.violation('attribute', label, loc, 'fails: %s'
                                      % el.exc_text(), el.facts())
                        continue
                    bad = attribute(el, val, bool(tal))
                    if bad:
                        rep.violation('attribute', label, loc, bad,
                                      el.facts())
        rep.use(els.gen.eng)


def attribute(el, val, dynamic):
    if dynamic:
        tags = [a for o, a in el.ops() if o == 'startTag']
        if len(tags) != 1:
            return '%d start tags' % len(tags)
        items = [i for i in tags[0][1] if len(i) == 2]
        if [i[0] for i in items] != ['a', 'b', 'c']:
            return 'the attributes are %s' % short(items)
        text = ' '.join(i[1] for i in items)
    else:
        text = texts_in_order(el.program)
        text = text[3:text.index('>@body@')] if '>@body@' in text else text
    if not text.startswith('a="1" ') or not text.endswith(' c="3"'):
        return 'the tag has %r' % text
    mid = text[6:-6]
    if val is None:
        return None if mid == 'b' else 'minimised attribute becomes %r' % mid
    if not (mid.startswith('b="') and mid.endswith('"')):
        return 'attribute becomes %r' % mid
    v = mid[3:-1]
    if set(v) & set('<>"'):
        return 'value %r is not escaped: %r' % (val, v)
    if BARE.search(v):
        return 'value %r has a bare ampersand: %r' % (val, v)
    # complete references in the value may be left alone
    if html.unescape(v) not in (val, html.unescape(BARE.sub('&amp;', val))):
        return 'value %r becomes %r' % (val, v)
    return None


def written(rep, prog):
    for tal in (True, False):
        ip = interp(prog, raises=False, tal=tal)
        for mode in ('html', 'xml'):
            for op in ('rawtextOffset', 'rawtextColumn',
                       'rawtextBeginScope'):
                for variant, spec in operands(op):
                    for p in ip.run(op, variant, spec, ip.moded(mode)):
                        rep.count('paths')
                        rep.seen('written', '%s %s tal=%d %s' % (
                            name(op, variant), mode, tal, variant))
                        out = output(p)
                        if p.kind != 'ok' or out != [opnd(op, 'text')]:
                            rep.violation('written', name(op, variant),
                                          where(p), 'writes %s' % short(out),
                                          trace(p))
        rep.use(ip.eng)
