"""Structure insertion is checked and inert."""
import xml.parsers.expat as expat

from .common import *
from . import structure
from .elements import normal
from .markup import *
from ..gen import freeze
from ..parse import FEEDS, Parse
from ..values import BOUND, HList, HDict, Func

OPS = ('insertStructure', 'insertI18nStructure')


class Inserting(Interp):
    """Rendering in which inserted structures are parsed: the library
    parser reports the given page for the inserted text."""

    page = ()
    fails = False

    def on_call(self, eng, st, fv, args, kw, node):
        if isinstance(fv, Func) and fv.fi.name == 'interpret' and args \
                and args[0] is self.ref:
            prog = args[1] if len(args) > 1 else kw.get('program')
            if isinstance(prog, Ref):
                if prog is not self.top:
                    self.event(eng, st, prog, node)
                return None
        return Interp.on_call(self, eng, st, fv, args, kw, node)

    def on_getattr(self, eng, st, o, name, node):
        if (name.endswith('LineNumber') or name.endswith('ColumnNumber')) \
                and isinstance(o, Term) and 'ParserCreate' in repr(o):
            return [('ok', st, T('inserted position', name))]
        return None

    def on_event(self, eng, st, ev, node):
        if ev.name == 'getpos':
            return [('ok', st, T('inserted position'))]
        if ev.recv is ENGINE and ev.name == 'compile':
            return [('ok', st, T('cexpr', *ev.args))]
        if ev.recv is ENGINE and ev.name == 'getCompilerError':
            return [('ok', st, T('compilererror'))]
        if ev.name in FEEDS:
            return self.feed(eng, st, ev, node)
        return Interp.on_event(self, eng, st, ev, node)

    def feed(self, eng, st, ev, node):
        xml = ev.name != 'feed'
        arg = st.resolve(ev.args[0]) if ev.args else NONE
        mk = Inside(self.prog, xml, eng, ev.recv, st)
        fed = st.ghost.get('chunks', ())
        if isinstance(arg, Const) and xml:
            new = fed + (arg.v,)
            steps = mk.constant(''.join(fed), arg.v)
        elif isinstance(arg, Const):
            raise Broken('constant HTML is parsed')
        else:
            new = fed
            st.ghost['parsed'] = st.ghost.get('parsed', ()) + (
                (xml, arg, len(stream_writes_of(st))),)
            steps = mk.steps_of(self.page)
        st.ghost['chunks'] = new
        if xml and (ev.name == 'ParseFile' or Parse.final(st, ev)):
            st.ghost['final'] = True
        outs = [('ok', st, NONE)]
        for s in steps:
            outs = mk.then(outs, s)
        if self.fails and not isinstance(arg, Const):
            # whatever came before the error has been handled
            outs = [('raise', s, T('excopaque', C('parse')))
                    for k, s, v in outs]
        return [(k, s, NONE if k == 'ok' else v) for k, s, v in outs]


def stream_writes_of(st):
    return [e for e in st.events() if e.recv is STREAM]


class Inside(Markup):
    """A parser met in the middle of an analysis."""

    def __init__(self, prog, xml, eng, ref, st):
        self.prog, self.xml, self.eng, self.n = prog, xml, eng, 0
        self.handlers, self.config = {}, {}
        self.ps = self
        self.init_events = st.events()
        self.ref = ref
        if xml:
            last = None
            for i, e in enumerate(self.init_events):
                if e.kind == 'ext' and 'ParserCreate' in repr(e.recv) \
                        + e.name:
                    last = i
            if last is None:
                raise Broken('no expat parser is created')
            self.init_events = self.init_events[last:]
            self.read_expat()

    def call(self, st, name, args):
        cls = st.heap[self.ref.oid].cls
        fn = self.prog.need_method(cls, name)
        return self.eng.call(st, BOUND(self.ref, fn), list(args), {},
                             fn.fi.node)

    def steps_of(self, page):
        env = {None: None}
        stack = []
        out = []
        for item in page:
            if isinstance(item, str) and item[0] == '/':
                env0, decls = stack.pop()
                out.append(self.end(item[1:], env, decls))
                env = env0
            elif isinstance(item, str):
                out.append(self.event('DefaultHandler', item) if self.xml
                           else self.html('handle_data', item))
            else:
                tag, attrs = item[0], list(item[1:])
                if tag[0] == '/':       # <tag/>
                    tag = tag[1:]
                    out.append(self.start(tag, attrs, env) if self.xml
                               else self.startend(tag, attrs, env))
                    if self.xml:
                        out.append(self.end(tag, env, ()))
                    continue
                stack.append((env, [
                    ((k[6:] or None), v) for k, v in attrs
                    if k[:5] == 'xmlns']))
                env = dict(env)
                for k, v in attrs:
                    if k[:5] == 'xmlns':
                        env[k[6:] or None] = v
                out.append(self.start(tag, attrs, env))
        return out

    def constant(self, before, text):
        """What expat reports for text that is known."""
        got = []
        p = expat.ParserCreate(None, self.sep)
        for k, v in self.config.items():
            setattr(p, k, v)
        for h in self.handlers:
            if hasattr(p, h):
                setattr(p, h, lambda *a, h=h: got.append((h, a)))
        try:
            p.Parse(before)
            del got[:]
            p.Parse(text)
        except expat.ExpatError as e:
            raise Broken('the constant text %r is not well-formed: %s' % (
                text, e))
        out = []
        for h, a in got:
            def f(s, h=h, a=a):
                args = [self.eng.alloc(s, HList([wrap(y) for y in x]))
                        if isinstance(x, list) else C(x) for x in a]
                return self.expat(s, h, args)
            out.append(f)
        return out


T_ = ('xmlns:tal', TAL_NS)
M_ = ('xmlns:metal', METAL_NS)
I_ = ('xmlns:i18n', I18N_NS)
# page, expected output without replacements
PAGES = [
    (['just text'], 'just text'),
    ([('b',), 'x', '/b'], '<b>x</b>'),
    ([('b',), '1', '/b', ('i',), '2', '/i'], '<b>1</b><i>2</i>'),
    (['a', ('b', ('class', 'c')), 'x', '/b', 'z'],
     'a<b class="c">x</b>z'),
    ([('b', T_, ('tal:content', 'e')), 'x', '/b'], '<b>x</b>'),
    ([('b', T_, ('tal:replace', 'structure e')), 'x', '/b'], '<b>x</b>'),
    ([('b', T_, ('tal:condition', 'e'), ('tal:repeat', 'i e'),
       ('tal:define', 'v e')), 'x', '/b'], '<b>x</b>'),
    ([('b', T_, ('tal:attributes', 'class e'), ('class', 'c')), 'x', '/b'],
     '<b class="c">x</b>'),
    ([('b', T_, ('tal:on-error', 'e'), ('tal:omit-tag', 'e')), 'x', '/b'],
     '<b>x</b>'),
    ([('b', T_, ('tal:nonsense', 'e')), 'x', '/b'], '<b>x</b>'),
    ([('b', M_, ('metal:use-macro', 'm')), 'x', '/b'], '<b>x</b>'),
    ([('b', M_, ('metal:define-macro', 'm')), ('i', (
        'metal:define-slot', 's')), 'x', '/i', '/b'], '<b><i>x</i></b>'),
    ([('b', M_, ('metal:fill-slot', 's')), 'x', '/b'], '<b>x</b>'),
    ([('b', I_, ('i18n:translate', '')), 'x', ('i', ('i18n:name', 'n')),
      'y', '/i', '/b'], '<b>x<i>y</i></b>'),
    ([('b', I_, ('i18n:domain', 'd'), ('i18n:attributes', 'class'),
       ('class', 'c')), 'x', '/b'], '<b class="c">x</b>'),
    ([('b', T_), ('i', ('tal:content', 'e')), 'x', '/i', ('u', (
        'tal:content', 'e'), ('id', 'k')), 'y', '/u', '/b'],
     '<b><i>x</i><u id="k">y</u></b>'),
    ([('b', ('class', 'c')), 'x', '/b', ('i', ('class', 'd')), 'y', '/i'],
     '<b class="c">x</b><i class="d">y</i>'),
    ([('b', ('title', 'a<"&')), 'x', '/b'],
     '<b title="a&lt;&quot;&amp;">x</b>'),
    ([('b',), '1', '/b', ('i',), '2', '/i', ('u', ('title', 't')), '3', '/u'],
     None),
    ([('b',), ('i',), '1', '/i', ('u', ('class', 'c')), '2', '/u', '/b'],
     '<b><i>1</i><u class="c">2</u></b>'),
    (['a', ('b', T_, ('tal:content', 'e')), '1', '/b', 'z', ('i',), '2',
      '/i'], 'a<b>1</b>z<i>2</i>'),
    ([('/img', ('class', 'c')), 'x', ('b', ('class', 'd')), '2', '/b'],
     '<img class="c"/>x<b class="d">2</b>'),
    ([('/b',), ('/b',)], '<b/><b/>'),
    ([('tal:block', T_, ('content', 'e')), 'x', '/tal:block', ('b',), 'y',
      '/b'], '<tal:block>x</tal:block><b>y</b>'),
    ([('b', M_), ('metal:block', ('use-macro', 'e')), 'x', '/metal:block',
      '/b'], '<b><metal:block>x</metal:block></b>'),
    ([('i18n:x', I_, ('translate', '')), 'x', '/i18n:x'],
     '<i18n:x>x</i18n:x>'),
]
ONLY_HTML = [
    ([('script', ('type', 'text/server-python')), 'print 1', '/script'],
     None),
    ([('p', ('tal:content', 'e')), 'x', ('p', ('tal:content', 'f')), 'y'],
     '<p>x</p><p>y</p>'),
    ([('br', ('class', 'c')), 'y'], '<br class="c">y'),
    ([('tal:block', ('content', 'e')), 'x', '/tal:block'],
     '<tal:block>x</tal:block>'),
    ([('/tal:block', ('replace', 'e')), 'x'], '<tal:block/>x'),
]
INERT = ('setPosition', 'setSourceFile', 'compile', 'getCompilerError',
         'beginScope', 'endScope', 'setLocal', 'getDefault')


def check(rep, prog, tier):
    rep.rule('shortcut', 'without strict insertion and replacements the '
             'text of the structure is written as it is', 4)
    rep.rule('checked', 'otherwise it is parsed by the parser of the mode '
             'of the page, before anything is written, and a failure of the '
             'parser ends the insertion with nothing written', 16)
    rep.rule('inert', 'what is written is the markup of the structure; no '
             'directive in it has any effect', 60)
    rep.rule('first', 'replacements apply to the first element and to no '
             'other', 40)
    rep.rule('mode', 'the mode of the rendering stays as it is', 60)
    rep.rule('position', 'the engine is not told a position within the '
             'inserted text', 60)
    work = [(op, strict, mode) for op in OPS for strict in (0, 1)
            for mode in ('html', 'xml')]
    structure.fan(rep, work, lambda r, w: insertions(r, prog, *w))


def insertions(rep, prog, op, strict, mode):
    ip = Inserting(prog, raises=False, config={
        'wrap': C(0), 'strictinsert': C(strict), 'showtal': C(0),
        'stackLimit': C(100), 'i18nInterpolate': C(1)})
    for k in ('class', 'title'):
        ip.eng.nonnull.add(T('rexpr', k))
    shortcut(rep, ip, op, strict, mode)
    failing(rep, ip, op, strict, mode)
    pages = PAGES + (ONLY_HTML if mode == 'html' else [])
    for i, (page, want) in enumerate(pages):
        for repl in (False, True):
            if repl and mode == 'html' and page[0][0] == 'p':
                continue    # is refused, an end tag is missing
            if strict or repl:
                one(rep, ip, op, strict, mode, page, want, repl)
    rep.use(ip.eng)


def prepared(ip, mode):
    st = ip.init_state.fork()
    st.trace, st.n = None, 0
    st.frames, st.stack = {}, ()
    st.ghost = {'depth': 0, 'mindepth': 0}
    for p in ip.run('mode', '', C(mode), st):
        st = p.st.fork()
    st.trace, st.n = None, 0
    return st


def operand(ip, st, op, repl):
    if repl:
        d = ip.eng.alloc(st, HDict([
            (C('class'), TUP([T('rexpr', 'class'), FALSE, NONE])),
            (C('title'), TUP([T('rexpr', 'title'), FALSE, NONE]))]))
    else:
        d = ip.eng.alloc(st, HDict([]))
    return TUP([opnd(op, 'expr'), d, block(op, 'program')])


def usable(p):
    """Paths on which there is a structure to insert."""
    evs = engine_calls(p, 'evaluateStructure')
    if not evs:
        return None
    r = evs[0].result
    if p.fact(T('is', r, NONE)) is True \
            or p.fact(T('is', r, DEFAULT)) is True:
        return None
    return r


def text_of(p, v, r):
    """Is v the text of the structure r, translated or not?"""
    for e in engine_calls(p, 'translate'):
        if base(v) is base(p.st.resolve(e.result)):
            return True
    return base(v) is r


def base(v):
    if isinstance(v, Str) and len(v.parts) == 1:
        return v.parts[0]
    return v


def shortcut(rep, ip, op, strict, mode):
    st = prepared(ip, mode)
    ip.page = []
    for p in ip.run(op, '', operand(ip, st, op, False), st):
        r = usable(p)
        if r is None:
            continue
        rep.count('paths')
        label = '%s %s' % (op, mode)
        parsed = p.st.ghost.get('parsed', ())
        if strict:
            continue
        rep.seen('shortcut', label)
        out = output(p)
        if p.kind != 'ok' or parsed or len(out) != 1 or not text_of(
                p, out[0], r):
            rep.violation('shortcut', label, where(p), 'writes %s%s' % (
                short(out), ' after parsing' if parsed else ''), trace(p))


def failing(rep, ip, op, strict, mode):
    for repl in (False, True):
        if not (strict or repl):
            continue
        st = prepared(ip, mode)
        ip.fails, ip.page = True, [('b', ('class', 'c')), 'x']
        try:
            outs = ip.run(op, '', operand(ip, st, op, repl), st)
        finally:
            ip.fails = False
        for p in outs:
            r = usable(p)
            if r is None:
                continue
            rep.count('paths')
            label = '%s %s strict=%d repl=%d invalid' % (op, mode, strict,
                                                         repl)
            rep.seen('checked', label)
            parsed = p.st.ghost.get('parsed', ())
            bad = None
            if p.kind != 'raise' or p.val is not T('excopaque', C('parse')):
                bad = 'the error of the parser is lost'
            elif stream_writes(p):
                bad = 'something is written: %s' % short(output(p))
            elif len(parsed) != 1 or parsed[0][0] != (mode == 'xml') \
                    or not text_of(p, parsed[0][1], r):
                bad = 'what is parsed is %s' % short(parsed)
            if bad:
                rep.violation('checked', label, where(p), bad, trace(p))


def inside(p):
    """Announcements of positions within the inserted text."""
    return [e for e in engine_calls(p, 'setPosition') if any(
        isinstance(x, Term) and x.op == 'inserted position'
        for a in e.args for x in walk(a))]


def one(rep, ip, op, strict, mode, page, want, repl):
    st = prepared(ip, mode)
    ip.page = page
    label = '%s %s strict=%d repl=%d %s' % (op, mode, strict, repl,
                                            page_text(page))
    modes = mode_fields(ip)
    before = ip.snapshot(st)
    el = [i for i in page if not isinstance(i, str)]
    n = 0
    if mode == 'html' and want:
        want = want.replace('/>', ' />')
    for p in ip.run(op, '', operand(ip, st, op, repl), st):
        r = usable(p)
        if r is None:
            continue
        n += 1
        rep.count('paths')
        rep.seen('checked', label)
        parsed = p.st.ghost.get('parsed', ())
        if len(parsed) != 1 or parsed[0][0] != (mode == 'xml') \
                or not text_of(p, parsed[0][1], r):
            rep.violation('checked', label, where(p), 'what is parsed is '
                          '%s' % short(parsed), trace(p))
            continue
        if mode == 'xml' and not p.st.ghost.get('final'):
            rep.violation('checked', label, where(p), 'the parser is not '
                          'told that the text ends, an unfinished one is '
                          'accepted', trace(p))
        if parsed[0][2]:
            rep.violation('checked', label, where(p), 'something is written '
                          'before parsing', trace(p))
        if p.kind != 'ok':
            rep.violation('inert', label, where(p), 'fails with %s' % short(
                p.val), trace(p))
            continue
        rep.seen('inert', label)
        evs = [e for e in engine_calls(p) if e.name not in INERT
               and e.name not in ('evaluateStructure', 'translate')]
        extra = [e for e in evs if not (
            e.args and isinstance(e.args[0], Term)
            and e.args[0].op == 'rexpr' and e.name in (
                'evaluateText', 'evaluateBoolean'))]
        trans = engine_calls(p, 'translate')
        if extra or len(trans) > 1 and not repl:
            rep.violation('inert', label, where(p), 'a directive of the '
                          'structure is executed: %s' % [
                              e.name for e in extra or trans[1:]], trace(p))
            continue
        rep.seen('mode', label)
        after = ip.snapshot(p.st)
        changed = modes & set(ip.changed(before, after))
        if changed:
            rep.violation('mode', '%s %s' % (op, mode), where(p),
                          'inserting %s changes %s' % (
                              page_text(page), sorted(changed)), trace(p))
        rep.seen('position', label)
        told = inside(p)
        if told:
            rep.violation('position', '%s %s' % (op, mode), told[0].loc,
                          'while inserting %s the engine is told a position '
                          'in the inserted text' % page_text(page), trace(p))
        if repl and el:
            first(rep, p, label, el, page, mode)
            continue
        if want is None:
            continue
        got = ''.join(x if isinstance(x, str) else '{%s}' % short(x)
                      for x in output(p))
        # declarations of other namespaces stay
        if got != want:
            rep.violation('inert', label, where(p), 'writes %s instead of '
                          '%s' % (got, want), trace(p))
    if not n:
        raise Broken('%s never inserts anything' % op)


def first(rep, p, label, el, page, mode):
    """Replacements of class and title."""
    rep.seen('first', label)
    rest = dict((e.args[0].args[0], e) for e in engine_calls(
        p, 'evaluateText', 'evaluateBoolean'))
    if sorted(k if isinstance(k, str) else k.v for k in rest) != [
            'class', 'title'] or len(engine_calls(
                p, 'evaluateText', 'evaluateBoolean')) != 2:
        rep.violation('first', label, where(p), 'the replacements are '
                      'evaluated as %s' % short(sorted(map(repr, rest))),
                      trace(p))
        return
    vals = {}
    for k, e in rest.items():
        k = k if isinstance(k, str) else k.v
        if p.fact(T('is', e.result, DEFAULT)) is True:
            vals[k] = 'default'
        elif p.fact(T('is', e.result, NONE)) is True:
            vals[k] = None
        else:
            vals[k] = e.result
    got = ''.join(x if isinstance(x, str) else '{%s}' % which(p, x, vals)
                  for x in output(p))
    want = ''
    open_ = False
    for item in page:
        if isinstance(item, str):
            want += '<%s>' % item if item[0] == '/' else item
            continue
        tag, attrs = item[0], [a for a in item[1:]
                               if ':' not in a[0] and ':' not in item[0]]
        if tag in ('script', 'p'):
            return      # the text of these is not predicted
        at = []
        if not open_:
            d = dict(attrs)
            for k, v in attrs:
                if k in vals:
                    v = esc(v) if vals[k] == 'default' else None if (
                        vals[k] is None) else '{%s}' % k
                else:
                    v = esc(v)
                if v is not None:
                    at.append((k, v))
            for k in sorted(vals):
                if k not in d and vals[k] not in (None, 'default'):
                    at.append((k, '{%s}' % k))
            open_ = True
        else:
            at = [(k, esc(v)) for k, v in attrs]
        want += '<%s%s%s' % (tag.strip('/'), ''.join(
            ' %s="%s"' % a for a in at), '>' if tag[0] != '/' else '/>'
            if mode == 'xml' else ' />')
    if got != want:
        rep.violation('first', label, where(p), 'writes %s instead of %s' % (
            got, want), trace(p))


def esc(v):
    return html.escape(v)


def which(p, v, vals):
    """The replacement a piece of output derives from."""
    hits = [k for k, r in vals.items() if isinstance(r, V) and any(
        x is r for x in walk(v))]
    if len(hits) != 1:
        for e in engine_calls(p, 'translate'):
            if any(x is p.st.resolve(e.result) or x is e.result
                   for x in walk(v)):
                hits = [k for k, r in vals.items() if isinstance(r, V)
                        and any(x is r for a in e.args for x in walk(a))]
    return hits[0] if len(hits) == 1 else short(v)


_modes = {}


def mode_fields(ip):
    if id(ip) not in _modes:
        snaps = []
        for m in ('html', 'xml'):
            snaps.append(ip.snapshot(prepared(ip, m)))
        _modes[id(ip)] = set(ip.changed(*snaps)), ip
    return _modes[id(ip)][0]


def page_text(page):
    return ''.join(
        '<%s>' % i if isinstance(i, str) and i[0] == '/' else i
        if isinstance(i, str) else '<%s%s>' % (i[0], ''.join(
            ' ' + k for k, v in i[1:])) for i in page)
