"""Optimisation does not change what a program does."""
import itertools

from .common import *
from . import structure
from .elements import normal, pieces_of
from .structure import tidy
from ..gen import Gen
from ..interp import Path
from ..values import HList, BOUND

# instructions a program can be collected from
LETTERS = {
    'a': 'text', 'n': 'text with a line break', 'N': 'text ending a line',
    '0': 'empty text', 't': 'start tag', 'T': 'static start tag',
    'd': 'start tag with an expression', 's': 'static empty element',
    'S': 'empty element', 'D': 'empty element with an expression',
    'e': 'end tag', 'b': 'open a scope', 'z': 'close a scope',
    'p': 'position', 'x': 'condition', 'l': 'define', '-': 'separator',
    'i': 'begin a context', 'j': 'end a context',
}


def check(rep, prog, tier):
    rep.rule('sequence', 'the optimised form of a sequence of instructions '
             'writes, evaluates and changes scopes and contexts as the '
             'sequence does', 2000)
    rep.rule('scopes', 'the same for longer sequences of text, positions '
             'and scopes, which are combined', 1000)
    rep.rule('any-text', 'the same for text that is not known', 100)
    rep.rule('column', 'the column recorded for a text is that after its '
             'last line break', 100)
    rep.rule('attributes', 'attributes written at compile time are written '
             'in order, once each, escaped and quoted as when rendering', 20)
    rep.rule('combined', 'a combined instruction does what its parts do', 4)
    rep.rule('elements', 'the program of an element is the one its '
             'directives describe', 50)
    quick = tier == 'quick'
    work = []
    for xml in (False, True):
        for first in LETTERS:
            work.append((xml, 'sequence', first, ''.join(LETTERS),
                         3 if quick else 4))
        for first in LETTERS:
            work.append((xml, 'scopes', first, '', 0 if quick else 1))
    structure.fan(rep, work, lambda r, w: sequences(r, prog, *w))
    for xml in (False, True):
        opaque(rep, prog, xml)
        attributes(rep, prog, xml)
        values(rep, prog, xml)
    combined(rep, prog)
    structure.compare(rep, prog, 'elements', structure.TAL, size=1 if quick
                      else 2, contexts=('', 'repeat', 'def', 'fill'))


class Sequence:
    """Instructions to emit and the effects they stand for."""

    def __init__(self, gen, xml):
        self.gen, self.xml = gen, xml
        self.st = gen.state.fork()
        self.calls = []
        self.want = []

    def emit(self, *args):
        self.calls.append(('emit', args))

    def text(self, v):
        self.calls.append(('emitRawText', [C(v) if isinstance(v, str)
                                           else v]))
        self.want.append(('rawtext', v))

    def tag(self, nm, attrs, end):
        """attrs: (name, value) or (name, value, action, expr, xlat, id)."""
        lst = self.gen.eng.alloc(self.st, HList([TUP([
            x if isinstance(x, V) else C(x) for x in a]) for a in attrs]))
        self.calls.append(('emitStartTag', [C(nm), lst, C(end)]))
        close = '>' if not end else '/>' if self.xml else ' />'
        if all(len(a) == 2 for a in attrs):
            self.want.append(('rawtext', '<%s%s%s' % (nm, ''.join(
                ' ' + text_of(a) for a in attrs), close)))
        else:
            self.want.append(('startEndTag' if end else 'startTag', (nm, [
                (a[0], text_of(a)) if len(a) == 2 else tuple(a)
                for a in attrs])))

    def add(self, c, i):
        if c == 'a':
            self.text('a%d\t\u00e9\u2028' % i)
        elif c == 'n':
            self.text('n%d\r\n \tm\u00e9\x0c' % i)
        elif c == 'N':
            self.text('u\nv%d\n' % i)
        elif c == '0':
            self.text('')
        elif c == 't':
            self.tag('t%d' % i, [], 0)
        elif c == 'T':
            self.tag('T%d' % i, [('k', 'v&"<'), ('m', None)], 0)
        elif c == 'd':
            self.tag('d%d' % i, [('k', 'v>\n'), (
                'r', 'old', 'replace', T('expr', C(i)), 0, None),
                ('m', None)], 0)
        elif c == 's':
            self.tag('s%d' % i, [('k', 'v')], 1)
        elif c == 'S':
            self.tag('S%d' % i, [], 1)
        elif c == 'D':
            self.tag('D%d' % i, [('r', None, 'insert', T('expr', C(i)), 0,
                                  None), ('k', 'v')], 1)
        elif c == 'e':
            self.emit(C('endTag'), C('e%d' % i))
            self.want.append(('rawtext', '</e%d>' % i))
        elif c == 'b':
            d = T('attrs', C(i))
            self.emit(C('beginScope'), d)
            self.want.append(('beginScope', d))
        elif c == 'z':
            self.emit(C('endScope'))
            self.want.append(('endScope', ()))
        elif c == 'p':
            pos = (i + 1, i)
            self.emit(C('setPosition'), TUP([C(i + 1), C(i)]))
            self.want.append(('setPosition', pos))
        elif c == 'x':
            body = self.gen.eng.alloc(self.st, HList([TUP([C(
                'rawtextOffset'), TUP([C('b'), C(1)])])]))
            self.emit(C('condition'), T('expr', C(i)), body)
            self.want.append(('condition', (T('expr', C(i)), [(
                'rawtextOffset', ('b', 1))])))
        elif c == 'l':
            self.emit(C('setLocal'), C('v%d' % i), T('expr', C(i)))
            self.want.append(('setLocal', ('v%d' % i, T('expr', C(i)))))
        elif c == '-':
            self.emit(C('noop'))
        elif c == 'i':
            d = T('context', C(i))
            self.emit(C('beginI18nContext'), d)
            self.want.append(('beginI18nContext', d))
        elif c == 'j':
            self.emit(C('endI18nContext'), C(1))
            self.want.append(('endI18nContext', 1))

    def run(self):
        """[(kind, state, optimised program without its head)]"""
        g = self.gen
        outs = g.seq(self.st, *[lambda s, m=m, a=a: g.call(s, m, a)
                                for m, a in self.calls])
        res = []
        for k, s, v in outs:
            if k != 'ok':
                res.append((k, s, v))
                continue
            for k, s, v in g.call(s, 'getCode'):
                res.append((k, s, g.freeze(s, v.items[0] if isinstance(
                    v, Tup) else v) if k == 'ok' else v))
        return res

    def expected(self):
        return plain(self.want)


def text_of(a):
    if a[1] is None:
        return a[0]
    # an ampersand that begins an entity reference stays; VALUES has none
    v = a[1].replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace('"', '&quot;')
    return '%s="%s"' % (a[0], v)


HEAD = ('version', 'mode', 'setSourceFile')


def body(prog):
    return [i if len(i) == 2 else (i[0], None) for i in prog
            if i[0] not in HEAD]


def describe(letters):
    return ', '.join(LETTERS[c] for c in letters)


def sequences(rep, prog, xml, rule, first, alphabet, size):
    gen = Gen(prog, xml=xml)
    loc = structure.generator(prog, 'getCode')
    if rule == 'sequence':
        todo = (first + ''.join(rest) for n in range(size)
                for rest in itertools.product(alphabet, repeat=n))
    else:
        todo = combinable(first, size)
    for letters in todo:
        one(rep, gen, xml, rule, letters, loc)
    rep.use(gen.eng)


def combinable(first, deep):
    """Sequences around text, a position and the opening of a scope."""
    if first in 'anbzpxj':
        for n in range(2, 4 + deep):
            for rest in itertools.product('anbzpxj', repeat=n):
                yield first + ''.join(rest)
    tails = ['pb', 'zpb', 'pzb', 'pbb', 'pzpb', 'zpbz', 'pbnpb', 'pbznpb',
             'pbpb', 'pbznpbz', 'pb-zNpb', 'pbzTpb', 'pblpb', 'pbzpzb']
    for second in [''] + list(LETTERS if deep else 'anzbjlxdi'):
        for text in 'nN':
            for tail in tails:
                yield first + second + text + tail


def one(rep, gen, xml, rule, letters, loc):
    seq = Sequence(gen, xml)
    for i, c in enumerate(letters):
        seq.add(c, i)
    want = seq.expected()
    label = '%s %s' % ('xml' if xml else 'html', letters)
    rep.seen(rule, label)
    for k, s, v in seq.run():
        rep.count('optimised_paths')
        if k != 'ok':
            rep.violation(rule, letters, loc, 'the sequence %s cannot be '
                          'optimised' % describe(letters))
            continue
        got = plain(body(v))
        if got != want:
            rep.violation(rule, letters, loc, 'the sequence [%s] becomes '
                          'a program that does %s instead of %s' % (
                              describe(letters), shown(got), shown(want)))
        for op, arg in body(v):
            column(rep, letters, loc, op, arg)


def shown(nodes):
    return ' '.join('%s(%s)' % (o, short(a)) for o, a in nodes)[:300]


def column(rep, label, loc, op, arg):
    if op == 'rawtextOffset':
        ok = isinstance(arg[0], str) and '\n' not in arg[0] \
            and arg[1] == len(arg[0])
    elif op in ('rawtextColumn', 'rawtextBeginScope'):
        ok = isinstance(arg[0], str) and '\n' in arg[0] \
            and arg[1] == len(arg[0]) - arg[0].rindex('\n') - 1
    else:
        return
    rep.seen('column', '%s %r' % (op, arg[0]))
    if not ok:
        rep.violation('column', '%s %s' % (label, op), loc, '%s gives '
                      'column %s to the text %r' % (op, arg[1], arg[0]))


# ----------------------------------------------------------- any text

def opaque(rep, prog, xml):
    loc = structure.generator(prog, 'getCode')
    alphabet = 'otezbpxd'
    for n in (1, 2, 3, 4):
        for letters in itertools.product(alphabet, repeat=n):
            letters = ''.join(letters)
            if not 0 < letters.count('o') < 3 or n == 4 and not (
                    'pb' in letters and 'o' in letters[:2]):
                continue
            gen = Gen(prog, xml=xml)
            seq = Sequence(gen, xml)
            for i, c in enumerate(letters):
                if c == 'o':
                    seq.text(S([C('.'), T('text', C(i))]))
                else:
                    seq.add(c, i)
            want = seq.expected()
            rep.seen('any-text', '%s %s' % ('xml' if xml else 'html',
                                            letters))
            for k, s, v in seq.run():
                rep.count('optimised_paths')
                if k != 'ok':
                    rep.violation('any-text', letters, loc, 'cannot be '
                                  'optimised')
                    continue
                got = plain(body(v))
                if got != want:
                    rep.violation(
                        'any-text', letters, loc, 'the sequence [%s] '
                        'becomes a program that does %s instead of %s' % (
                            ', '.join(LETTERS.get(c, 'any text')
                                      for c in letters), shown(got),
                            shown(want)))
            rep.use(gen.eng)


def plain(program):
    """A program without what optimisation does to it."""
    nodes = [(o, (a,) if o == 'text' and isinstance(a, str) else a)
             for o, a in normal(program)]
    return [(o, tuple(merge(a)) if o == 'text' else a)
            for o, a in tidy(nodes)]


# --------------------------------------------------------- attributes

def attributes(rep, prog, xml):
    """Static attributes with values that are not known."""
    loc = structure.generator(prog, 'getCode')
    static = ('static', 'none', 'dynamic', 'insert', 'xmlns')
    for n in (1, 2, 3):
        for kinds in itertools.product(static, repeat=n):
            for end in (0, 1):
                gen = Gen(prog, xml=xml)
                st = gen.state.fork()
                items = []
                for i, k in enumerate(kinds):
                    nm, val = T('an', C(i)), T('av', C(i))
                    gen.eng.nonnull.update((nm, val))
                    if k == 'static':
                        items.append((nm, val))
                    elif k == 'none':
                        items.append((nm, NONE))
                    elif k == 'xmlns':
                        items.append((nm, val, C('xmlns')))
                    else:
                        items.append((nm, val if k == 'dynamic' else NONE,
                                      C('replace' if k == 'dynamic' else
                                        'insert'), T('ex', C(i)), C(0),
                                      NONE))
                lst = gen.eng.alloc(st, HList([TUP(x) for x in items]))
                label = '%s %s%s' % ('xml' if xml else 'html',
                                     '+'.join(kinds), '/' * end)
                rep.seen('attributes', label)
                outs = gen.seq(
                    st, lambda s: gen.call(s, 'emitStartTag',
                                           [C('p'), lst, C(end)]),
                    lambda s: gen.call(s, 'getCode'))
                for k, s, v in outs:
                    rep.count('optimised_paths')
                    if k != 'ok':
                        rep.violation('attributes', label, loc,
                                      'is not accepted')
                        continue
                    prg = body(gen.freeze(s, v.items[0]))
                    why = tag_fault(gen, s, prg, items, end, xml)
                    if why:
                        rep.violation('attributes', label, loc, why)
                rep.use(gen.eng)


def tag_fault(gen, st, prg, items, end, xml):
    close = '>' if not end else '/>' if xml else ' />'
    if len(prg) != 1:
        return 'becomes %d instructions' % len(prg)
    op, arg = prg[0]
    if all(len(i) == 2 for i in items):
        # a tag whose attributes are all static may also stay a tag
        if op.startswith('rawtext'):
            got = merge(pieces_of(arg[0]))
            want = ['<p']
            for nm, val in items:
                want += [' ', nm]
                if val is not NONE:
                    want += ['="', ('escaped', val), '"']
            want.append(close)
            return same_text(merge(want), got)
    if op != ('startEndTag' if end else 'startTag') or arg[0] != 'p':
        return 'becomes %s' % op
    if len(arg[1]) != len(items):
        return 'has %d attributes' % len(arg[1])
    for item, got in zip(items, arg[1]):
        if len(item) > 2:
            w = tuple(x.v if isinstance(x, Const) else x for x in item)
            if tuple(got) != w:
                return 'attribute %s becomes %s' % (short(w), short(got))
            continue
        want = [item[0]] + (['="', ('escaped', item[1]), '"']
                            if item[1] is not NONE else [])
        if len(got) != 2 or got[0] is not item[0]:
            return 'attribute %s becomes %s' % (short(item), short(got))
        why = same_text(merge(want), merge(pieces_of(got[1])))
        if why:
            return why
    return None


def merge(parts):
    out = []
    for x in parts:
        if isinstance(x, Const):
            x = x.v
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def same_text(want, got):
    if len(want) != len(got):
        return 'is written as %s' % short(got)
    for w, g in zip(want, got):
        if isinstance(w, tuple):
            if not made_of(g, w[1]):
                return 'the value is written as %s' % short(g)
        elif isinstance(w, str):
            if w != g:
                return 'is written as %s' % short(got)
        elif leaf(g) is not w:
            return 'is written as %s' % short(got)
    return None


def made_of(v, source):
    """v comes from source alone; how it is escaped is seen in VALUES."""
    found = {x for x in walk(v) if isinstance(x, Term)
             and x.op in ('av', 'an')}
    return found == {source}


def values(rep, prog, xml):
    """Static attributes with known values, alone and beside an expression."""
    loc = structure.generator(prog, 'getCode')
    gen = Gen(prog, xml=xml)
    for v in VALUES:
        for more in ([], [('r', 'old', 'replace', T('expr', C(0)), 0,
                           None)]):
            for end in (0, 1):
                seq = Sequence(gen, xml)
                seq.tag('p', [('k', v)] + more + [('m', v)], end)
                want = seq.expected()
                label = '%r%s' % (v, ' beside an expression' * bool(more))
                rep.seen('attributes', '%s %s %d' % (
                    'xml' if xml else 'html', label, end))
                for k, s, code in seq.run():
                    rep.count('optimised_paths')
                    got = plain(body(code)) if k == 'ok' else [(k, ())]
                    if got != want:
                        rep.violation('attributes', label, loc, 'is written '
                                      'as %s instead of %s' % (
                                          shown(got), shown(want)))
    rep.use(gen.eng)


VALUES = ['', 'v', ' v ', 'a&b', '&', '&&', 'a & b', '&b', 'a&b=c', '&1;',
          '&#', '&#z;', '&#12', '&#xAz', '<', '>', '"', "'", '<&>"\'',
          'a<b&c>d"e', '\n', 'a\n b', '\t', 'x;y', '%s', '\\', '\\1',
          '{x}', '\xe9\u20ac', '0', 'None', '=', '/']


def leaf(v):
    while isinstance(v, Str) and len(v.parts) == 1:
        v = v.parts[0]
    if isinstance(v, Term) and v.op == 'str' and len(v.args) == 1:
        return leaf(v.args[0])
    return v


# ----------------------------------------------------------- combined

def combined(rep, prog):
    for tal in (True, False):
        for mode in ('html', 'xml'):
            for variant, spec in operands('rawtextBeginScope'):
                ip = interp(prog, raises=False, tal=tal)
                st = ip.moded(mode)
                text, col, pos, close, attrs = spec.items
                parts = [('rawtextColumn', TUP([text, col])),
                         ('setPosition', pos)]
                if variant == 'closeprev':
                    parts.append(('endScope', TUP([])))
                parts.append(('beginScope', attrs))
                label = '%s %s%s' % (variant, mode, '' if tal else ' no-tal')
                rep.seen('combined', label)
                one_ = effects(ip, run(ip, st, [('rawtextBeginScope',
                                                 spec)]))
                many = effects(ip, run(ip, st, parts))
                rep.count('paths', len(one_) + len(many))
                for e in one_:
                    if e[0] not in [x[0] for x in many]:
                        rep.violation(
                            'combined', label, e[1], 'does %s, its parts '
                            'do %s' % (short(e[0]),
                                       short([x[0] for x in many])), e[2])
                rep.use(ip.eng)


def run(ip, st, instructions):
    st = st.fork()
    st.trace, st.n = None, 0
    st.stack = ()
    ip.top = ip.eng.alloc(st, HList([TUP([C(op), arg])
                                     for op, arg in instructions]))
    st.ghost['top'] = ip.top
    fn = ip.prog.need_method(ip.cls, 'interpret')
    return [Path(k, s, v, ip, 'sequence', '') for k, s, v in ip.eng.call(
        st, BOUND(ip.ref, fn), [ip.top], {}, fn.fi.node)]


def effects(ip, paths):
    """What the paths do: output, scopes, announcements and fields left."""
    res = []
    for p in paths:
        if p.kind != 'ok':
            res.append((('fails',), where(p), trace(p)))
            continue
        scopes = tuple((e.name,) + tuple(e.args) for e in engine_calls(p)
                       if e.name != 'setPosition')
        told = tuple((e.name,) + tuple(e.args)
                     for e in p.events('call') if e.recv is ENGINE
                     and e.name == 'setPosition')
        fields = tuple(sorted(
            (k, str(p.st.resolve(p.st.field(ip.ref, k))))
            for k in ip.start_fields
            if p.st.resolve(p.st.field(ip.ref, k)) is not
            ip.start_fields[k]))
        res.append(((tuple(map(str, output(p))), scopes, told, fields),
                    where(p), trace(p)))
    return res
