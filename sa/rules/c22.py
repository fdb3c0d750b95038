"""The engine always knows the current source position and file."""
from .common import *
from . import c19, structure
from .elements import Elements
from .c09 import fields_of
from .c28 import source as expression


def check(rep, prog, tier):
    rep.rule('in-step', 'what the interpreter takes for the current '
             'position and file is what the engine has been told last, when '
             'a nested block starts and when an instruction ends, normally '
             'or with an error', 60)
    rep.rule('announced', 'the instructions that announce a position or '
             'file pass it on', 4)
    rep.rule('repeated', 'every repetition of an element and every '
             'expression evaluated after its content has the position of '
             'the element', 4)
    rep.rule('restored', 'after a macro has been used the engine is told '
             'the file of the page again, an error handler runs with the '
             'position and the file of its element', 3)
    rep.rule('compiled', 'in a compiled template the position and the file '
             'of an element are announced before any of its expressions is '
             'evaluated, with no element in between, in macros and slot '
             'fillers as well', 200)
    for tal in (True, False):
        for metal in (True, False):
            in_step(rep, prog, tal, metal)
    compiled(rep, prog, tier)
    rep.rule('inserted', 'while a structure is parsed and inserted the '
             'engine is not told a position within the structure', 8)
    for mode in ('html', 'xml'):
        for op in c19.OPS:
            inserted(rep, prog, op, mode)
    rep.assume('templates with a source file name; without one the '
               'announcements inside macros and slot fillers are left out')


def inserted(rep, prog, op, mode):
    ip = c19.Inserting(prog, raises=False, config={
        'wrap': C(0), 'strictinsert': C(1), 'showtal': C(0),
        'stackLimit': C(100), 'i18nInterpolate': C(1)})
    for k in ('class', 'title'):
        ip.eng.nonnull.add(T('rexpr', k))
    for page, _ in c19.PAGES[1:4]:
        for repl in (False, True):
            st = c19.prepared(ip, mode)
            ip.page = page
            for p in ip.run(op, '', c19.operand(ip, st, op, repl), st):
                rep.count('paths')
                rep.seen('inserted', '%s %s %s repl=%d' % (
                    op, mode, c19.page_text(page), repl))
                told = c19.inside(p)
                if told:
                    rep.violation('inserted', '%s %s' % (op, mode),
                                  told[0].loc, 'while inserting %s the '
                                  'engine is told a position in it' %
                                  c19.page_text(page), trace(p))
    rep.use(ip.eng)


# ------------------------------------------------------------ rendering

def in_step(rep, prog, tal, metal):
    ip = interp(prog, summarised=True, tal=tal, metal=metal)
    for told in ('setPosition', 'setSourceFile'):
        fields = fields_of(ip, told)
        if len(fields) != 1:
            # position and file may come with others (pending annotation)
            fields = {k for k in fields if holds(ip, told, k)}
        if len(fields) != 1:
            raise Broken('%s is kept in %s' % (told, sorted(fields)))
        k = fields.pop()
        for op, variant, paths in runs(ip):
            inst = '%s %s tal=%d metal=%d' % (told, name(op, variant), tal,
                                              metal)
            for p in paths:
                rep.count('paths')
                rep.seen('in-step', inst)
                one(rep, ip, p, told, k, inst, op)
                if op == told and p.kind == 'ok':
                    rep.seen('announced', inst)
                    evs = engine_calls(p, told)
                    a = opnd(op, 'arg')
                    if [e.args for e in evs] != [(a,)] and not (
                            not evs and same_by_fact(
                                ip, p.st, a, ip.start_fields[k])):
                        rep.violation('announced', op, where(p),
                                      'the engine is told %s' % short(
                                          [e.args for e in evs]), trace(p))
                if op == 'rawtextBeginScope' and told == 'setPosition':
                    rep.seen('announced', inst)
                    evs = engine_calls(p, told)
                    a = opnd(op, 'position')
                    if [e.args for e in evs] != [(a,)] and not (
                            not evs and same_by_fact(
                                ip, p.st, a, ip.start_fields[k])):
                        rep.violation('announced', op, where(p),
                                      'the engine is told %s' % short(
                                          [e.args for e in evs]), trace(p))
            if tal and metal:
                for p in paths:
                    restored(rep, ip, p, told, k, op)
            if told == 'setPosition' and op in (
                    'loop', 'insertTranslation') and tal:
                for p in paths:
                    repeated(rep, ip, p, k, inst, op)
    rep.use(ip.eng)


def holds(ip, op, k):
    for p in ip.run(op, '', opnd(op, 'arg')):
        if p.kind == 'ok' and p.st.resolve(
                p.st.field(ip.ref, k)) is opnd(op, 'arg'):
            return True
    return False


def after(ip, k, told, e, raised):
    """What the engine knows after a nested block."""
    if raised:
        return T('dirty', k, C(e.n)) if k in ip.exc else told
    return T('havoc', k, C(e.n)) if k in ip.norm else told


def one(rep, ip, p, told, k, inst, op):
    cur = ip.start_fields[k]
    loc = None
    raised = dict(p.st.ghost.get('raised', ()))

    def same(v):
        v, c = p.st.resolve(v), p.st.resolve(cur)
        return v is c or p.fact(T('eq', v, c)) is True \
            or p.fact(T('eq', c, v)) is True or p.fact(
                T('is', v, c)) is True
    for e in p.st.events():
        if e.recv is ENGINE and e.name == told and len(e.args) == 1:
            cur, loc = e.args[0], e.loc
        elif e.kind == 'interp':
            v = e.snap.field(ip.ref, k)
            if not same(v):
                rep.violation('in-step', inst, e.loc, 'a nested block starts '
                              'with %s while the engine has been told %s' % (
                                  short(v), short(cur)), trace(p))
                return
            cur, loc = after(ip, k, cur, e, e.n in raised), e.loc
    v = p.st.field(ip.ref, k)
    if not same(v):
        rep.violation('in-step', inst, loc or where(p) or ip_loc(ip),
                      'at the end it is %s while the engine has been told '
                      '%s' % (short(v), short(cur)), trace(p))


def ip_loc(ip):
    fn = ip.prog.need_method(ip.cls, 'interpret')
    return (fn.fi.file, fn.fi.node.lineno, fn.fi.qual)


def restored(rep, ip, p, told, k, op):
    start = ip.start_fields[k]
    if op in ('useMacro', 'extendMacro') and told == 'setSourceFile' \
            and p.kind == 'ok':
        rep.seen('restored', op)
        v = p.st.field(ip.ref, k)
        if not same_by_fact(ip, p.st, v, start):
            rep.violation('restored', op, where(p), 'the file is %s '
                          'afterwards' % short(v), trace(p))
    if op == 'onError':
        handler = block(op, 'handler')
        for e in interps(p):
            if p.st.resolve(e.args[0]) is not handler:
                continue
            rep.seen('restored', 'handler ' + told)
            v = e.snap.field(ip.ref, k)
            if not same_by_fact(ip, p.st, v, start):
                rep.violation('restored', op, e.loc, 'the handler starts '
                              'with %s' % short(v), trace(p))


def repeated(rep, ip, p, k, inst, op):
    start = ip.start_fields[k]
    cur = start
    for e in p.st.events():
        if e.recv is ENGINE and e.name == 'setPosition':
            cur = e.args[0]
        elif e.kind == 'interp':
            if not same_by_fact(ip, p.st, cur, start):
                rep.violation('repeated', op, e.loc, 'the block is rendered '
                              'again without the position of the element',
                              trace(p))
                return
            rep.seen('repeated', inst)
            cur = after(ip, k, cur, e, False)
        elif e.recv is ENGINE and e.name in EVALUATES:
            rep.seen('repeated', inst)
            if not same_by_fact(ip, p.st, cur, start):
                rep.violation('repeated', op, e.loc, '%s is called without '
                              'the position of the element' % e.name,
                              trace(p))
                return


# ------------------------------------------------------------ compiling

# directives of an element by kind; # stands for the element
KINDS = {
    'content': dict(tal={'content': '#c'}),
    'attrs': dict(tal={'attributes': 'a #a'}),
    'define': dict(tal={'define': 'v #d; global w #e'}),
    'cond': dict(tal={'condition': '#n'}),
    'repeat': dict(tal={'repeat': 'i #r', 'attributes': 'a #a'}),
    'replace': dict(tal={'replace': 'structure #s', 'attributes': 'a #a'}),
    'onerror': dict(tal={'on-error': '#o', 'define': 'v #d'}),
    'omit': dict(tal={'omit-tag': '#m'}),
    'use': dict(metal={'use-macro': '#u'}),
    'use+': dict(metal={'use-macro': '#u'}, tal={'condition': '#n'}),
    'def': dict(metal={'define-macro': 'm#'}),
    'def+': dict(metal={'define-macro': 'm#'}, tal={'content': '#c',
                                                    'define': 'v #d'}),
    'extend': dict(metal={'define-macro': 'm#', 'extend-macro': '#u'}),
    'slot': dict(metal={'define-slot': 's#'}),
    'slot+': dict(metal={'define-slot': 's#'}, tal={'content': '#c'}),
    'fill': dict(metal={'fill-slot': 'f#'}),
    'fill+': dict(metal={'fill-slot': 'f#'}, tal={'define': 'v #d',
                                                  'content': '#c'}),
    'trans': dict(i18n={'translate': ''}),
    'data': dict(i18n={'translate': 'id#', 'data': '#t'}),
    'name': dict(i18n={'name': 'n#'}, tal={'content': '#c'}),
    'all': dict(tal={'define': 'v #d', 'condition': '#n', 'repeat': 'i #r',
                     'content': '#c', 'attributes': 'a #a',
                     'on-error': '#o', 'omit-tag': '#m'}),
    'plain': {},
}
# pages: open an element of a kind, '/' closes it
PAGES = '''
K /
K plain / /
K content / /
K repeat content / / content /
repeat K / content /
cond K / content / / content /
onerror K / / content /
def K / / content /
def+ K / content / / content /
def+ slot+ K / / content / / content /
def slot K / content / / content / / content /
use fill K / / / content /
use+ fill+ K / content / / content / / content /
use plain fill K / / / / content /
use content fill+ content / / / fill K / / / content /
def use fill K / / / content / / content /
def extend
extend fill+ K / / content / / K /
def use fill slot K / / content / / / / content /
trans name K / / content / / content /
data K / content / /
content use fill K / / / content / /
K K / / content /
repeat slot
def repeat slot+ K / / attrs / / /
def repeat use fill K / / / attrs / / /
K! content /
plain K! content / /
repeat use! content / K! attrs / /
def slot! K! content / / content /
use fill! fill+ slot! content / / / content /
'''.strip().splitlines()


def page_steps(els, page, blank, attrs=()):
    """Steps for a page; with only white space between its tags if blank."""
    steps, stack, n = [], [], 0
    for w in page:
        if w == '/':
            i, _ = stack.pop()
            steps.append(els.text('\n ' if blank else 't%d' % i))
            steps.append(els.end(name='e%d' % i, pos=TUP([C(500 + i),
                                                          C(i)])))
            continue
        d = KINDS[w.strip('!')]
        n += 1
        vals, dirs = {}, {}
        for ns in ('tal', 'metal', 'i18n'):
            dirs[ns] = list(d.get(ns, {}))
            for k, v in d.get(ns, {}).items():
                vals[ns, k] = C(v.replace('#', 'X%d' % n))
        steps.append(els.start(dirs['tal'], dirs['metal'], dirs['i18n'],
                               vals, name='e%d' % n, attrs=attrs,
                               pos=TUP([C(100 + n), C(n)]),
                               isend=int(w.endswith('!!'))))
        if w.endswith('!!'):        # minimised
            continue
        if w.endswith('!'):         # empty
            steps.append(els.end(name='e%d' % n, isend=1, implied=-1,
                                 pos=TUP([C(500 + n), C(n)])))
            continue
        steps.append(els.text('\n ' if blank else 'b%d' % n))
        stack.append((n, w))
    for i, kind in reversed(stack):
        steps.append(els.end(name='e%d' % i, pos=TUP([C(500 + i), C(i)])))
    return steps + [els.code]


def compiled(rep, prog, tier):
    pages = []
    names = list(KINDS)
    for text in PAGES + [t.replace('!', '!!') for t in PAGES if '!' in t]:
        words = text.split()
        if 'K' not in text:
            pages.append(words)
            continue
        for k in names:
            w2 = []
            for w in words:
                w2.append(k + w[1:] if w[0] == 'K' else w)
            pages.append(w2)
    if tier == 'thorough':
        for a in names:
            for b in names:
                for c in names:
                    pages.append([a, b, c, '/', 'content', '/', '/',
                                  'attrs', '/', '/', 'content', '/'])
                    pages.append(['def', a, 'slot', b, '/', c])
    work = [(x, p, bool(i + x & 1)) for x in (0, 1)
            for i, p in enumerate(pages)]
    if tier == 'thorough':
        work += [(x, p, not b) for x, p, b in work]
    for x in (0, 1):
        mine = [w[1:] for w in work if w[0] == x]
        structure.fan(rep, [mine[i::16] for i in range(16)],
                      lambda r, w: several(r, prog, bool(x), w))


def several(rep, prog, xml, pages):
    els = Elements(prog, xml=xml, loop_k=4)
    loc = structure.generator(prog)
    for page, blank in pages:
        label = '%s%s %s' % ('xml' if xml else 'html', ' blank' * blank,
                             ' '.join(page))
        for el in els.steps(*page_steps(els, page, blank)):
            rep.count('compile_paths')
            if el.kind != 'ok':
                if not el.is_tal_error():
                    rep.violation('compiled', label, el.loc(), 'fails with '
                                  '%s' % el.exc_class(), el.facts())
                continue        # rejected
            rep.seen('compiled', label)
            w = Walk()
            w.stale('the end', *w.block(el.program, None, None))
            for b in el.macros.values():
                w.block(b, None, None)
            if w.bad:
                rep.violation('compiled', label, loc, w.bad[0], el.facts())
            rep.count('expressions', w.n)
    rep.use(els.gen.eng)


STALE = 'left over'


class Walk:
    """Positions and files in effect, following a compiled program."""

    def __init__(self):
        self.bad, self.n = [], 0

    def expr(self, op, ex, pos, file):
        if ex is None or ex == '':
            return
        src = expression(ex) if isinstance(ex, V) else ex
        if isinstance(src, Const):
            src = src.v
        if not isinstance(src, str):
            return
        i = src.find('X')
        j = i + 1
        while src[j:j + 1].isdigit():
            j += 1
        if i < 0 or j == i + 1:
            return
        n = int(src[i + 1:j])
        self.n += 1
        if pos != (100 + n, n):
            self.bad.append('%s evaluates %r of element %d while the '
                            'position is %s' % (op, src, n, pos))
        if file is not T('source_file'):
            self.bad.append('%s evaluates %r of element %d while the file '
                            'is not known' % (op, src, n))

    def stale(self, op, pos, file):
        if pos == STALE:
            self.bad.append('%s comes after a macro or slot whose position '
                            'is still in effect' % op)
        if file == STALE:
            self.bad.append('%s comes after a slot whose file is still in '
                            'effect' % op)

    def block(self, prog, pos, file):
        for ins in prog:
            op, arg = ins[0], ins[1] if len(ins) > 1 else None
            if op.startswith('rawtext') or op in ('startTag',
                                                  'startEndTag'):
                self.stale(op, pos, file)
            if op == 'setPosition':
                pos = arg
                if not isinstance(arg, tuple) or not (
                        arg[0] in range(100, 600)):
                    self.bad.append('position %s is announced' % short(
                        arg))
            elif op == 'rawtextBeginScope':
                pos = arg[2]
            elif op == 'setSourceFile':
                file = arg
                if arg is not T('source_file'):
                    self.bad.append('file %s is announced' % short(arg))
            elif op in ('startTag', 'startEndTag'):
                for it in arg[1]:
                    if len(it) > 3:
                        self.expr(op, it[3], pos, file)
            elif op in ('setLocal', 'setGlobal'):
                self.expr(op, arg[1], pos, file)
            elif op == 'condition':
                self.expr(op, arg[0], pos, file)
                pos, file = self.join((pos, file),
                                      self.block(arg[1], pos, file))
            elif op == 'loop':
                self.expr(op, arg[1], pos, file)
                f2 = self.block(arg[2], pos, file)[1]
                if f2 != file:
                    file = STALE if f2 == STALE else None
                    self.block(arg[2], pos, file)
            elif op == 'optTag':
                self.expr(op, arg[1], pos, file)
                pos, file = self.block(arg[4], pos, file)
                pos, file = self.block(arg[5], pos, file)
            elif op in ('insertText', 'insertI18nText'):
                self.expr(op, arg[0], pos, file)
                pos, file = self.join((pos, file),
                                      self.block(arg[1], pos, file))
            elif op in ('insertStructure', 'insertI18nStructure'):
                self.expr(op, arg[0], pos, file)
                for v in arg[1].values():
                    self.expr(op, v[0], pos, file)
                pos, file = self.join((pos, file),
                                      self.block(arg[2], pos, file))
            elif op == 'insertTranslation':
                if len(arg) > 2:
                    self.expr(op, arg[2], pos, file)
                    self.block(arg[1], pos, file)
                else:
                    pos, file = self.block(arg[1], pos, file)
            elif op == 'i18nVariable':
                self.block(arg[1], pos, file)
            elif op == 'onError':
                a = self.block(arg[0], pos, file)
                b = self.block(arg[1], pos, file)
                pos, file = self.join(a, b)
            elif op == 'defineMacro':
                pos, file = self.block(arg[1], pos, file)
            elif op in ('useMacro', 'extendMacro'):
                self.expr(op, arg[1], pos, file)
                for b in arg[2].values():
                    self.block(b, None, None)
                self.block(arg[3], pos, file)
                pos = STALE             # the file: see 'restored'
            elif op == 'defineSlot':
                self.block(arg[1], pos, file)
                pos = file = STALE
            elif op in ('fillSlot', 'evaluateCode'):
                pos, file = self.block(arg[1], pos, file)
        return pos, file

    @staticmethod
    def join(a, b):
        return tuple(x if x == y else STALE if STALE in (x, y) else None
                     for x, y in zip(a, b))
