"""The translation domain in effect is that of the enclosing markup."""
import itertools

from .common import *
from .c20 import requests
from .elements import Elements
from ..values import HDict
from . import structure

KEYS = ('domain', 'source', 'target')


def check(rep, prog, tier):
    rep.rule('nesting', 'a context opened while rendering gives its own '
             'domain or else the enclosing one, and closing it gives the '
             'enclosing one back', 6)
    rep.rule('default', 'outside every context requests are made in the '
             'domain named default', 1)
    rep.rule('declared', 'a translated element is compiled to be rendered in '
             'the domain, source and target declared nearest around it in '
             'its template, also in slots and slot fillers', 60)
    rep.rule('pairs', 'every context opened is closed, in every block', 60)
    ip = interp(prog, raises=False)
    rep.rule('fallback', 'domain, source and target of a context each fall '
             'back to those of the enclosing context', 8)
    nesting(rep, ip)
    fallback(rep, ip)
    default(rep, ip)
    rep.use(ip.eng)
    declared(rep, prog, tier)
    structure.compare(rep, prog, 'pairs', ('domain', 'source', 'target',
                      'translate=', 'define-slot', 'condition'), size=2,
                      need=('domain', 'source', 'target', 'define-slot'),
                      contexts=('', 'def', 'use', 'domain', 'domain-def', 'after-domain',
                                'domain-after-domain'))


# ------------------------------------------------------------ rendering

def opened(ip, st, domain):
    st = st.fork()
    d = ip.eng.alloc(st, HDict([(C('domain'), domain), (C('source'), NONE),
                                (C('target'), NONE)]))
    outs = [p for p in ip.run('beginI18nContext', '', d, st)
            if p.kind == 'ok']
    if not outs:
        raise Broken('no translation context can be opened')
    return outs


def closed(ip, st):
    return [p for p in ip.run('endI18nContext', '', TUP([]), st)
            if p.kind == 'ok']


def domains(ip, st):
    """The domains requests are made in."""
    op = 'insertTranslation'
    out = []
    for p in ip.run(op, '', operands(op)[0][1], st):
        for r in requests(p):
            out.append((r.get('domain'), p))
    return out


def nesting(rep, ip):
    d1, d2 = T('domain1'), T('domain2')
    for d in (d1, d2):
        ip.eng.nonnull.add(d)
    base = ip.moded('html').fork()
    base.facts[d1] = base.facts[d2] = True
    for k in fields_of(ip, 'beginI18nContext'):
        if isinstance(ip.start_fields.get(k), V):
            base.facts[ip.start_fields[k]] = True   # there is a context
    d0s = {d for d, p in domains(ip, base)}
    if len(d0s) != 1:
        raise Broken('requests are made in %d domains' % len(d0s))
    d0 = d0s.pop()

    def expect(st, want, label):
        for d, p in domains(ip, st):
            rep.count('paths')
            rep.seen('nesting', label)
            if d is not want and not (isinstance(d, Const) and d is want):
                rep.violation('nesting', label, where(p), 'the domain of a '
                              'request is %s instead of %s' % (
                                  short(d), short(want)), trace(p))
    for seq in itertools.product((d1, d2, NONE), repeat=2):
        lab = '+'.join('none' if x is NONE else x.op for x in seq)
        sts = [base]
        cur = d0
        doms = [d0]
        for x in seq:
            cur = x if x is not NONE else cur
            doms.append(cur)
            sts = [p.st for s in sts for p in opened(ip, s, x)]
            for s in sts:
                expect(s, cur, lab + ' opened')
        for i in range(len(seq)):
            doms.pop()
            sts = [p.st for s in sts for p in closed(ip, s)]
            if not sts:
                rep.violation('nesting', lab, ip_loc(ip), 'a context cannot '
                              'be closed', [])
            for s in sts:
                if doms[-1] is d0 and not any(x is not NONE for x in
                                              seq[:len(doms) - 1]):
                    expect(s, d0, lab + ' closed')
                else:
                    expect(s, doms[-1], lab + ' closed')



def fallback(rep, ip):
    """Each of domain, source and target falls back on its own."""
    vals = {k: (T('outer ' + k), T('inner ' + k)) for k in KEYS}
    base = ip.moded('html').fork()
    for pair in vals.values():
        for v in pair:
            ip.eng.nonnull.add(v)
            base.facts[v] = True
    field = fields_of(ip, 'beginI18nContext')
    for k in field:
        if isinstance(ip.start_fields.get(k), V):
            base.facts[ip.start_fields[k]] = True
    full = {k: v[0] for k, v in vals.items()}
    for own in itertools.product((False, True), repeat=3):
        mine = {k: vals[k][1] for k, o in zip(KEYS, own) if o}
        lab = 'own ' + ('+'.join(sorted(mine)) or 'nothing')
        for missing in ('none', 'absent'):
            for s in settings(ip, base, full, 'none'):
                for t in settings(ip, s, mine, missing):
                    rep.count('paths')
                    rep.seen('fallback', '%s %s' % (lab, missing))
                    for k in KEYS:
                        want = mine.get(k, full[k])
                        got = [read(ip, t, f, k) for f in field]
                        if want not in got:
                            rep.violation('fallback', lab, ip_loc(ip),
                                          'with its %s the %s of a context '
                                          'is %s instead of %s' % (
                                              lab, k, short(got),
                                              short(want)), [])


def settings(ip, st, d, missing):
    st = st.fork()
    d = ip.eng.alloc(st, HDict([
        (C(k), d.get(k, NONE)) for k in KEYS
        if k in d or missing == 'none']))
    return [p.st for p in ip.run('beginI18nContext', '', d, st)
            if p.kind == 'ok']


def read(ip, st, field, key):
    """Attribute key of the context an attribute of the renderer holds."""
    v = st.field(ip.ref, field)
    if isinstance(v, Ref) and v.oid in st.heap \
            and st.heap[v.oid].kind == 'inst':
        r = st.heap[v.oid].fields.get(key)
        return None if r is None else st.resolve(r)
    return None


def ip_loc(ip):
    fn = ip.prog.need_method(ip.cls, 'interpret')
    return (fn.fi.file, fn.fi.node.lineno, fn.fi.qual)


def default(rep, ip):
    s = ip.init_state.fork()
    s.trace, s.n, s.stack = None, 0, ()
    s.ghost = {'depth': 0, 'mindepth': 0}
    for d, p in domains(ip, s):
        rep.count('paths')
        rep.seen('default', 'request')
        if d is not C('default'):
            rep.violation('default', 'insertTranslation', where(p),
                          'the domain is %s' % short(d), trace(p))


# ------------------------------------------------------------ compiling

KINDS = {
    'plain': ((), (), {}),
    'd1': ((), ('domain',), {'domain': 'd1'}),
    'd2': ((), ('domain',), {'domain': 'd2'}),
    'dd': ((), ('domain',), {'domain': 'default'}),
    's1': ((), ('source',), {'source': 's1'}),
    't1': ((), ('target',), {'target': 't1'}),
    'd1+s1': ((), ('domain', 'source'), {'domain': 'd1', 'source': 's1'}),
    't1+translate': ((), ('target', 'translate'),
                     {'target': 't1', 'translate': ''}),
    'translate': ((), ('translate',), {'translate': ''}),
    'def': (('define-macro',), (), {}),
    'slot': (('define-slot',), (), {}),
    'slot+d2': (('define-slot',), ('domain',), {'domain': 'd2'}),
    'use': (('use-macro',), (), {}),
    'use+d2': (('use-macro',), ('domain',), {'domain': 'd2'}),
    'fill': (('fill-slot',), (), {}),
    'fill+d2': (('fill-slot',), ('domain',), {'domain': 'd2'}),
}
I18N = ('d1', 'd2', 'dd', 's1', 't1', 'translate', 'd1+s1', 't1+translate')
# elements around the translated one, outermost first; a nested list is a
# complete sibling before it
SHAPES = [()] + [(k,) for k in I18N + ('plain',)] + list(
    itertools.product(('d1', 's1', 'plain'), ('d2', 'dd', 't1',
                                              'translate', 'plain'))) + [
    ('d1', 'd2', 's1'), ('d1', 's1', 'd2'), ('d1', 'dd', 't1'),
    (['d1'],), (['d1'], 'd2'), ('d1', ['d2']), ('d1', ['dd'], 't1'),
    (['d1/'],), (['d1/'], 'd2'), ('d1', ['d2/']), ('d1', ['d2-']),
    (['d1', 's1/'],), ('s1', ['translate/']), ('d1', ['t1+translate-']),
    ('d1', 'def', ['slot+d2/']), ('d1', 'use', ['fill+d2/'], 'fill'),
    ('d1', ['use+d2/']), (['d1+s1-'], 't1'), ('d1+s1', ['t1/'], 'use', 'fill'),
    ('d1', 's1', 't1', 'use', 'fill'), ('d1', 'use', 'fill', 's1'),
    ('d1+s1', 'use', 'fill', 't1'), ('d1+s1', 'use', 'fill', 'd2'),
    ('t1', 'use', 'fill', 's1'),
    (['d1', 'd2'],), ('s1', ['t1']), ('translate', ['d1']),
    ('d1', 'def'), ('def', 'd1'), ('d1', 'def', 'slot'),
    ('def', 'd1', 'slot'), ('d1', 'def', 'slot+d2'), ('def', 'slot'),
    ('def', 'slot', 'd1'), ('def', 'd1', ['slot+d2']),
    ('d1', 'use', 'fill'), ('d1', 'use', 'fill+d2'), ('use', 'fill'),
    ('use', 'fill', 'd1'), ('d1', 'use+d2', 'fill'), ('use+d2', 'fill'),
    ('d1', 'use', ['fill'], 'fill'), ('d1', 'use', ['fill+d2'], 'fill'),
    ('d1', ['use', 'fill+d2']), ('d1', 'use', 'fill', 'use', 'fill'),
    ('d1', 'use', 'fill', 't1'), ('dd', 'use', 'fill'),
    ('s1', 'use', 'fill'), ('d1', 'def', 'use+d2', 'fill'),
]


def _deep():
    ks = ('plain', 'd1', 'd2', 'dd', 's1', 't1', 'd1+s1', 'translate')
    return list(itertools.product(ks, repeat=3)) + [
        (list(a), b) for a in itertools.product(ks, repeat=2) for b in ks]


def steps_of(els, shp, n=0):
    """Steps, the expected settings of the probe and whether any is
    declared."""
    out, close = [], []
    eff = dict(domain='default', source=None, target=None)
    decl = False
    for k in shp:
        n += 1
        if isinstance(k, list):
            inner = [els.text('@s%d@' % n)]
            ends = []
            for j, kk in enumerate(k):
                nm = 's%d%d' % (n, j)
                if kk[-1] == '/':       # <s/>
                    inner = [elem(els, kk[:-1], nm, 1)]
                    continue
                out.append(elem(els, kk.rstrip('-'), nm))
                # - for an element that HTML knows to be empty
                ends.append(els.end(name=nm, isend=1, implied=-1)
                            if kk[-1] == '-' else els.end(name=nm))
                if kk[-1] == '-':
                    inner = []
            out += inner + ends[::-1]
            continue
        vals = {a: b for a, b in KINDS[k][2].items() if a in KEYS}
        eff.update(vals)
        decl = decl or any(v != 'default' for v in vals.values())
        out.append(elem(els, k, 'e%d' % n))
        close.append(els.end(name='e%d' % n))
    return out, close[::-1], eff, decl


def elem(els, kind, nm, isend=0):
    metal, i18n, vals = KINDS[kind]
    values = {('i18n', k): C(v) for k, v in vals.items()}
    for m in metal:
        values['metal', m] = C(nm)
    return els.start((), metal, i18n, values, name=nm, attrs=[],
                     isend=isend)


def label(shp):
    return ' > '.join('[%s]' % ' > '.join(k) if isinstance(k, list) else k
                      for k in shp) or '-'


def _task(arg):
    key, items = arg
    prog, xml, extra = structure._shared[key]
    els = Elements(prog, xml=bool(xml))
    out = []
    for shp in items:
        a, z, eff, decl = steps_of(els, shp)
        probe = els.start((), (), ('translate',), {
            ('i18n', 'translate'): C('probe')}, name='probe', attrs=[])
        mid = [probe, els.text('x'), els.end(name='probe')]
        mid += [els.start((), (), ('attributes',), {
            ('i18n', 'attributes'): C('title')}, name='at',
            attrs=[TUP([C('title'), C('T')])]), els.end(name='at')]
        for k in KEYS:
            mid += [els.start((), (), ('translate', k), {
                ('i18n', 'translate'): C('own ' + k), ('i18n', k): C('own')},
                name='o' + k, attrs=[]), els.text('z'), els.end(
                    name='o' + k)]
        mid += [els.start(('content',), (), ('translate',), {
            ('i18n', 'translate'): C('')}, name='tc', attrs=[]),
            els.text('y'), els.end(name='tc')]
        if shp and shp[-1] in ('slot', 'slot+d2'):
            # without a directive of its own: the slot gives the domain
            mid += [els.start(('content',), (), (), name='value', attrs=[]),
                    els.text('y'), els.end(name='value')]
        bad = []
        n = good = 0
        for el in els.steps(*(a + mid + z + [els.code])):
            n += 1
            if el.kind != 'ok':
                bad.append(('fails with %s' % el.exc_text(), el.facts()))
                continue
            good += 1
            found = []
            walk_program(el.program, [TOP], found, bad)
            for m in el.macros.values():
                walk_program(m, [UNKNOWN], found, bad)
            if len(found) < 6:
                bad.append(('a translated element is lost', el.facts()))
            for own, ctx in found:
                if own:
                    if {k: ctx.get(k) for k in KEYS} != dict(
                            eff, **{own: 'own'}) and (
                                decl or ctx.get(own) != 'own'):
                        bad.append(('an element with a %s of its own is '
                                    'rendered with %s' % (own, ctx),
                                    el.facts()))
                    continue
                if ctx is UNKNOWN and not decl:
                    continue
                if ctx is UNKNOWN:
                    bad.append(('%s is rendered in the domain of whoever '
                                'renders it instead of %s' % (
                                    'the element', eff), el.facts()))
                elif {k: ctx.get(k) for k in KEYS} != eff:
                    bad.append(('the element is rendered with %s instead of '
                                '%s' % (ctx, eff), el.facts()))
        out.append((label(shp), n, [(m, [str(x)[:300] for x in f])
                                    for m, f in bad]))
    seen = sorted({(f.file, f.qual) for f in els.gen.eng.functions_seen})
    return out, seen


TOP = dict(domain='default', source=None, target=None)
UNKNOWN = None


def walk_program(prog, ctx, found, bad):
    """Collect the settings in effect at each probe."""
    n = len(ctx)
    ctx = list(ctx)
    for ins in prog:
        op, arg = ins[0], ins[1] if len(ins) > 1 else None
        if op == 'beginI18nContext':
            d = dict(arg)
            cur = ctx[-1]
            for k in KEYS:
                if d.get(k) is None:
                    d[k] = cur[k] if cur else None
            ctx.append(d)
        elif op == 'endI18nContext':
            if len(ctx) <= n:
                bad.append(('a context is closed that was not opened', []))
                return
            ctx.pop()
        elif op == 'insertTranslation' and arg[0] == 'probe':
            found.append((None, ctx[-1]))
        elif op == 'insertTranslation' and arg[0][:4] == 'own ':
            found.append((arg[0][4:], ctx[-1]))
        elif op in ('startTag', 'startEndTag'):
            if any(len(i) > 4 and i[4] for i in arg[1]):
                found.append((None, ctx[-1]))
            continue
        elif op in ('insertText', 'insertI18nText', 'insertStructure',
                    'insertI18nStructure'):
            found.append((None, ctx[-1]))
        elif isinstance(arg, tuple):
            for x in arg:
                if isinstance(x, list):
                    walk_program(x, ctx[-1:], found, bad)
                elif isinstance(x, dict) and op in ('useMacro',
                                                    'extendMacro'):
                    for y in x.values():
                        if isinstance(y, list):
                            walk_program(y, [UNKNOWN], found, bad)
    if len(ctx) != n:
        bad.append(('a context is left open', []))


def declared(rep, prog, tier):
    shapes = list(SHAPES)
    if tier == 'thorough':
        shapes += [s for s in _deep() if s not in shapes]
    for xml in (0, 1):
        key = len(structure._shared)
        structure._shared[key] = (prog, xml, None)
        for lab, n, bad in structure.parallel(rep, key, shapes, _task):
            rep.seen('declared', '%s %s' % (lab, 'xml' if xml else 'html'))
            rep.count('compile_paths', n)
            for msg, facts in bad:
                rep.violation('declared', lab, structure.generator(prog),
                              msg, facts)
