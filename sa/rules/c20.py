"""Translation requests carry the right id, domain, mapping and default."""
from .common import *
from . import structure
from .elements import Elements
from ..values import HDict, HList

DOM = T('page-domain')
DATA = opnd('insertTranslation', 'data')


def check(rep, prog, tier):
    rep.rule('unit', 'a translation unit makes exactly one request with its '
             'id or its normalised content, the domain in effect, its own '
             'mapping and its content as default, and writes only the '
             'translation', 8)
    rep.rule('mapping', 'the value rendered for a named part is stored under '
             'its name in the mapping of the innermost open unit, and '
             '${name} is written in its place', 4)
    rep.rule('values', 'an inserted message is requested once with the '
             'domain in effect, and its translation is what is inserted', 8)
    rep.rule('attributes', 'a translated attribute is requested once with '
             'its message id or else its value, the domain in effect and '
             'the value as default', 8)
    rep.rule('off', 'with interpolation off nothing is requested', 8)
    rep.rule('handled', 'after an error in a unit named parts belong to the '
             'unit around it again', 1)
    rep.rule('compiled', 'translation directives compile to instructions '
             'with their own message ids, data and names', 10)
    for mode in ('html', 'xml'):
        ip = interp(prog, summarised=True, raises=False)
        ip.protect = set(fields_of(ip, 'mode'))
        try:
            base = domain(ip, ip.moded(mode))
            for tag in ('pre', 'x'):
                units(rep, ip, tagged(ip, base, tag), mode, tag)
            values(rep, ip, base, mode)
            attributes(rep, ip, base, mode)
        finally:
            ip.protect = set()
        rep.use(ip.eng)
    handled(rep, prog)
    compiled(rep, prog)
    structure.compare(rep, prog, 'compiled', ('translate', 'translate=',
                      'data', 'name', 'content', 'replace', 'omit-tag='),
                      size=3 if tier == 'thorough' else 2,
                      need=('translate', 'translate=', 'name'),
                      contexts=('', 'unit'))


def domain(ip, st):
    """The state inside an element with a translation domain."""
    st = st.fork()
    d = ip.eng.alloc(st, HDict([(C('domain'), DOM), (C('source'), NONE),
                                (C('target'), NONE)]))
    ip.eng.nonnull.add(DOM)
    st.facts[DOM] = True
    for p in ip.run('beginI18nContext', '', d, st):
        if p.kind == 'ok':
            s = p.st.fork()
            s.trace, s.n = None, 0
            return s
    raise Broken('no translation context can be opened')


def tagged(ip, st, tag):
    st = st.fork()
    lst = ip.eng.alloc(st, HList([attr('tal')]))
    for p in ip.run('startTag', '', TUP([C(tag), lst]), st):
        if p.kind == 'ok':
            s = p.st.fork()
            s.trace, s.n = None, 0
            return s
    raise Broken('no start tag can be rendered')


def attr(kind):
    from ..interp import attr_item
    return attr_item('startTag', kind)


NAMES = ('msgid', 'domain', 'mapping', 'default')


def requests(p):
    out = []
    for e in engine_calls(p, 'translate'):
        d = dict(zip(NAMES, (p.st.resolve(a) for a in e.args)))
        d.update({k: p.st.resolve(v) for k, v in e.kw})
        d['result'] = e.result
        out.append(d)
    return out


def normalised(v):
    """The content v is the white space normalised form of, or None."""
    if isinstance(v, Term) and v.op == 'join' and v.args[0] is C(' '):
        x = v.args[1]
        if isinstance(x, Term) and x.op == 'm' and x.args[0] == 'split' \
                and len(x.args) == 2:
            return x.args[1]
    return None


def single(v):
    ps = pieces(v) if isinstance(v, Str) else [v]
    return ps[0] if len(ps) == 1 else v


def off(p):
    return p.fact(T('cfg', 'i18nInterpolate')) is False


def always(rep, p, nm, reqs):
    if reqs and p.fact(T('cfg', 'i18nInterpolate')) is None:
        rep.violation('off', nm, where(p), 'a request is made whether '
                      'interpolation is on or off', trace(p))


def units(rep, ip, st, mode, tag):
    op = 'insertTranslation'
    blk = block(op, 'program')
    for variant, spec in operands(op):
        nm = '%s %s <%s>' % (name(op, variant), mode, tag)
        for p in ip.run(op, variant, spec, st):
            rep.count('paths')
            bad = []
            evs = [e for e in interps(p) if e.args[0] is blk]
            if len(evs) != 1 or len(interps(p)) != 1:
                rep.violation('unit', nm, where(p), 'the content is rendered '
                              '%d times' % len(evs), trace(p))
                continue
            content = T('out', blk, C(evs[0].n))
            given = p.fact(opnd(op, 'msgid'))
            reqs = requests(p)
            out = output(p)

            def right(v):
                v = single(v)
                if given:
                    return v is opnd(op, 'msgid')
                if mode == 'html' and tag == 'pre':
                    return v is content
                return normalised(v) is content
            if given is None:
                bad.append('whether there is a message id is not looked at')
            if off(p):
                rep.seen('off', nm)
                if reqs or len(out) != 1 or not right(out[0]):
                    rep.violation('off', nm, where(p), '%d requests, writes '
                                  '%s' % (len(reqs), short(out)), trace(p))
                continue
            always(rep, p, nm, reqs)
            rep.seen('unit', '%s %s' % (nm, given))
            if len(reqs) != 1:
                rep.violation('unit', nm, where(p), '%d requests'
                              % len(reqs), trace(p))
                continue
            r = reqs[0]
            if not right(r.get('msgid', NONE)):
                bad.append('the message id is %s' % short(r.get('msgid')))
            if r.get('domain') is not DOM:
                bad.append('the domain is %s' % short(r.get('domain')))
            if single(r.get('default', NONE)) is not content:
                bad.append('the default is %s' % short(r.get('default')))
            if [single(x) if isinstance(x, V) else x for x in out] != [
                    r['result']]:
                bad.append('writes %s' % short(out))
            data = [e for e in engine_calls(p) if e.name.startswith(
                'evaluate')]
            bad += mapping(ip, p, r.get('mapping'), st, data, variant)
            for b in bad:
                rep.violation('unit', nm, where(p), b, trace(p))
            if not bad and variant == '':
                named(rep, ip, p, r['mapping'], evs[0], nm)


def mapping(ip, p, m, st, data, variant):
    if not isinstance(m, Ref) or m.oid not in p.st.heap \
            or p.st.heap[m.oid].kind != 'dict':
        return ['the mapping is %s' % short(m)]
    if m.oid < ip.prog.base_limit or m.oid in st.heap:
        return ['the mapping is shared with other requests']
    h = p.st.heap[m.oid]
    if variant == 'data':
        if len(data) != 1 or data[0].args[:1] != (DATA,):
            return ['i18n:data is evaluated as %s' % short(
                [e.args for e in data])]
        want = data[0].result if p.fact(data[0].result) is not False \
            else None
        if h.entries or h.base is not want:
            return ['the mapping is %s' % short([h.base, h.entries])]
    elif data or h.entries or h.base is not None:
        return ['the mapping is %s' % short([h.base, h.entries])]
    return []


def inside(ev):
    s = ev.snap.fork()
    s.trace, s.n, s.stack = None, 0, ()
    return s


def named(rep, ip, p, m, ev, nm):
    """What a named part inside the unit does to its mapping m."""
    op = 'i18nVariable'
    blk = block(op, 'program')
    n1, n2 = opnd(op, 'varname'), T('othername')
    spec = operands(op)[0][1]
    for q in ip.run(op, '', spec, inside(ev)):
        if q.kind != 'ok':
            continue
        rep.count('paths')
        rep.seen('mapping', nm)
        if not stored(q, m, {n1: blk}):
            rep.violation('mapping', op, where(q), 'the mapping becomes %s'
                          % show(q, m), trace(q))
            continue
        if not text_of(ip, q, ev, n1):
            rep.violation('mapping', op, where(q), 'a named part is replaced '
                          'by something else than its name', trace(q))
        # a second part adds to it
        second = TUP((n2,) + spec.items[1:])
        s = q.st.fork()
        s.trace, s.n = None, 0
        s.facts[T('eq', n2, n1)] = False
        s.facts[T('eq', n1, n2)] = False
        for r in ip.run(op, '', second, s):
            if r.kind == 'ok' and not stored(r, m, {n1: blk, n2: blk}):
                rep.violation('mapping', op, where(r), 'after a second named '
                              'part the mapping is %s' % show(r, m),
                              trace(r))
                break
        # with the name of the first it takes its place
        again = TUP((n1, block(op, 'again')) + spec.items[2:])
        for r in ip.run(op, '', again, q.st):
            if r.kind == 'ok' and not stored(r, m, {
                    n1: block(op, 'again')}):
                rep.violation('mapping', op, where(r), 'after a named part '
                              'with the same name the mapping is %s'
                              % show(r, m), trace(r))
                break
        # a unit inside a named part has a mapping of its own
        iop = 'insertTranslation'
        for e in interps(q)[:1]:
            for r in ip.run(iop, '', operands(iop)[0][1], inside(e)):
                reqs = requests(r)
                if r.kind != 'ok' or not reqs:
                    continue
                inner = reqs[0].get('mapping')
                if inner is m:
                    rep.violation('mapping', iop, where(r), 'a nested unit '
                                  'uses the mapping of the outer one',
                                  trace(r))
                    break
                bad = False
                for e2 in interps(r)[:1]:
                    for t in ip.run(op, '', spec, inside(e2)):
                        rep.seen('mapping', nm + ' nested')
                        if t.kind != 'ok':
                            continue
                        if not stored(t, inner, {n1: blk}) \
                                or not stored(t, m, {}):
                            rep.violation('mapping', op, where(t), 'a named '
                                          'part of a nested unit gives %s '
                                          'there and %s outside' % (
                                              show(t, inner), show(t, m)),
                                          trace(t))
                            bad = True
                            break
                # afterwards the outer unit gets the parts again
                for t in ip.run(op, '', second, r.st):
                    if t.kind == 'ok' and not stored(t, m, {n2: blk}):
                        rep.violation('mapping', op, where(t), 'after a '
                                      'nested unit the mapping is %s'
                                      % show(t, m), trace(t))
                        bad = True
                        break
                if bad:
                    break


def handled(rep, prog):
    ip = interp(prog, summarised=True)
    op = 'insertTranslation'
    blk = block(op, 'program')
    units = set()
    for p in ip.run(op, '', operands(op)[0][1]):
        for r in requests(p):
            m = r.get('mapping')
            for e in interps(p):
                if e.args[0] is blk:
                    units |= {f for f, v in e.snap.heap[
                        ip.ref.oid].fields.items() if holds(e.snap, v, m)}
    if not units:
        raise Broken('nothing holds the mapping of an open unit')
    op = 'onError'
    for p in ip.run(op, '', operands(op)[0][1]):
        ran = interps(p)
        if len(ran) != 2 or ran[0].n not in dict(p.st.ghost.get(
                'raised', ())):
            continue
        rep.count('paths')
        now = ip.snapshot(ran[1].snap)
        rep.seen('handled', op)
        for f in sorted(units & set(ip.changed(ip.start_fields, now))):
            rep.violation('handled', op, ran[1].loc, 'when an error is '
                          'handled %s is %s, the failed units are still '
                          'open' % (f, short(now.get(f))), trace(p))
    rep.use(ip.eng)


def holds(st, v, m):
    """Is m the value v, or in the list v directly or in a tuple?"""
    if not isinstance(v, Ref) or v.oid not in st.heap \
            or st.heap[v.oid].kind != 'list':
        return False
    return any(x is m or isinstance(x, Tup) and m in x.items
               or isinstance(x, Ref) and x.oid in st.heap
               and m in getattr(st.heap[x.oid], 'items', ())
               or isinstance(x, Ref) and x.oid in st.heap
               and m in getattr(st.heap[x.oid], 'fields', {}).values()
               for x in st.heap[v.oid].items)


def show(p, m):
    h = p.st.heap.get(m.oid)
    return short([h.base, h.entries]) if h is not None else '-'


def stored(p, m, want):
    h = p.st.heap.get(m.oid)
    if h is None or h.kind != 'dict' or h.base is not None:
        return False
    got = {p.st.resolve(k): single(p.st.resolve(v)) for k, v in h.entries}
    if set(got) != set(want):
        return False
    for k, b in want.items():
        v = got[k]
        if not is_out(v, b) and not is_out(normalised(v), b):
            return False
    return True


def text_of(ip, q, ev, nm):
    """What the named part adds to the captured content."""
    a = ip.cur_stream(inside(ev))
    b = ip.cur_stream(q.st)
    if isinstance(a, Ref) and a is b:
        x = ip.eng.get_list(ev.snap, a)
        y = ip.eng.get_list(q.st, b)
        if x is not None and y is not None:
            new = S(list(y.items[len(x.items):]))
            return pieces(new) == ['${', nm, '}']
    return False


VALUE_OPS = ('insertText', 'insertI18nText', 'insertStructure',
             'insertI18nStructure')


def is_message(p, v):
    """Facts about the type of v: (message, text)."""
    msg = txt = None
    for t, val in p.st.facts.items():
        if isinstance(t, Term) and t.op in ('isinstance', 'isinst') \
                and single(t.args[0]) is v:
            r = repr(t.args[1:])
            if 'Message' in r:
                msg = val
            elif 'str' in r:
                txt = val
    return msg, txt


def values(rep, ip, st, mode):
    for op in VALUE_OPS:
        for variant, spec in operands(op):
            nm = '%s %s' % (name(op, variant), mode)
            for p in ip.run(op, variant, spec, st):
                rep.count('paths')
                evs = [e for e in engine_calls(p)
                       if e.name.startswith('evaluate')]
                if len(evs) != 1:
                    continue        # decided by C02
                v = evs[0].result
                reqs = requests(p)
                own = p.fact(T('is', v, NONE)) is True \
                    or p.fact(T('is', v, DEFAULT)) is True
                msg, txt = is_message(p, v)
                if own:
                    want = (0,)
                elif msg:
                    want = (1,)
                elif 'I18n' in op:
                    want = (0, 1) if txt is False else (1,)
                else:
                    want = (0,)
                if off(p):
                    rep.seen('off', nm)
                    if reqs:
                        rep.violation('off', nm, where(p), 'a request is '
                                      'made', trace(p))
                    continue
                always(rep, p, nm, reqs)
                rep.seen('values', '%s %s %s %s' % (nm, msg, txt, own))
                if len(reqs) not in want:
                    rep.violation('values', nm, where(p), '%d requests for '
                                  '%s' % (len(reqs), 'no value' if own else
                                          'a message' if msg else 'text'),
                                  trace(p))
                for r in reqs:
                    bad = []
                    if single(r.get('msgid', NONE)) is not v:
                        bad.append('the message id is %s' % short(
                            r.get('msgid')))
                    if r.get('domain') is not DOM:
                        bad.append('the domain is %s' % short(
                            r.get('domain')))
                    bad += mapping(ip, p, r.get('mapping'), st, [], '')
                    if not uses(p, r['result']):
                        bad.append('the translation is not inserted')
                    for b in bad:
                        rep.violation('values', nm, where(p), b, trace(p))


def uses(p, v):
    for e in p.st.events():
        if e.name == 'translate':
            continue
        for a in e.args:
            a = p.st.resolve(a) if isinstance(a, V) else a
            if isinstance(a, V) and any(x is v for x in walk(a)):
                return True
    return False


ATTR = ('replace', 'insert', 'replace-i18n', 'insert-i18n')


def attributes(rep, ip, st, mode):
    nm0, val0 = T('attrname', C(0)), T('attrvalue', C(0))
    for kind in ATTR:
        for xl in (True, False):
            if not xl and 'i18n' in kind:
                continue
            s = st.fork()
            it = attr(kind).items
            it = TUP(it[:4] + (C(xl),) + it[5:])
            spec = TUP([opnd('startTag', 'name'),
                        ip.eng.alloc(s, HList([it]))])
            lab = '%s %s xlat=%d' % (kind, mode, xl)
            for p in ip.run('startTag', kind, spec, s):
                rep.count('paths')
                reqs = requests(p)
                out = output(p)
                evs = [e for e in engine_calls(p)
                       if e.name.startswith('evaluate')]
                dropped = not any(x is nm0 for x in out)
                if off(p):
                    rep.seen('off', lab)
                    if reqs:
                        rep.violation('off', 'attribute ' + kind, where(p),
                                      'a request is made', trace(p))
                    mid = T('attrmsgid', C(0))
                    if xl and not dropped and p.fact(mid) is not False \
                            and not any(y is mid for x in out
                                        if isinstance(x, V)
                                        for y in walk(x)):
                        rep.violation('off', 'attribute ' + kind, where(p),
                                      'the message id is not written but %s'
                                      % short(out), trace(p))
                    continue
                always(rep, p, 'attribute ' + kind, reqs)
                rep.seen('attributes', lab)
                v = val0 if kind.startswith('replace') else NONE
                boolean = False
                if evs:
                    r = evs[0].result
                    boolean = evs[0].name == 'evaluateBoolean'
                    if p.fact(T('is', r, DEFAULT)) is not True:
                        v = NONE if boolean else r
                msg, txt = is_message(p, v)
                if dropped:
                    want = 0
                elif xl:
                    want = 1
                else:
                    want = 1 if msg else 0
                if not dropped and not xl and msg is None and v is not NONE:
                    rep.violation('attributes', 'attribute ' + kind,
                                  where(p), 'whether the value is a message '
                                  'is not looked at', trace(p))
                if len(reqs) != want:
                    rep.violation('attributes', 'attribute ' + kind,
                                  where(p), '%d requests instead of %d' % (
                                      len(reqs), want), trace(p))
                    continue
                for r in reqs:
                    bad = []
                    mid = T('attrmsgid', C(0))
                    given = p.fact(mid) if xl else False
                    if given is None:
                        bad.append('whether there is a message id is not '
                                   'looked at')
                    m = single(r.get('msgid', NONE))
                    if m is not (mid if given else p.st.resolve(v)):
                        bad.append('the message id is %s' % short(m))
                    if r.get('domain') is not DOM:
                        bad.append('the domain is %s' % short(
                            r.get('domain')))
                    d = r.get('default', NONE)
                    if xl and v is not NONE and single(d) is not v \
                            and p.fact(T('is', v, NONE)) is not True:
                        bad.append('the default is %s' % short(d))
                    bad += mapping(ip, p, r.get('mapping'), st, [], '')
                    none = p.fact(T('is', r['result'], NONE))
                    if none is not True and not any(
                            y is r['result'] for x in out
                            if isinstance(x, V) for y in walk(x)):
                        bad.append('the translation is not written')
                    for b in bad:
                        rep.violation('attributes', 'attribute ' + kind,
                                      where(p), b, trace(p))


CASES = [
    # tal:attributes, i18n:attributes, {name: (expression, msgid)}
    (None, 'title', {'title': (None, True, None)}),
    (None, 'title msg', {'title': (None, True, 'msg')}),
    (None, 'title msg; alt', {'title': (None, True, 'msg'),
                              'alt': (None, True, None)}),
    (None, 'alt; title msg', {'title': (None, True, 'msg'),
                              'alt': (None, True, None)}),
    (None, 'title m1;alt m2;', {'title': (None, True, 'm1'),
                                'alt': (None, True, 'm2')}),
    ('title a', 'title', {'title': ('a', True, None)}),
    ('title a', 'alt', {'title': ('a', False, None),
                        'alt': (None, True, None)}),
    ('title a; alt b', 'alt; src msg', {
        'title': ('a', False, None), 'alt': ('b', True, None),
        'src': (None, True, 'msg')}),
    ('title a', None, {'title': ('a', False, None)}),
    (None, 'title Some-Msg', {'title': (None, True, 'Some-Msg')}),
    (None, ' title  m.1_X ;\n alt\tM2', {'title': (None, True, 'm.1_X'),
                                       'alt': (None, True, 'M2')}),
]


def compiled(rep, prog):
    for xml in (0, 1):
        els = Elements(prog, xml=bool(xml))
        for tal, i18n, want in CASES:
            vals = {}
            if tal:
                vals['tal', 'attributes'] = C(tal)
            if i18n:
                vals['i18n', 'attributes'] = C(i18n)
            inst = '%s %s / %s' % ('xml' if xml else 'html', tal, i18n)
            static = [TUP([C('title'), C('T')]), TUP([C('alt'), C('A')])]
            good = False
            for el in els.run(['attributes'] if tal else [], [],
                              ['attributes'] if i18n else [], vals,
                              attrs=static):
                rep.count('compile_paths')
                rep.seen('compiled', inst)
                if el.kind != 'ok':
                    rep.violation('compiled', inst, el.loc(), 'fails with %s'
                                  % el.exc_text(), el.facts())
                    continue
                good = True
                got = {}
                for op, arg in el.ops():
                    if op != 'startTag':
                        continue
                    for it in arg[1]:
                        if len(it) == 6:
                            e = it[3]
                            if isinstance(e, Term) and e.op == 'cexpr':
                                e = e.args[0]
                                e = e.v if isinstance(e, Const) else e
                            got[it[0]] = (e, bool(it[4])
                                          if not isinstance(it[4], V)
                                          else it[4], it[5])
                if got != want:
                    rep.violation('compiled', inst, el.loc(), 'the '
                                  'attributes compile to %s' % short(got),
                                  el.facts())
            if not good:
                rep.violation('compiled', inst, els.gen and el.loc(),
                              'never accepted', [])
        # operands of the translation instructions
        for i18n, empty, none in (
                (['translate'], (), ''), (['translate'], ('translate',), ''),
                (['translate'], ('translate',), None),
                (['translate', 'data'], (), '')):
            if none is None and xml:
                continue
            for el in els.run([], [], i18n, {k: C(none) for k in empty}):
                rep.seen('compiled', 'operands %d %s %s %r' % (
                    xml, '+'.join(i18n), empty, none))
                if el.kind != 'ok':
                    continue
                ops = [a for o, a in el.ops() if o == 'insertTranslation']
                ok = len(ops) == 1
                if ok:
                    a = ops[0]
                    m = a[0]
                    ok = (m == '' if empty else m is T('dir', 'i18n',
                                                       'translate'))
                    ok = ok and (len(a) == 3) == ('data' in i18n)
                    if ok and len(a) == 3:
                        ok = isinstance(a[2], Term) and a[2].op == 'cexpr' \
                            and any(x is T('dir', 'i18n', 'data')
                                    for x in walk(a[2]))
                if not ok:
                    rep.violation('compiled', 'i18n:translate', el.loc(),
                                  'compiles to %s' % short(ops), el.facts())
        for el in els.run([], [], ['name'], outer=[((), (),
                                                    ('translate',))]):
            if el.kind != 'ok':
                continue
            rep.seen('compiled', 'operands %d name' % xml)
            ops = [a for o, a in el.ops() if o == 'i18nVariable']
            if len(ops) != 1 or ops[0][0] is not T('dir', 'i18n', 'name'):
                rep.violation('compiled', 'i18n:name', el.loc(), 'compiles '
                              'to %s' % short(ops), el.facts())
        rep.use(els.gen.eng)
