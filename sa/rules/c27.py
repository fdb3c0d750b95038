"""Source annotations appear once, first and not before an XML declaration."""
from .common import *
from ..values import HList

import re

FILE = T('annotated-file')
TEXT = T('text2')
# output of these is captured and used as data
CAPTURING = ('insertTranslation', 'i18nVariable', 'evaluateCode')


def check(rep, prog, tier):
    rep.rule('text', 'announced, the annotation is written directly before '
             'the first text that is not blank, after an XML declaration '
             'and not at all before blank text', 6)
    rep.rule('once', 'whatever instruction follows an announcement, the '
             'annotation is written exactly once, before the first '
             'non-blank output of it or of what comes later', 20)
    rep.rule('blocks', 'a nested block whose output is not used as data '
             'starts ready to write the annotation if it is still due', 6)
    rep.rule('data', 'no annotation gets into text that is used as data, in '
             'whatever way the text is made', 40)
    rep.rule('late', 'announced at the end of a nested block, the '
             'annotation comes after the output of the block and before '
             'the next', 6)
    rep.rule('error', 'after a handled error the annotation is due exactly '
             'if it was before the element', 4)
    rep.rule('columns', 'an annotation does not change what is known about '
             'the output', 20)
    rep.rule('unannounced', 'without an announcement no annotation is '
             'written', 20)
    rep.rule('names', 'the annotation is a comment naming the announced '
             'file and the current line', 4)
    rep.rule('off', 'with annotations off none is written', 2)
    for mode in ('html', 'xml') if tier == 'thorough' else ('html',):
        ip = interp(prog, annotate=True, raises=False)
        a = outermost(ip, ip.moded(mode))
        b = announce(ip, a)
        text(rep, ip, b, mode)
        each(rep, ip, a, b, mode)
        data(rep, ip, a, b, mode)
        late(rep, ip, a, mode)
        ip2 = interp(prog, annotate=True)
        handled(rep, ip2, outermost(ip2, ip2.moded(mode)), mode)
        rep.use(ip.eng)
        off = interp(prog, raises=False)
        for p in off.run('setSourceFile', '', FILE, off.moded(mode)):
            for q in follow(off, p.st):
                rep.seen('off', '%s %d' % (mode, len(q.st.facts)))
                if output(q) != [TEXT] or output(p):
                    rep.violation('off', 'rawtextOffset', where(q), 'writes '
                                  '%s' % short(output(q)), trace(q))
    for p in interp(prog, raises=False).run('setSourceFile', '', FILE):
        rep.seen('off', 'announcement')


def outermost(ip, st):
    """The state where nothing is captured."""
    raises, ip.raises = ip.raises, False
    st = st.fork()
    fields = set()
    for op in CAPTURING:
        for variant, spec in operands(op):
            for p in ip.run(op, variant, spec, st):
                for e in interps(p):
                    fields |= set(ip.changed(ip.start_fields,
                                             ip.snapshot(e.snap)))
    for k in fields - {ip.stream_field}:
        v, old = st.field(ip.ref, k), ip.fields0.get(k)
        if isinstance(v, Ref) and isinstance(old, Ref) \
                and st.heap[v.oid].kind == 'list':
            st.heap[v.oid] = HList(ip.init_state.heap[old.oid].items)
        elif isinstance(old, Const):
            st.setfield(ip.ref, k, old)
    ip.raises = raises
    return st


def announce(ip, st):
    outs = [p for p in ip.run('setSourceFile', '', FILE, st)
            if p.kind == 'ok']
    if len(outs) != 1:
        raise Broken('announcing a source file has %d outcomes' % len(outs))
    if output(outs[0]):
        raise Broken('announcing a source file writes something')
    return outs[0].st


def follow(ip, st):
    """Paths of writing one more text."""
    raises, ip.raises = ip.raises, False
    try:
        return ip.run('rawtextOffset', '', TUP([TEXT, T('len', TEXT)]), st)
    finally:
        ip.raises = raises


def is_comment(vals):
    """Literal start and end of a comment that mentions the file."""
    return vals and isinstance(vals[0], str) and vals[0].startswith('<!--') \
        and isinstance(vals[-1], str) and vals[-1].endswith('-->')


def writes(p, kept=False):
    """[(kind, value)] of what is written; kind 'note' for annotations."""
    out = []
    vs = [p.st.resolve(e.args[0]) if e.args else NONE
          for e in stream_writes(p)]
    if kept:
        # and of what is kept in memory
        s = p.st.resolve(p.st.field(p.ip.ref, p.ip.stream_field))
        lst = p.ip.eng.get_list(p.st, s) if isinstance(s, Ref) else None
        if lst is not None:
            vs += lst.items
    for v in vs:
        vals = pieces(v)
        if is_comment(vals) and any(x is FILE for y in vals
                                    if isinstance(y, V) for x in walk(y)):
            out.append(('note', vals))
            continue
        if not any(x is FILE for x in walk(v)):
            out.append(('out', v))
            continue
        # an annotation inside captured text that is written later
        cur = []
        i = 0
        while i < len(vals):
            x = vals[i]
            if isinstance(x, str) and '<!--' in x:
                j = i
                while j < len(vals) and not (
                        isinstance(vals[j], str) and '-->' in vals[j]
                        and j > i):
                    j += 1
                seg = vals[i:j + 1]
                if any(y is FILE for z in seg if isinstance(z, V)
                       for y in walk(z)):
                    pre = x[:x.index('<!--')]
                    post = seg[-1][seg[-1].index('-->') + 3:]
                    if pre or cur:
                        cur = cur + ([C(pre)] if pre else [])
                        out.append(('out', S(cur) if len(cur) > 1
                                    else cur[0]))
                    cur = [C(post)] if post else []
                    out.append(('note', [x[x.index('<!--'):]] + seg[1:-1]
                                + [seg[-1][:len(seg[-1]) - len(post)]]))
                    i = j + 1
                    continue
            cur.append(C(x) if isinstance(x, str) else x)
            i += 1
        if cur:
            out.append(('out', S(cur) if len(cur) > 1 else cur[0]))
    return out


def text_class(p, t):
    """blank, xml, plain or None."""
    blank = p.fact(T('m', 'isspace', t))
    if blank is None:
        d = p.fact(T('m', 'strip', t))
        if d is not None:
            blank = not d
    xml = None
    d = p.fact(T('lt', T('m', 'find', t, C('<?xml')), C(0)))
    if d is not None:
        xml = not d
    for q in (T('in', C('<?xml'), t), T('m', 'startswith', t, C('<?xml'))):
        d = p.fact(q)
        if d is not None:
            xml = d
    d = p.fact(T('eq', T('m', 'find', t, C('<?xml')), C(-1)))
    if d is not None:
        xml = not d
    if xml:
        return 'xml'
    if blank:
        return 'blank'
    if xml is False and blank is False:
        return 'plain'
    return None


def found_end(p, t):
    return any(v and f.op == 'lt' and '?>' in repr(f.args[1])
               and f.args[1].op == 'm' and f.args[1].args[1] is t
               for f, v in p.st.facts.items()
               if isinstance(f, Term) and len(f.args) == 2
               and isinstance(f.args[1], Term))


def cut(w, t):
    """Is w the two parts of t cut at one place?"""
    if len(w) != 2:
        return False
    a, b = w
    return isinstance(a, Term) and a.op == 'slice' and a.args[0] is t \
        and isinstance(b, Term) and b.op == 'slice' and b.args[0] is t \
        and a.args[2] is b.args[1] and a.args[1] is NONE \
        and b.args[2] is NONE and '?>' in repr(a.args[2]) \
        and "'rfind'" not in repr(a.args[2]) \
        and "'rindex'" not in repr(a.args[2])


def text(rep, ip, b, mode):
    for op in ('rawtextOffset', 'rawtextColumn'):
        t = opnd(op, 'text')
        spec = operands(op)[0][1]
        for p in ip.run(op, '', spec, b):
            rep.count('paths')
            w = writes(p)
            k = text_class(p, t)
            if k == 'blank' and found_end(p, t):
                continue    # blank text contains no '?>'
            rep.seen('text', '%s %s %s %d' % (op, mode, k, len(w)))
            notes = [i for i, x in enumerate(w) if x[0] == 'note']
            vals = [x[1] for x in w if x[0] == 'out']
            for i in notes:
                named(rep, ip, p, w[i][1], op)
            if k is None:
                rep.violation('text', op, where(p), 'whether the text is '
                              'blank or has an XML declaration is not '
                              'decided', trace(p))
            elif k == 'blank':
                if notes or vals != [t]:
                    rep.violation('text', op, where(p), 'for blank text '
                                  'writes %s' % short(w), trace(p))
            elif k == 'plain':
                if notes != [0] or vals != [t]:
                    rep.violation('text', op, where(p), 'for text writes %s'
                                  % short(w), trace(p))
            elif notes:
                if notes != [1] or not cut(vals, t):
                    rep.violation('text', op, where(p), 'for an XML '
                                  'declaration writes %s' % short(w),
                                  trace(p))
            elif vals != [t]:
                rep.violation('text', op, where(p), 'for an incomplete XML '
                              'declaration writes %s' % short(w), trace(p))
            after(rep, ip, p, len(notes), op, 'text')


def named(rep, ip, p, vals, op):
    rep.seen('names', '%s %d' % (op, len(vals)))
    terms = {x for y in vals if isinstance(y, V) for x in walk(y)}
    pos = ip.start_fields.get('position', T('field', 'position'))
    line = T('item', pos, C(0))
    lines = {x for x in terms if isinstance(x, Term) and x.op == 'item'
             and len(x.args) == 2 and x.args[1] is C(0)
             and isinstance(x.args[0], Term) and x.args[0].op in (
                 'field', 'opnd')}
    none = [t for t, v in p.st.facts.items() if isinstance(t, Term)
            and t.op == 'is' and t.args[1] is NONE and v
            and isinstance(t.args[0], Term) and t.args[0].op == 'item']
    if FILE not in terms:
        rep.violation('names', op, where(p), 'the annotation does not name '
                      'the file: %s' % short(vals), trace(p))
    elif not lines and not none:
        rep.violation('names', op, where(p), 'the annotation does not name '
                      'the line: %s' % short(vals), trace(p))


def after(rep, ip, p, n, op, rule):
    """What the next text is preceded by."""
    raises, ip.raises = ip.raises, False
    for q in follow(ip, p.st):
        k = text_class(q, TEXT)
        w = writes(q)
        m = len([x for x in w if x[0] == 'note'])
        if n == 0 and k in ('plain', None) and m != 1:
            rep.violation(rule, op, where(q), 'the annotation is still due '
                          'after %s but the next text writes %s' % (
                              op, short(w)), trace(p) + trace(q))
            break
        if n and (m or [x[1] for x in w] != [TEXT]):
            rep.violation(rule, op, where(q), 'after the annotation the next '
                          'text writes %s' % short(w), trace(p) + trace(q))
            break
    ip.raises = raises


def each(rep, ip, a, b, mode):
    for op, variant, spec in ip.all_ops():
        if op in ('setSourceFile', 'rawtextOffset', 'rawtextColumn'):
            continue
        if variant in ('replace', 'replace+plain', 'insert', 'expr'):
            continue
        nm = name(op, variant)
        sigs = set()
        for p in ip.run(op, variant, spec, b):
            if p.kind != 'ok':
                continue
            rep.count('paths')
            rep.seen('once', '%s %s' % (nm, mode))
            w = writes(p)
            notes = [i for i, x in enumerate(w) if x[0] == 'note']
            due = False
            for i, (k, v) in enumerate(w):
                if k == 'note':
                    break
                if isinstance(v, Term) and v.op == 'slice':
                    continue
                c = text_class(p, v)
                if c in ('blank', 'xml') or v is C(''):
                    continue
                due = True
            if len(notes) > 1:
                rep.violation('once', nm, where(p), 'the annotation is '
                              'written %d times' % len(notes), trace(p))
                continue
            if due:
                rep.violation('once', nm, where(p), 'output is written '
                              'without or before the annotation: %s'
                              % short(w), trace(p))
                continue
            if op not in CAPTURING:
                blocks(rep, ip, p, nm)
            sig = (len(notes), tuple(sorted(
                (k, repr(v)[:80]) for k, v in ip.snapshot(p.st).items()
                if ip.start_fields.get(k) is not v
                and not isinstance(v, tuple))))
            if sig in sigs:
                continue
            sigs.add(sig)
            after(rep, ip, p, len(notes), nm, 'once')
        columns(rep, ip, op, variant, spec, a, b, nm)
        for p in ip.run(op, variant, spec, a):
            rep.seen('unannounced', '%s %s' % (nm, mode))
            if any('<!--' in x for v in output(p) for x in (
                    [v] if isinstance(v, str) else [])):
                rep.violation('unannounced', nm, where(p), 'writes %s'
                              % short(output(p)), trace(p))
                break


def notes_before(p, n):
    """Was an annotation written before event n?"""
    return any(e.n < n and any(x is FILE for y in e.args
                               if isinstance(y, V) for x in walk(y))
               for e in stream_writes(p))


def blocks(rep, ip, p, nm):
    out = {x for v in output(p) if isinstance(v, V) for x in walk(v)
           if isinstance(x, Term) and x.op == 'out'}
    first = True
    for e in interps(p):
        if not any(x.args[1] is C(e.n) for x in out):
            continue        # discarded
        rep.seen('blocks', '%s %s' % (nm, e.args[0]))
        # what is written here decides where an annotation goes
        if first and not notes_before(p, e.n):
            for q in follow(ip, e.snap):
                w = writes(q, True)
                if text_class(q, TEXT) in ('plain', None) \
                        and [x[0] for x in w] != ['note', 'out']:
                    rep.violation('blocks', nm, e.loc, 'text at the start of '
                                  'the block is written as %s' % short(w),
                                  trace(p))
                    break
        first = False


def requests(p):
    return [e for e in p.st.events() if e.recv is ENGINE
            and e.name not in ('setSourceFile', 'createErrorInfo')]


def names_file(p, evs):
    for e in evs:
        for v in list(e.args) + [x for _, x in e.kw]:
            if isinstance(v, V) and any(
                    x is FILE for x in walk(ip_freeze(p, v))):
                return e
    return None


def ip_freeze(p, v):
    v = p.ip.eng.freeze(p.st, v)
    return v if isinstance(v, V) else C(repr(v))


def data(rep, ip, a, b, mode):
    """Inside captured text nothing is annotated, announced before or in
    it."""
    start = []

    def collect(op, st, what):
        for variant, spec in operands(op):
            for p in ip.run(op, variant, spec, st):
                e = names_file(p, requests(p))
                if e is not None:
                    rep.violation('data', op, e.loc, 'an annotation gets '
                                  'into %s' % e.name, trace(p))
                for e in interps(p):
                    s = e.snap.fork()
                    s.trace, s.n, s.stack = None, 0, ()
                    start.append(('%s %s' % (what, name(op, variant)), s))
    for st, what in ((b, 'announced before'), (a, 'announced in')):
        collect('insertTranslation', st, what)
        collect('evaluateCode', st, what)
        for lab, s in list(start):
            if lab.startswith(what) and 'insertTranslation' in lab:
                collect('i18nVariable', s, what + ' ' + lab.split()[-1])
    seen = set()
    for lab, s in start:
        if lab in seen:
            continue
        seen.add(lab)
        if 'in' in lab.split()[1]:
            s = announce(ip, s)
        for op, variant, spec in ip.all_ops():
            if op == 'setSourceFile' or variant in (
                    'replace', 'replace+plain', 'insert', 'expr'):
                continue
            nm = name(op, variant)
            for p in ip.run(op, variant, spec, s):
                rep.count('paths')
                rep.seen('data', '%s: %s %s' % (lab, nm, mode))
                bad = names_file(p, requests(p)) or names_file(
                    p, stream_writes(p))
                txt = ip_freeze(p, p.st.field(ip.ref, ip.stream_field))
                if bad is None and any(x is FILE for x in walk(txt)):
                    bad = interps(p)[-1] if interps(p) else None
                    rep.violation('data', nm, bad and bad.loc, '%s: an '
                                  'annotation gets into the text %s' % (
                                      lab, short(txt)), trace(p))
                    break
                if bad is not None:
                    rep.violation('data', nm, bad.loc, '%s: an annotation '
                                  'gets into %s' % (lab, bad.name),
                                  trace(p))
                    break


def late(rep, ip, a, mode):
    tail = [TUP([C('setSourceFile'), FILE])]
    for op, variant, spec in ip.all_ops():
        if op in CAPTURING + ('useMacro', 'extendMacro'):
            continue        # after a macro the page is announced again
        nm = name(op, variant)
        ip.tail = lambda prog: [] if prog is block(op, 'start') else tail
        for p in ip.run(op, variant, spec, a):
            if p.kind != 'ok' or not interps(p):
                continue
            rep.count('paths')
            rep.seen('late', '%s %s' % (nm, mode))
            due = bad = False
            for k, v in writes(p):
                if k == 'note':
                    bad = bad or not due
                    due = False
                    continue
                if text_class(p, v) not in ('blank', 'xml') and v is not C(
                        '') and not (isinstance(v, Term)
                                     and v.op == 'slice'):
                    bad = bad or due
                if isinstance(v, Term) and v.op == 'slice' \
                        and v.args[2] is NONE:
                    v = v.args[0]
                due = due or isinstance(v, Term) and v.op == 'out' \
                    and v.args[0] is not block(op, 'start')
            if bad:
                rep.violation('late', nm, where(p), 'an annotation announced '
                              'at the end of a block is not written there: '
                              '%s' % short(writes(p)), trace(p))
                break
            ip.tail = None
            after(rep, ip, p, not due, nm, 'late')
            ip.tail = lambda prog: [] if prog is block(op, 'start') \
                else tail
        ip.tail = None


def numberless(v):
    return re.sub(r'(, |#)\d+', r'\1', repr(v))


def columns(rep, ip, op, variant, spec, a, b, nm):
    """Fields that an announcement does not touch end up alike."""
    if op == 'onError':
        return      # the text that was kept is measured with annotations
    touched = set(ip.changed(ip.snapshot(a), ip.snapshot(b)))

    def ends(st):
        out = {}
        for p in ip.run(op, variant, spec, st):
            if p.kind == 'ok':
                f = ip.snapshot(p.st)
                out.setdefault(tuple(
                    (k, numberless(f[k])) for k in ip.changed(ip.snapshot(st), f)
                    if k not in touched and not isinstance(f[k], tuple)), p)
        return out
    x, y = ends(a), ends(b)
    rep.seen('columns', nm)
    for k in sorted(set(y) - set(x)):
        rep.violation('columns', nm, where(y[k]), 'with an annotation due '
                      'it leaves %s' % short(k), trace(y[k]))
        break


def handled(rep, ip, a, mode):
    b = announce(ip, a)
    op = 'onError'
    blk = block(op, 'handler')
    tail = [TUP([C('setSourceFile'), FILE])]
    for st, want in ((a, 0), (b, 1)):
        for t in (None, lambda prog: tail if prog is not blk else []):
            ip.tail = t
            for p in ip.run(op, '', operands(op)[0][1], st):
                ran = interps(p)
                if len(ran) != 2:
                    continue
                rep.seen('error', '%s due=%d announces=%d' % (mode, want,
                                                              bool(t)))
                for q in follow(ip, ran[1].snap):
                    n = len([x for x in writes(q) if x[0] == 'note'])
                    if text_class(q, TEXT) in ('plain', None) and n != want:
                        rep.violation('error', op, ran[1].loc, 'the handler '
                                      'starts with %d annotations' % n,
                                      trace(p))
                        break
            ip.tail = None
    for p in ip.run(op, '', operands(op)[0][1], b):
        if p.kind != 'ok' or not p.st.ghost.get('raised'):
            continue
        rep.count('paths')
        rep.seen('once', 'handled error %s' % mode)
        w = writes(p)
        out = [e for e in interps(p) if e.args[0] is blk]
        notes = [x for x in w if x[0] == 'note']
        plain = [x for x in w if x[0] == 'out' and not isinstance(x[1], str)
                 and text_class(p, x[1]) not in ('blank', 'xml')
                 and not (isinstance(x[1], Term) and x[1].op == 'slice')]
        if out and plain and len(notes) != 1:
            rep.violation('once', op, where(p), 'after a handled error the '
                          'output is %s' % short(w), trace(p))
