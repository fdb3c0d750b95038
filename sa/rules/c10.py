"""Slots are filled by the right use of the macro."""
from .common import *
from . import structure


def check(rep, prog, tier):
    rep.rule('resolution', 'for every nesting of uses and extensions the '
             'filler is taken from the nearest use along the chain of '
             'extensions, otherwise the default content is rendered, once', 8)
    rep.rule('nesting', 'while a filler is rendered the macro nesting is '
             'that below the use that filled it', 3)
    rep.rule('restored', 'afterwards, and after an error, the nesting is '
             'what it was', 8)
    rep.rule('passed-on', 'a use hands the fillers written in it to the '
             'macro', 2)
    depth = 4 if tier == 'thorough' else 3
    rep.assume('macro nestings up to depth %d' % depth)
    ip = interp(prog)
    for base in ('', 'inline'):
        for lab, st in stacks(ip, depth, base):
            slot(rep, ip, base + lab, st)
    passed(rep, ip)
    rep.use(ip.eng)
    rep.rule('compiled', 'each filler is recorded under its name with the '
             'innermost use it is written in', 20)
    structure.compare(rep, prog, 'compiled', [
        'use-macro', 'define-macro', 'extend-macro', 'define-slot',
        'fill-slot', 'condition', 'content', 'domain', 'translate='],
        size=3, need=('define-slot', 'fill-slot', 'use-macro'),
        contexts=('use', 'def', 'fill', 'def-use', 'fill-use', 'def-slot',
                  'after-fill', 'after-fill-use', 'fill-after-use'))


def stacks(ip, depth, base):
    """Macro nestings, U use, E extension, X extension written inside an
    inline macro definition."""
    out = []
    for lab, st in ip.stacks(depth):
        if base == 'inline':
            if len(lab) >= depth:
                continue
            ip.raises, r = False, ip.raises
            try:
                inner = None
                for p in ip.run('defineMacro', '',
                                operands('defineMacro')[0][1], st):
                    for e in p.events('interp'):
                        inner = e.snap.fork()
                if inner is None:
                    raise Broken('defineMacro renders nothing')
                inner.trace, inner.n, inner.stack = None, 0, ()
                for s in ip.enter(inner, 'E', len(lab)):
                    out.append((lab + 'X', s))
                    if len(lab) + 1 < depth:
                        for s2 in ip.enter(s, 'E', len(lab) + 1):
                            out.append((lab + 'XE', s2))
            finally:
                ip.raises = r
        else:
            out.append((lab, st))
    return out


def slot(rep, ip, inst, st):
    op = 'defineSlot'
    lab = inst.replace('inline', '')
    blk, nm = block(op, 'program'), opnd(op, 'name')
    before = ip.snapshot(st)[ip.stack_field]
    entries = list(before[3])
    # the chain that may fill this slot, nearest first
    chain = []
    for i in range(len(lab) - 1, -1, -1):
        chain.append(i)
        if lab[i] != 'E':
            break
    for p in ip.run(op, '', operands(op)[0][1], st):
        rep.count('paths')
        rep.seen('resolution', inst or 'no macro')
        want, level = blk, None
        for i in chain:
            v = T('m', 'get', T('slots', C(i)), nm)
            none = absent(p, T('slots', C(i)), nm)
            if none is None:
                want = None
                break
            if not none:
                want, level = i, i
                break
        ran = interps(p)
        if want is None:
            rep.violation('resolution', op, where(p), 'in nesting %s the '
                          'fillers of use %d are not consulted' % (inst, i),
                          trace(p))
            continue
        if len(ran) != 1:
            rep.violation('resolution', op, where(p), 'in nesting %s %d '
                          'blocks are rendered' % (inst, len(ran)), trace(p))
            continue
        got = p.st.resolve(ran[0].args[0])
        if level is None:
            if got is not blk:
                rep.violation('resolution', op, ran[0].loc, 'in nesting %s '
                              'without a filler %s is rendered' % (
                                  inst, short(got)), trace(p))
                continue
            keep = len(entries)
        else:
            if not filler(got, T('slots', C(level)), nm):
                rep.violation('resolution', op, ran[0].loc, 'in nesting %s '
                              'with a filler in use %d %s is rendered' % (
                                  inst, level, short(got)), trace(p))
                continue
            keep = level
            rep.seen('nesting', inst)
        now = ip.snapshot(ran[0].snap)[ip.stack_field]
        if list(now[3]) != entries[:keep] or now[1] is not None:
            rep.violation('nesting', op, ran[0].loc, 'in nesting %s with '
                          'the filler of use %s, %d uses are active while '
                          'it is rendered instead of %d' % (
                              inst, level, len(now[3]), keep), trace(p))
        out = output(p)
        if len(out) != 1 or not is_out(out[0]):
            rep.violation('resolution', op, where(p), 'writes %s' %
                          short(out), trace(p))
        rep.seen('restored', '%s %s' % (inst or 'no macro', p.kind))
        after = ip.snapshot(p.st)[ip.stack_field]
        if list(after[3]) != entries or after[1:3] != before[1:3]:
            rep.violation('restored', op, where(p), 'in nesting %s the '
                          'nesting is not restored on an exit by %s' % (
                              inst, p.kind), trace(p))
        else:
            for e in entries:
                if parts(st, e) != parts(p.st, e):
                    rep.violation('restored', op + ':entry', where(p), 'the '
                                  'record of a use is changed', trace(p))


def parts(st, e):
    """What an entry records, except flags."""
    h = st.heap[e.oid] if isinstance(e, Ref) else None
    if h is None:
        return e
    vals = list(h.fields.items())
    if isinstance(h.data, V) or h.data is None:
        d = ()
    else:
        d = tuple(x for x in getattr(h.data, 'items', ())
                  if not isinstance(x, Const))
    return d, tuple((k, v) for k, v in sorted(vals, key=lambda x: x[0])
                    if not isinstance(v, Const))


def absent(p, slots, nm):
    """Is the slot missing among the fillers?  None when undetermined."""
    g = T('m', 'get', slots, nm)
    for t in (g, T('item', slots, nm), T('dictget', slots, nm)):
        d = p.fact(T('is', t, NONE))
        if d is not None:
            return d
    d = p.fact(T('in', nm, slots))
    if d is not None:
        return not d
    return None


def filler(v, slots, nm):
    return isinstance(v, Term) and any(x is slots for x in v.args) \
        and any(x is nm for x in walk(v)) and v.op in ('m', 'item',
                                                       'dictget')


def passed(rep, ip):
    for op in ('useMacro', 'extendMacro'):
        for variant, spec in operands(op):
            for p in ip.run(op, variant, spec):
                for e in interps(p):
                    rep.seen('passed-on', op)
                    top = ip.snapshot(e.snap)[ip.stack_field][3]
                    vals = []
                    for x in top:
                        h = e.snap.heap[x.oid] if isinstance(x, Ref) else None
                        if h is not None and h.kind == 'inst':
                            vals += list(h.fields.values())
                            vals += list(getattr(h.data, 'items', ()))
                        elif isinstance(x, Tup):
                            vals += x.items
                    if opnd(op, 'slots') not in vals:
                        rep.violation('passed-on', op, e.loc, 'the macro is '
                                      'rendered without its fillers',
                                      trace(p))
