"""Abstract model of a rendering: the interpreter object and its opcodes.

One opcode is analysed at a time by abstractly interpreting the interpreter's
own dispatch loop on a one-instruction program whose operands are opaque,
role-named terms.  Nested blocks are summarised inductively: a nested call of
the dispatch loop on an opaque block writes the block's output to the current
stream, leaves balanced state alone, invalidates the fields any opcode may
change (computed as a fixpoint over all opcodes), and may raise, in which case
every field that some opcode leaves changed on an exceptional exit is dirty.
"""
from .engine import Engine, Program, Broken, Budget
from .values import (
    C, T, S, TUP, R, EXT, BOUND, NONE, TRUE, FALSE, Const, Term, Str, Tup,
    Ref, Func, Bound, BoundExt, Ext, HList, HDict, HInst, Event, V)

ENGINE = T('engine')
STREAM = T('stream')
DEFAULT = T('Default')

# Engine methods that evaluate template code and so can raise anything.
ENGINE_RAISES = frozenset('''evaluate evaluateValue evaluateBoolean
evaluateText evaluateStructure evaluateMacro evaluateCode setRepeat
translate __next__'''.split())


def opnd(op, role):
    return T('opnd', op, role)


def block(op, role):
    return T('block', op, role)


def _tup(op, *roles):
    return TUP([block(op, r[1:]) if r.startswith('@') else opnd(op, r)
                for r in roles])


# operand roles of the compiled program format; '@' marks nested programs
OPCODES = {
    'version': None, 'mode': None, 'setSourceFile': None,
    'setPosition': None,
    'startTag': None, 'startEndTag': None,
    'optTag': ('name', 'cexpr', 'tag_ns', 'isend', '@start', '@program'),
    'rawtextBeginScope': ('text', 'col', 'position', 'closeprev', 'attrs'),
    'beginScope': None, 'endScope': (),
    'setLocal': ('name', 'expr'), 'setGlobal': ('name', 'expr'),
    'beginI18nContext': None, 'endI18nContext': (),
    'insertText': ('expr', '@program'),
    'insertI18nText': ('expr', '@program'),
    'i18nVariable': ('varname', '@program', 'expression', 'structure'),
    'insertTranslation': ('msgid', '@program'),
    'insertStructure': ('expr', 'repldict', '@program'),
    'insertI18nStructure': ('expr', 'repldict', '@program'),
    'evaluateCode': ('lang', '@program'),
    'loop': ('name', 'expr', '@program'),
    'rawtextColumn': ('text', 'col'), 'rawtextOffset': ('text', 'offset'),
    'condition': ('expr', '@program'),
    'defineMacro': ('name', '@program'),
    'useMacro': ('name', 'expr', 'slots', '@program'),
    'extendMacro': ('name', 'expr', 'slots', '@program', 'defname'),
    'fillSlot': ('name', '@program'), 'defineSlot': ('name', '@program'),
    'onError': ('@program', '@handler'),
}

# Opcodes whose job is to change a balanced field.
SCOPE_OPS = ('beginScope', 'endScope', 'rawtextBeginScope')
CONTEXT_OPS = ('beginI18nContext', 'endI18nContext')


def operands(op):
    """[(variant, operand)] for one opcode."""
    if op in ('startTag', 'startEndTag'):
        return attr_variants(op)
    if op == 'i18nVariable':
        # the generator never passes an expression; see OPCODE notes
        base = _tup(op, *OPCODES[op]).items
        return [('', TUP(base[:2] + (NONE, FALSE))),
                ('expr', TUP(base))]
    if op == 'insertTranslation':
        return [('', _tup(op, *OPCODES[op])),
                ('data', _tup(op, 'msgid', '@program', 'data'))]
    if op == 'optTag':
        return [('', _tup(op, *OPCODES[op]))]
    if op == 'rawtextBeginScope':
        base = _tup(op, *OPCODES[op]).items
        return [('open', TUP(base[:3] + (C(0),) + base[4:])),
                ('closeprev', TUP(base[:3] + (C(1),) + base[4:]))]
    roles = OPCODES[op]
    if roles is None:
        return [('', opnd(op, 'arg'))]
    return [('', _tup(op, *roles))]


def attr_item(op, kind, i=0):
    n, v = T('attrname', C(i)), T('attrvalue', C(i))
    if kind == 'plain':
        return TUP([n, T('attrtext', C(i))])
    if kind in ('tal', 'metal', 'i18n', 'xmlns'):
        return TUP([n, v, C(kind)])
    if kind in ('replace', 'insert'):
        return TUP([n, v if kind == 'replace' else NONE, C(kind),
                    T('attrexpr', C(i)), T('attrxlat', C(i)),
                    T('attrmsgid', C(i))])
    if kind in ('replace-i18n', 'insert-i18n'):
        return TUP([n, v if kind == 'replace-i18n' else NONE,
                    C(kind.split('-')[0]), NONE, C(1),
                    T('attrmsgid', C(i))])
    raise ValueError(kind)


ATTR_KINDS = ('plain', 'tal', 'metal', 'i18n', 'xmlns', 'replace', 'insert',
              'replace-i18n')


def attr_variants(op):
    out = []
    for k in ATTR_KINDS:
        out.append((k, ('attrs', (k,))))
    out.append(('plain+plain', ('attrs', ('plain', 'plain'))))
    out.append(('replace+plain', ('attrs', ('replace', 'plain'))))
    return out


def caught(p):
    """Was an error raised, and handled, on this path?"""
    return bool(p.st.ghost.get('raised')) or any(
        isinstance(a, Term) and a.op == 'excopaque'
        for e in p.events() for a in e.args)


class Path:
    __slots__ = ('kind', 'st', 'val', 'ip', 'op', 'variant')

    def __init__(self, kind, st, val, ip, op, variant):
        self.kind, self.st, self.val = kind, st, val
        self.ip, self.op, self.variant = ip, op, variant

    def fact(self, t):
        return self.ip.eng.decide(self.st, t)

    def events(self, *kinds):
        return [e for e in self.st.events()
                if not kinds or e.kind in kinds]


class Interp:
    """An abstract interpreter object in a generic reachable state."""

    CONFIG = dict(debug=C(0), wrap=None, metal=None, tal=None, showtal=None,
                  strictinsert=None, stackLimit=None, i18nInterpolate=None,
                  sourceAnnotations=C(0))

    def __init__(self, prog, tal=True, metal=True, annotate=False,
                 cls=('talinterpreter', 'TALInterpreter'), loop_k=2,
                 raises=True, config=None, showtal_given=True, **engopts):
        self.prog = prog
        self.cls = prog.cls(*cls)
        self.cls_path = cls
        self.raises = raises
        self.emitting = set()
        self.norm = {}          # field -> changed on some normal exit
        self.exc = {}           # field -> changed on some exceptional exit
        self.plain = set()      # those of norm changed without any error
        self.protect = set()
        self.extra_scopes = (0, 1, 2)
        self.top = None
        self.eng = Engine(prog, hooks=[self], loop_k=loop_k,
                          sentinels=[DEFAULT], **engopts)
        self.annotate = annotate
        self.tail = None        # what else a block does when annotating
        prog.need_method(self.cls, 'interpret')
        prog.need_method(self.cls, '__call__')
        kw = {
            'debug': C(0), 'wrap': T('cfg', 'wrap'),
            'metal': C(1) if metal else C(0), 'tal': C(1) if tal else C(0),
            'showtal': T('cfg', 'showtal'),
            'strictinsert': T('cfg', 'strictinsert'),
            'stackLimit': T('cfg', 'stackLimit'),
            'i18nInterpolate': T('cfg', 'i18nInterpolate'),
            'sourceAnnotations': C(1) if annotate else C(0)}
        kw.update(config or {})
        if not showtal_given:
            del kw['showtal']
        self.kw = kw
        st = prog.start()
        st.facts[STREAM] = True
        outs = self.eng.instantiate(
            st, self.cls, [T('cfg', 'program'), T('cfg', 'macros'), ENGINE,
                           STREAM], kw, self.eng_node())
        outs = [o for o in outs if o[0] == 'ok']
        if not outs:
            raise Broken('the interpreter cannot be constructed')
        self.init_outs = outs
        _, st, self.ref = outs[0]
        self.init_events = st.events()
        if prog.base.heap.get(self.ref.oid) is not None:
            raise Broken('unexpected shared interpreter object')
        self.fields0 = dict(st.heap[self.ref.oid].fields)
        self.stream_field = self.holder(st, STREAM)
        if self.stream_field is None:
            raise Broken('no attribute of the interpreter holds the stream')
        self.scope_field = None
        self.steady = self.steady_fields(st.fork(), tal, metal)
        self.init_state = st.fork()
        self.generalise(st)
        self.state = st
        self.find_scope_field()
        self.stack_field = None
        if metal:
            self.find_stack_field()

    _steady = {}

    def steady_fields(self, st, tal, metal):
        """Boolean attributes that are false at first and that no
        instruction changes when source annotations are off."""
        key = id(self.prog), self.cls
        if key in self._steady:
            return self._steady[key]
        cand = {k for k, v in self.fields0.items()
                if isinstance(v, Const) and v.v is False
                and k not in self.kw}
        if not cand or self.annotate or not tal or not metal:
            if cand:
                ip = Interp(self.prog, cls=self.cls_path, raises=False)
                return ip.steady
            return cand
        self._steady[key] = set()
        raises, self.raises = self.raises, False
        try:
            while cand:
                self.steady = cand
                s = st.fork()
                self.generalise(s)
                self.state = s
                bad = set()
                for op, variant, spec in self.all_ops():
                    for p in self.run(op, variant, spec):
                        snaps = [p.st] + [e.snap for e in p.events('interp')]
                        for x in snaps:
                            bad.update(cand & set(self.changed(
                                self.start_fields, self.snapshot(x))))
                if not bad:
                    break
                cand = cand - bad
        finally:
            self.raises = raises
        self._steady[key] = cand
        return cand

    def holder(self, st, v):
        fl = st.heap[self.ref.oid].fields
        for k in sorted(fl, key=lambda k: (k.startswith('_'), k)):
            if st.resolve(fl[k]) is v:
                return k
        return None

    def find_scope_field(self):
        """The attribute that counts open scopes, if there is one."""
        raises, self.raises = self.raises, False
        try:
            for p in self.run('beginScope', '', opnd('beginScope', 'arg')):
                end = self.snapshot(p.st)
                for k in self.changed(self.start_fields, end):
                    b, j = self.eng.lin(end[k]) if isinstance(
                        end[k], V) else (None, 0)
                    if b is self.start_fields[k] and j == 1:
                        self.scope_field = k
        finally:
            self.raises = raises

    def find_stack_field(self):
        """The attribute holding the macros being expanded."""
        raises, self.raises = self.raises, False
        try:
            for variant, spec in operands('useMacro'):
                for p in self.run('useMacro', variant, spec):
                    for e in p.events('interp'):
                        snap = self.snapshot(e.snap)
                        for k in self.changed(self.start_fields, snap):
                            a, b = self.start_fields.get(k), snap.get(k)
                            if isinstance(a, tuple) and isinstance(b, tuple) \
                                    and len(b[3]) == len(a[3]) + 1:
                                self.stack_field = k
        finally:
            self.raises = raises
        if self.stack_field is None:
            raise Broken('using a macro pushes nothing on any stack')

    def stacks(self, depth, base=None, outermost='U', names=False):
        """(label, state) for every nesting of macro uses up to depth:
        U is a use, E an extension reached from within a macro.  With
        names the macros have known names."""
        raises, self.raises = self.raises, False
        out = []
        try:
            st = (base or self.state).fork()
            st.trace, st.n = None, 0
            for k, v in self.fields0.items():
                # the initial values of what nesting changes
                old = st.field(self.ref, k)
                if k == self.stack_field or (
                        isinstance(v, Const) and v.v is False):
                    if isinstance(v, Ref):
                        st.heap[old.oid] = HList(())
                    else:
                        st.setfield(self.ref, k, v)
            cur = [('', st)]
            out.append(('', st))
            for d in range(depth):
                nxt = []
                for lab, s in cur:
                    for op in 'UE':
                        if not lab and op not in outermost:
                            continue
                        for s2 in self.enter(s, op, d, names):
                            nxt.append((lab + op, s2))
                cur = nxt
                out.extend(cur)
        finally:
            self.raises = raises
        return out

    def enter(self, st, op, d, names=False):
        """States in which the macro used at depth d is being rendered."""
        name = 'useMacro' if op == 'U' else 'extendMacro'
        items = [C('m%d' % d) if names else T('mname', C(d)), T('mexpr', C(d)), T('slots', C(d)),
                 T('mblock', C(d))]
        if op == 'E':
            items.append(C('d%d' % d) if names else T('mdefname', C(d)))
        res, seen = [], set()
        for p in self.run(name, '', TUP(items), st):
            for e in p.events('interp'):
                if e.args[0] is items[3]:
                    continue        # the expression gave default
                s = e.snap.fork()
                s.trace, s.n, s.stack = None, 0, ()
                key = repr(sorted((k, repr(v)) for k, v in
                                  self.snapshot(s).items()))
                if key in seen:
                    continue
                seen.add(key)
                res.append(s)
        if not res:
            raise Broken('%s never renders a macro' % name)
        return res[:1]

    def eng_node(self):
        import ast
        return ast.parse('f()').body[0].value

    def generalise(self, st):
        """Replace the initial field values by arbitrary ones."""
        h = st.heap[self.ref.oid]
        cfg = set(self.kw)
        f = {}
        for name, v in h.fields.items():
            if name in self.kw and v is self.kw[name]:
                f[name] = v
            elif name == 'showtal':
                f[name] = T('cfg', 'showtal')
            elif isinstance(v, Ref) and st.heap[v.oid].kind == 'list' \
                    and v.oid >= self.prog.base_limit:
                st.heap[v.oid] = HList((), T('field', name))
                f[name] = v
            elif isinstance(v, Ref) and st.heap[v.oid].kind == 'inst' \
                    and v.oid >= self.prog.base_limit:
                f[name] = T('field', name)
                self.eng.nonnull.add(f[name])
            elif isinstance(v, (Const, Tup)) and v is not NONE:
                if name in self.steady:
                    f[name] = v
                else:
                    f[name] = T('field', name)
            elif v is NONE:
                f[name] = T('field', name)
            else:
                f[name] = v
        st.heap[self.ref.oid] = HInst(h.cls, f, h.data, h.lazy)
        st.facts = {STREAM: True}
        st.subst = {}
        st.trace = None
        st.n = 0
        st.frames = {}
        st.stack = ()
        st.ghost = {'depth': 0, 'mindepth': 0}
        self.start_fields = self.snapshot(st)

    # -------------------------------------------------- snapshots
    def snapshot(self, st):
        out = {}
        for k, v in st.heap[self.ref.oid].fields.items():
            if isinstance(v, Ref) and v.oid in st.heap \
                    and v.oid >= self.prog.base_limit \
                    and st.heap[v.oid].kind == 'list':
                lst = st.heap[v.oid]
                out[k] = (v, lst.base, lst.pop, lst.items)
            else:
                out[k] = v
        return out

    def changed(self, a, b):
        """Fields that differ between two snapshots."""
        out = []
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if isinstance(x, tuple) and isinstance(y, tuple):
                # list identity is irrelevant; its contents count
                if x[1:] != y[1:]:
                    out.append(k)
            elif x is not y:
                out.append(k)
        return sorted(out)

    # -------------------------------------------------- engine hooks
    def is_object(self, v):
        return v is ENGINE or v is STREAM

    def on_call(self, eng, st, fv, args, kw, node):
        if isinstance(fv, Func) and fv.fi.name == 'interpret' and args \
                and args[0] is self.ref:
            prog = args[1] if len(args) > 1 else kw.get('program')
            if prog is self.top or prog in self.emitting:
                return None
            return self.nested(eng, st, prog, node)
        return None

    def nested(self, eng, st, prog, node):
        ev = self.event(eng, st, prog, node)
        res = []
        if self.raises:
            for k in self.extra_scopes:
                s = st.fork()
                self.emit_out(eng, s, T('out', self.name_of(s, prog), C(ev.n),
                                        'partial'), node)
                self.dirty(s, ev.n)
                if k:
                    if self.scope_field:
                        lv = s.field(self.ref, self.scope_field)
                        b, j = eng.lin(lv)
                        s.setfield(self.ref, self.scope_field,
                                   eng.mklin(b, j + k))
                    s.ghost['depth'] += k
                s.ghost['raised'] = s.ghost.get('raised', ()) + ((ev.n, k),)
                res.append(('raise', s, T('excopaque', C('interp%d' % ev.n))))
                if self.annotate and not k:
                    # it may have written something before
                    s2 = st.fork()
                    s2.ghost['raised'] = s2.ghost.get('raised', ()) + (
                        (ev.n, k),)
                    res += [('raise', s3, T('excopaque', C(
                        'interp%d' % ev.n))) for k2, s3, _ in self.small(
                            eng, s2, prog, T('out', self.name_of(
                                s2, prog), C(ev.n), 'partial'), node)]
        v = T('out', self.name_of(st, prog), C(ev.n))
        if self.annotate:
            return res + self.small(eng, st, prog, v, node)
        self.emit_out(eng, st, v, node)
        self.havoc(st, ev.n)
        res.append(('ok', st, NONE))
        return res

    def small(self, eng, st, prog, v, node):
        """A block that is some text, through the interpreter itself."""
        lst = eng.alloc(st, HList(
            [TUP([C('rawtextOffset'), TUP([v, T('len', v)])])] + (
                self.tail(prog) if self.tail else [])))
        self.emitting.add(lst)
        fn = self.prog.need_method(self.cls, 'interpret')
        return eng.call(st, BOUND(self.ref, fn), [lst], {}, node)

    def event(self, eng, st, prog, node):
        ev = eng.event(st, 'interp', self.ref, 'interpret', (prog,), (),
                       NONE, node)
        ev.snap = st.fork()
        return ev

    def name_of(self, st, prog):
        return self.eng.freeze(st, prog)

    def cur_stream(self, st):
        return st.resolve(st.field(self.ref, self.stream_field))

    def emit_out(self, eng, st, v, node):
        s = self.cur_stream(st)
        if s is None:
            raise Broken('the interpreter has no stream attribute')
        if isinstance(s, Ref):
            lst = eng.get_list(st, s)
            if lst is not None:
                eng.set_list(st, s, HList(lst.items + (v,), lst.base,
                                          lst.pop))
                return
        eng.event(st, 'call', s, 'write', (v,), (), NONE, node)

    def havoc(self, st, n):
        for k in self.norm:
            if k not in self.protect:
                st.setfield(self.ref, k, T('havoc', k, C(n)))

    def dirty(self, st, n):
        fl = st.heap[self.ref.oid].fields
        for k in self.exc:
            v = fl.get(k)
            if isinstance(v, Ref) and v.oid in st.heap \
                    and st.heap[v.oid].kind == 'list':
                st.heap[v.oid] = HList((), T('dirty', k, C(n)))
            elif k == self.scope_field:
                continue
            else:
                st.setfield(self.ref, k, T('dirty', k, C(n)))

    def on_event(self, eng, st, ev, node):
        r = ev.recv
        if r is ENGINE:
            if ev.name == 'getDefault':
                return [('ok', st, DEFAULT)]
            if ev.name == 'beginScope':
                st.ghost['depth'] += 1
                return [('ok', st, NONE)]
            if ev.name == 'endScope':
                st.ghost['depth'] -= 1
                st.ghost['mindepth'] = min(st.ghost['mindepth'],
                                           st.ghost['depth'])
                return [('ok', st, NONE)]
        raising = False
        if self.raises:
            if r is ENGINE and ev.name in ENGINE_RAISES:
                raising = True
            elif ev.name == '__next__':
                raising = True
            elif isinstance(r, Ref) and ev.kind == 'ext' and ev.name in (
                    'feed', 'close', 'parse'):
                raising = True
            elif ev.name in ('Parse', 'ParseFile'):
                raising = True
        if raising:
            s = st.fork()
            return [('raise', s, T('excopaque', C('event%d' % ev.n))),
                    ('ok', st, ev.result)]
        return None

    # -------------------------------------------------- running
    def operand(self, st, op, spec):
        if isinstance(spec, tuple) and spec[0] == 'attrs':
            items = [attr_item(op, k, i) for i, k in enumerate(spec[1])]
            lst = self.eng.alloc(st, HList(items))
            return TUP([opnd(op, 'name'), lst])
        return spec

    def run(self, op, variant='', spec=None, state=None):
        """All abstract paths of executing one instruction."""
        st = (state or self.state).fork()
        st.trace, st.n = None, 0
        st.stack = ()
        arg = self.operand(st, op, spec)
        self.top = self.eng.alloc(st, HList([TUP([C(op), arg])]))
        st.ghost['top'] = self.top
        fn = self.prog.need_method(self.cls, 'interpret')
        outs = self.eng.call(st, BOUND(self.ref, fn), [self.top], {},
                             fn.fi.node)
        return [Path(k, s, v, self, op, variant) for k, s, v in outs]

    def moded(self, mode):
        """The generic state in a page of the given mode."""
        for p in self.run('mode', '', C(mode)):
            if p.kind == 'ok':
                st = p.st.fork()
                st.trace, st.n = None, 0
                return st
        raise Broken('the mode instruction always fails')

    def all_ops(self):
        for op in OPCODES:
            for variant, spec in operands(op):
                yield op, variant, spec

    def inherited(self, k, v):
        """Is v what a nested block left, in a field that only handled
        errors are known to change?"""
        return k not in self.plain and isinstance(v, Term) \
            and v.op == 'havoc'

    def summarise(self, limit=6):
        """Fixpoint: which fields an opcode may leave changed."""
        raises, self.raises = self.raises, False
        balanced = {self.scope_field}
        for op in SCOPE_OPS[:2] + CONTEXT_OPS:
            for variant, spec in operands(op):
                for p in self.run(op, variant, spec):
                    balanced.update(self.changed(self.start_fields,
                                                 self.snapshot(p.st)))
        self.raises = raises
        self.balanced = balanced
        for k in balanced - {self.scope_field}:
            # opened by one instruction of a failing block, not closed
            self.exc.setdefault(k, ('balanced', ''))
        for rnd in range(limit):
            size = len(self.norm), len(self.exc)
            for op, variant, spec in self.all_ops():
                for p in self.run(op, variant, spec):
                    end = self.snapshot(p.st)
                    for k in self.changed(self.start_fields, end):
                        if k == self.stack_field and op == 'defineSlot':
                            continue    # see rules/c10.py
                        if p.kind == 'raise':
                            if k == self.scope_field:
                                continue
                            self.exc.setdefault(k, (op, variant))
                        else:
                            if k in balanced:
                                continue
                            self.norm.setdefault(k, (op, variant))
                            if not caught(p) and not self.inherited(
                                    k, end.get(k)):
                                self.plain.add(k)
            if (len(self.norm), len(self.exc)) == size:
                break
        return self
