"""Abstract model of a parse: the callbacks of the two template parsers.

The library parsers (html.parser, expat) are not analysed.  What they do is
modelled as a sequence of calls of the handler methods of the template
parsers, issued while the library's feed or parse method is running; tag
names and attribute names are known, everything else is opaque.  The code
generator is opaque: the calls it receives are the result of a parse.
"""
import ast

from .engine import Engine, Broken
from .values import (
    C, T, S, TUP, BOUND, NONE, TRUE, FALSE, Const, Term, Str, Tup, Ref, Func,
    HList, HDict, HInst, Event, Ext, V)

GEN = T('generator')
EXPAT = T('expat')
_NODE = ast.parse('f()').body[0].value
FEEDS = ('feed', 'Parse', 'ParseFile')
# callbacks that html.parser has itself
LIBRARY = ('handle_startendtag', 'handle_data', 'handle_charref',
           'handle_entityref', 'handle_comment', 'handle_decl', 'handle_pi',
           'unknown_decl')


class Outcome:
    def __init__(self, ps, kind, st, val):
        self.ps, self.kind, self.st, self.val = ps, kind, st, val

    @classmethod
    def many(cls, ps, outs):
        return [cls(ps, k, s, v) for k, s, v in outs]

    def calls(self, *names):
        """Calls received by the generator."""
        return [e for e in self.st.events() if e.recv is GEN
                and (not names or e.name in names)]

    def fact(self, t):
        return self.ps.eng.decide(self.st, t)

    def facts(self):
        return ['assume %r is %s' % (t, v)
                for t, v in self.st.facts.items()][:20]

    def exc_class(self):
        v = self.val
        if isinstance(v, Ref) and v.oid in self.st.heap:
            h = self.st.heap[v.oid]
            if h.kind == 'inst':
                return self.st.heap[h.cls.oid].name
        if isinstance(v, Term) and v.op == 'exc':
            return v.args[0]
        return repr(v)

    def exc_mro(self):
        v = self.val
        if isinstance(v, Ref) and v.oid in self.st.heap:
            h = self.st.heap[v.oid]
            if h.kind == 'inst':
                return [self.st.heap[c.oid].name for c in self.ps.prog.mro(
                    h.cls, self.st.heap) if isinstance(c, Ref)]
        return []

    def exc_field(self, name):
        v = self.val
        if isinstance(v, Ref) and v.oid in self.st.heap \
                and self.st.heap[v.oid].kind == 'inst':
            r = self.st.heap[v.oid].fields.get(name)
            return None if r is None else self.st.resolve(r)
        return None


class Parse:
    def __init__(self, prog, xml=False, gen=None, loop_k=2, cls=None,
                 **engopts):
        self.prog, self.xml = prog, xml
        self.pending = self.late = self.base_init = None
        self.white = None
        self.pos = NONE
        cls = cls or (('talparser', 'TALParser') if xml
                      else ('htmltalparser', 'HTMLTALParser'))
        self.cls = prog.cls(*cls)
        engopts.setdefault('max_states', 50000)
        self.eng = Engine(prog, hooks=[self], loop_k=loop_k, **engopts)
        st = prog.start()
        st.facts[GEN] = True
        self.gen = gen or GEN
        self.eng.nonnull.add(GEN)
        outs = self.eng.instantiate(st, self.cls, [self.gen], {}, _NODE)
        outs = [o for o in outs if o[0] == 'ok']
        if not outs:
            raise Broken('the parser cannot be constructed')
        _, self.state, self.ref = outs[0]
        self.init_events = self.state.events()
        self.state.trace, self.state.n = None, 0

    # ---- engine hooks
    def is_object(self, v):
        return v is GEN or v is EXPAT

    def on_call(self, eng, st, fv, args, kw, node):
        if isinstance(fv, Ext) and fv.name.endswith('HTMLParser.__init__'):
            self.base_init = (list(args), dict(kw), eng.loc(st, node))
        return None

    def on_getattr(self, eng, st, o, name, node):
        # the current position of expat
        if name.endswith('LineNumber') or name.endswith('ColumnNumber'):
            if isinstance(o, Term) and 'ParserCreate' in repr(o) \
                    and isinstance(self.pos, Tup):
                return [('ok', st, self.pos.items[
                    0 if name.endswith('LineNumber') else 1])]
        return None

    def on_event(self, eng, st, ev, node):
        if ev.name == 'getpos' and ev.recv is getattr(
                self, 'ref', None):
            return [('ok', st, self.pos)]
        if ev.recv is GEN:
            ev.snap = st.fork()
            if ev.name == 'unEmitWhitespace' and self.white is not None:
                return [('ok', st, self.white)]
            return None
        if ev.name in FEEDS and self.pending is not None:
            fed = st.ghost.get('fed', ())
            st.ghost['fed'] = fed + (ev,)
            steps = [] if fed else list(self.pending)
            if ev.name != 'feed' and self.final(st, ev):
                steps += self.ended(st)
            if fed and not steps:
                return None
            outs = self.drive(st, steps)
            return [(k, s, NONE if k == 'ok' else v) for k, s, v in outs]
        if ev.name == 'close' and self.pending is not None and not self.xml:
            outs = self.drive(st, self.ended(st))
            return [(k, s, NONE if k == 'ok' else v) for k, s, v in outs]
        return None

    def ended(self, st):
        """What the library reports only when it is told that the text
        ends."""
        if not self.late or st.ghost.get('ended'):
            return []
        st.ghost['ended'] = True
        return self.late

    @staticmethod
    def final(st, ev):
        if ev.name == 'ParseFile':
            return True
        v = ev.args[1] if len(ev.args) > 1 else dict(ev.kw).get('isfinal')
        v = None if v is None else st.resolve(v)
        return isinstance(v, Const) and bool(v.v)

    # ---- driving
    def method(self, name):
        return self.prog.need_method(self.cls, name)

    def call(self, st, name, args=(), kw=None):
        if name in LIBRARY and self.prog.method(self.cls, name) is None:
            # html.parser does nothing with these, and takes a minimised
            # tag for a start and an end tag
            outs = [('ok', st, NONE)]
            if name == 'handle_startendtag':
                outs = self.call(st, 'handle_starttag', args)
                return self.eng.lift(outs, lambda s, v: self.call(
                    s, 'handle_endtag', args[:1]))
            return outs
        fn = self.method(name)
        return self.eng.call(st, BOUND(self.ref, fn), list(args),
                             dict(kw or {}), fn.fi.node)

    def drive(self, st, steps):
        outs = [('ok', st, NONE)]
        for step in steps:
            nxt = []
            for k, s, v in outs:
                if k != 'ok':
                    nxt.append((k, s, v))
                    continue
                nxt.extend(step(s))
            outs = nxt
        return outs

    def run(self, steps, entry='parseString', state=None, arg=None,
            late=None):
        """Outcomes of a parse in which the library issues these
        callbacks."""
        st = (state or self.state).fork()
        self.pending, self.late = list(steps), list(late or ())
        outs = self.call(st, entry, [arg if arg is not None
                                     else T('text')])
        self.pending = self.late = None
        if not all(s.ghost.get('fed') for k, s, v in outs if k == 'ok'):
            raise Broken('%s does not feed the text to the library parser'
                         % entry)
        return [Outcome(self, k, s, v) for k, s, v in outs]
