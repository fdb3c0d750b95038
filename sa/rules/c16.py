"""HTML elements are closed in order and namespaces end with them."""
import itertools

from .common import *
from . import structure
from .markup import *
from .c26 import handler

EMPTY = frozenset('''base meta link hr br param img area input col basefont
isindex frame'''.split())
HEADS = frozenset(['h1', 'h2', 'h3', 'h4', 'h5', 'h6'])
CLOSED_BY = {
    'tr': {'tr', 'td', 'th'}, 'td': {'td', 'th'}, 'th': {'td', 'th'},
    'li': {'li'}, 'dd': {'dd', 'dt'}, 'dt': {'dd', 'dt'}}
BLOCKS = frozenset('''blockquote table tr th td thead tfoot tbody noframe ul
ol li dl dt dd div nav'''.split())

TAGS = ['p', 'h1', 'div', 'ul', 'li', 'table', 'tr', 'td', 'dt', 'br', 'b',
        'script', 'x:y']
MORE = sorted((EMPTY | HEADS | set(CLOSED_BY) | BLOCKS | {
    'span', 'body', 'tal:block'}) - set(TAGS))
# elements of running text and parts of forms: they close nothing and
# are closed by nothing but their own end tag or that of an outer element
INLINE = '''a abbr acronym bdo big button cite code del dfn em font i iframe
ins kbd label map object optgroup option q s samp select small strike strong
style sub sup textarea title tt u var caption colgroup html head form center
fieldset legend address pre noscript frameset section article aside header
footer main figure video audio canvas embed applet menu dir'''.split()


# elements which declare namespaces but have no directives
PLAIN = 'plain', 'plainend'


class Refused(Exception):
    pass


def implied(stack, tag):
    """How many of the open elements a start tag closes."""
    if tag in EMPTY:
        return 0
    if tag in CLOSED_BY:
        cand = CLOSED_BY[tag]
        barrier = [i for i, t in enumerate(stack)
                   if t in BLOCKS and t not in cand]
    elif tag in BLOCKS or tag in HEADS or tag == 'p':
        cand = {'p'}
        barrier = [i for i, t in enumerate(stack) if t in BLOCKS]
        first = barrier[-1] + 1 if barrier else 0
        if set(stack[first:]) & HEADS:
            raise Refused('a heading is open')
    else:
        return 0
    first = barrier[-1] + 1 if barrier else 0
    hits = [i for i, t in enumerate(stack) if i >= first and t in cand]
    return len(stack) - hits[0] if hits else 0


def reference(page):
    """[(what, tag, visible namespaces)] for a page."""
    out, stack, env = [], [], []
    n = 0

    def close():
        out.append(('close', stack.pop(), None))
        env.pop()
    for op, tag in page:
        if op != 'end':
            if op == 'startfilled' and tag in EMPTY:
                raise Refused('nothing can be filled in')
            for i in range(implied(stack, tag)):
                close()
            seen = tuple(env) + (n,)
            out.append(('open', tag, () if op in PLAIN else
                        seen + ('r',) * bound(seen)))
            if op not in ('start', 'plain') or tag in EMPTY:
                out.append(('close', tag, None))
            else:
                stack.append(tag)
                env.append(n)
            n += 1
        elif op == 'end':
            if stack and stack[-1] == 'script' and tag != 'script':
                out.append(('text', '</%s>' % tag, None))
                continue
            if tag in EMPTY or tag not in stack:
                raise Refused('no such element is open')
            while stack[-1] != tag:
                close()
            close()
    while stack:
        close()
    return out


def check(rep, prog, tier):
    rep.rule('nesting', 'for every sequence of tags the generator sees '
             'elements closed innermost first, each once, by the end tag '
             'rules of HTML, or the parser reports an error; the directives '
             'of each element are those of the namespaces declared at it or '
             'at an element still open', 2000)
    rep.rule('closed-at-end', 'at the end of input everything is closed', 10)
    rep.rule('balance', 'whatever elements are open and whatever the tag is '
             'called, a callback pushes on the stacks of open elements once '
             'for each element it opens and pops once for each it closes, '
             'and the element closed is the one on top', 0)
    balance(rep, prog)
    rep.assume('html.parser reports tags in document order')
    pages = []
    quick = tier != 'thorough'
    depth = 2 if quick else 3
    for d in range(depth + 1):
        for stack in itertools.product([t for t in TAGS if t not in EMPTY],
                                       repeat=d):
            for op in ('start', 'startend', 'startfilled', 'end'):
                for t in TAGS:
                    pages.append([('start', x) for x in stack] + [(op, t)])
    # every tag against every open one
    for a in TAGS + MORE:
        for b in TAGS + MORE:
            if a in EMPTY:
                pages.append([('start', 'div'), ('start', a), ('end', b)])
                pages.append([('start', 'b'), ('start', a), ('start', b)])
            elif a in MORE or b in MORE:
                pages.append([('start', a), ('start', b)])
                pages.append([('start', a), ('start', 'b'), ('start', b)])
                pages.append([('start', a), ('start', 'b'), ('end', b)])
    for a in INLINE:
        for b in ('p', 'h1', 'div', 'li', 'td', 'dt', 'b', 'br'):
            if b != 'br':
                pages.append([('start', b), ('start', a)])
                pages.append([('start', b), ('startend', a)])
                pages.append([('start', b), ('start', a), ('end', b)])
            pages.append([('start', a), ('start', b), ('end', a)])
            pages.append([('start', 'p'), ('start', a), ('start', b)])
        pages.append([('start', a), ('start', a), ('end', a)])
    # elements without directives
    for a in TAGS + MORE:
        for op in PLAIN:
            pages.append([(op, a), ('start', 'b')])
            pages.append([('start', 'b'), (op, a), ('end', 'b'),
                          ('start', 'p')])
            pages.append([('start', 'b'), (op, a), ('start', a)])
            pages.append([('start', a), (op, 'p'), (op, 'p'), ('start', 'b')])
    pages.append([('start', 'div')] + [('start', 'b')] * 30 + [
        ('end', 'div'), ('start', 'b')])
    # typical longer ones
    for text in '''ul li b li ul li /ul li /ul p
table tr td b td tr td table tr td tr /table td /table p p /p
table tbody tr th td tr /tbody tbody tr td /table
dl dt b dd p dt /dl dl dd dd dt
p b i p /p div p ul li p li p /ul /div h1 b /h1 p
div p b /div p table tr td p /td td p /table
p br p hr div img /div -br -p -x:y p
ul li -li li -br b -p li /ul
ul li +li li +span b +p li /ul +p div
table tr td script b /b /td /script td /table
tal:block p tal:block p /p
table tr tal:block td td /tal:block tr /table'''.splitlines():
        page = []
        for w in text.split():
            page.append(('end', w[1:]) if w[0] == '/' else
                        ('startend', w[1:]) if w[0] == '-' else
                        ('startfilled', w[1:]) if w[0] == '+' else
                        ('start', w))
        pages.append(page)
        for i in range(3, len(page)):
            pages.append(page[:i])
    uniq = list({tuple(p): p for p in pages}.values())
    key = len(structure._shared)
    structure._shared[key] = (prog, 0, None)
    for label, n, ended, bad in structure.parallel(rep, key, uniq, task):
        rep.seen('nesting', label)
        rep.count('parses', n)
        if ended:
            rep.seen('closed-at-end', label)
        for loc, msg, facts in bad:
            rep.violation('nesting', label, loc, msg, facts)


def balance(rep, prog):
    mk = Markup(prog, white=NONE)
    ps = mk.ps
    fields = ps.state.heap[ps.ref.oid].fields
    lists = {k: v for k, v in fields.items() if isinstance(v, Ref)
             and ps.state.heap[v.oid].kind == 'list'
             and not ps.state.heap[v.oid].items}
    # which of them grow with an open element, and which one has its name
    stacks, named = [], None
    for o in Outcome.many(ps, mk.start('b')(ps.state.fork())):
        for k, v in lists.items():
            h = o.st.heap[o.st.heap[ps.ref.oid].fields[k].oid]
            if h.items:
                stacks.append(k)
                if h.items[-1] is C('b'):
                    named = k
    st = ps.state.fork()
    for k in stacks:
        st.heap[lists[k].oid] = HList((), T('field', k))
    tag = T('tag')
    for m in ('handle_starttag', 'handle_startendtag', 'handle_endtag'):
        s = st.fork()
        ps.pos = position(0)
        args = [tag]
        if m != 'handle_endtag':
            args.append(mk.html_attrs(s, [('class', T('c'))]))
        loc = ps.method(m).fi
        loc = loc.file, loc.node.lineno, loc.qual
        for o in Outcome.many(ps, ps.call(s, m, args)):
            rep.count('paths')
            if o.kind != 'ok':
                continue
            rep.seen('balance', m)
            delta, model, bad = 0, [], None
            for e in o.calls('emitStartElement', 'emitEndElement'):
                nm = o.st.resolve(mk.bound(o, e)['name'])
                nm = nm if isinstance(nm, V) else C(nm)
                if e.name == 'emitStartElement':
                    if not mk.bound(o, e).get('isend'):
                        delta += 1
                        model.append(nm)
                    continue
                delta -= 1
                top = model.pop() if model else T(
                    'top', T('field', named), C(
                        -delta if delta < 0 else 1)) if named else nm
                top = o.st.resolve(top)
                if top is not nm and not same_name(o, top, nm):
                    bad = 'closes %s while %s is on top' % (
                        short(nm), short(top))
            for k in stacks:
                h = o.st.heap[o.st.heap[ps.ref.oid].fields[k].oid]
                d = len(h.items) - h.pop
                if h.base is not T('field', k) or d != delta:
                    bad = 'opens %+d elements but %s changes by %s' % (
                        delta, k, d)
            if bad:
                rep.violation('balance', m, loc, bad, o.facts())
    rep.use(mk.eng)


def same_name(o, a, b):
    for x, y in ((a, b), (b, a)):
        if o.fact(T('eq', x, y)) is True:
            return True
    return False


def task(arg):
    key, pages = arg
    prog = structure._shared[key][0]
    mk = Markup(prog, white=T('white'))
    mk.eng.nonnull.add(T('white'))
    out = []
    for page in pages:
        out.append(one(mk, page))
    seen = sorted({(f.file, f.qual) for f in mk.eng.functions_seen})
    return out, seen


# what a prefix is bound to at the first, second and third element, and
# again; at the third it is not declared
REDECLARED = [TAL_NS, 'http://example.org/other', None]


def bound(open_):
    """Whether the prefix is bound to the TAL namespace."""
    for n in reversed(open_):
        if REDECLARED[n % 3]:
            return REDECLARED[n % 3] == TAL_NS
    return False


def one(mk, page):
    label = ''.join(('<%s>' if op == 'start' else '<%s/>' if op == 'startend'
                     else '<%s (plain)>' if op == 'plain'
                     else '<%s (plain)/>' if op == 'plainend'
                     else '<%s content/>' if op == 'startfilled'
                     else '</%s>') % t for op, t in page)
    steps, total = [], 0
    mk.n = 0
    for op, tag in page:
        if op == 'end':
            steps.append(mk.end(tag))
            continue
        attrs = [('xmlns:n%d' % total, TAL_NS), ('r:same', T('same'))] + [
            ('xmlns:r', u) for u in REDECLARED[total % 3:][:1] if u] + [
            ('n%d:d%d' % (i, i), T('value', C(i)))
            for i in range(total + 1)] + [('class', T('class'))]
        if op in PLAIN:
            attrs = [(k, v) for k, v in attrs if k.startswith('xmlns')]
            attrs.append(('type', None))
        if op == 'startfilled':
            attrs.append(('n%d:content' % total, T('content')))
        total += 1
        steps.append((mk.start if op in ('start', 'plain')
                      else mk.startend)(
            tag, attrs))
    try:
        want = reference(page)
    except Refused as e:
        want = None
    loc = handler(mk)
    bad = []
    outs = mk.run(steps)
    for o in outs:
        if o.kind != 'ok':
            if want is not None:
                bad.append((loc, 'fails with %s' % o.exc_class(),
                            o.facts()))
            elif not set(o.exc_mro()) & {'HTMLParseError', 'TALError'}:
                bad.append((loc, 'fails with %s instead of a template error'
                            % o.exc_class(), o.facts()))
            continue
        got, at = observed(mk, o)
        if want is None:
            bad.append((loc, 'is accepted: %s' % brief(got), o.facts()))
            continue
        # white space may be moved: text in front of a close
        got = [g for g in got if not (g[0] == 'text'
                                      and g[1] is T('white'))]
        if got != want:
            i = 0
            while i < min(len(got), len(want)) and got[i] == want[i]:
                i += 1
            bad.append((at[i] if i < len(at) else loc,
                        '%s instead of %s' % (
                            brief(got[i:i + 3]) or 'nothing follows',
                            brief(want[i:i + 3]) or 'nothing'), o.facts()))
    return (label, len(outs), want is not None and page[-1][0] != 'end',
            [(a, b, c[:10]) for a, b, c in bad])


def brief(items):
    return ' '.join('%s %s%s' % (a, b, '' if c is None else list(c))
                    for a, b, c in items)


def observed(mk, o):
    out, at = [], []
    for e in o.calls():
        if e.name not in mk.sigs:
            continue
        b = mk.bound(o, e)
        if e.name == 'emitStartElement':
            vis = tuple(int(k[1:]) for k in b['taldict'] if k[:1] == 'd')
            vis += ('r',) * ('same' in b['taldict'])
            out.append(('open', b['name'], vis))
            at.append(e.loc)
            if b.get('isend'):
                out.append(('close', b['name'], None))
                at.append(e.loc)
        elif e.name == 'emitEndElement':
            out.append(('close', b['name'], None))
            at.append(e.loc)
        else:
            out.append(('text', b['text'], None))
            at.append(e.loc)
    return out, at
