"""Invalid directives and combinations are rejected."""
from .common import *
from . import structure
from .invalid import cases
from .template import Template, show

RULES = {
    'unknown': ('a directive that does not exist is rejected', 50),
    'required': ('a directive without the value it needs is rejected', 50),
    'values': ('a value that does not follow the syntax of the directive is '
               'rejected', 100),
    'duplicates': ('a macro, a filler, an attribute or a directive given '
                   'twice is rejected', 40),
    'conflicts': ('directives that exclude each other are rejected', 200),
    'misplaced': ('directives outside of what they refer to are rejected',
                  200),
    'implicit': ('an element with directives needs its end tag', 200),
    'empty-tags': ('content for an HTML element that has none is rejected',
                   50),
}


def check(rep, prog, tier):
    for r, (text, floor) in RULES.items():
        rep.rule(r, text, floor)
    rep.assume('html.parser and expat report tags and attributes as '
               'documented')
    work = [(xml, i) for i in range(12) for xml in (False, True)]
    structure.fan(rep, work, lambda r, w: part(r, prog, tier, w[0], w[1],
                                               12))


def part(rep, prog, tier, xml, i, of):
    t = Template(prog, xml)
    for k, c in enumerate(cases(xml, tier)):
        if k % of != i:
            continue
        label = '%s %s' % ('xml' if xml else 'html', show(c.page))
        rep.seen(c.rule, label)
        for o in t.compile(c.page):
            rep.count('paths')
            if o.kind == 'ok':
                rep.violation(c.rule, c.why, t.loc(), '%s is accepted'
                              % label, o.facts())
            elif not o.is_tal_error():
                rep.violation(c.rule, c.why, t.loc(), '%s fails with %s '
                              'instead of a template error' % (
                                  label, o.exc_class()), o.facts())
    rep.use(t.eng)
