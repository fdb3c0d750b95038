#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the rule modules."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'path-sensitive interprocedural dataflow over the AST'
TECH = {
    'C01': BASE + ': escaping state of every string written, by provenance',
    'C02': BASE + ': facts and evaluations per path of each insertion',
    'C03': BASE + ': provenance of attribute entries, constant propagation '
           'of attribute statements',
    'C04': BASE + ': compiled blocks of all directive combinations compared '
           'with those without the element',
    'C05': BASE + ': instruction tree of all directive combinations against '
           'the documented order',
    'C06': 'typestate of variable scopes on all normal and exceptional paths',
    'C07': 'effect analysis: attributes a failing block can leave changed '
           'against those restored before the handler',
    'C08': 'typestate of output destinations on all paths',
    'C09': BASE + ': checks that dominate rendering a macro, restoration on '
           'every exit',
    'C10': BASE + ': slot lookup on abstract macro stacks',
    'C11': 'abstract heap: no store reaches an operand of the program',
    'C12': 'points-to and effect analysis of all functions, abstract heap',
    'C13': 'effect analysis of the handlers for switched-off processing',
    'C14': BASE + ': exception values reaching every exit, with positions',
    'C15': BASE + ': every path of compiling an invalid page raises',
    'C16': 'pushdown analysis of the parser callbacks, constant propagation '
           'of tag names',
    'C17': BASE + ': text pieces from parser callback to output',
    'C18': BASE + ': marks of attributes from parser to output',
    'C19': BASE + ': parser and compiler analysed inside the interpreter',
    'C20': BASE + ': provenance of the arguments of translation requests',
    'C21': BASE + ': catalogs after abstract histories of requests',
    'C22': 'typestate of announced positions and files; dominance in '
           'compiled programs',
    'C23': 'effect equivalence of instruction sequences before and after '
           'the optimiser',
    'C24': 'typestate of opened files on all normal and exceptional paths',
    'C25': BASE + ': evaluations and renderings per path',
    'C26': BASE + ': namespace bindings in both parsers',
    'C27': 'typestate of pending annotations',
    'C28': BASE + ': provenance of names, values and scopes',
    'C29': BASE + ': nesting of translation contexts',
    'C30': BASE + ': pieces of start tags for any wrap width',
}
NOTE = ('Rules are decided on abstract paths of the current source: every '
        'branch is followed, values are provenance terms, loops are '
        'unrolled to a small bound, nested program blocks are summarised. '
        'Nothing of zope.tal is imported or executed and no solver is used. '
        'Level "other": exhaustive over paths within the bounds of section 2 '
        'of DESIGN.md, not a proof beyond them.')
NA = {}


def main():
    props = [json.loads(x) for x in open(os.path.join(
        VERIF, 'properties.jsonl')) if x.strip()]
    checks, na = [], []
    for p in props:
        i = p['id']
        path = os.path.join(VERIF, 'sa', 'rules', i.lower() + '.py')
        if not os.path.exists(path):
            na.append(dict(property=i, reason=NA.get(
                i, 'no rule has been built for this property yet')))
            continue
        checks.append(dict(
            property=i,
            quick_cmd='python3 check.py %s --tier quick' % i,
            thorough_cmd='python3 check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=TECH[i],
            level='other', level_note=NOTE))
    m = dict(version=1, setup_cmd='python3 --version', checks=checks,
             not_applicable=na,
             notes='Static analysis only; see DESIGN.md. No hooks in /repo.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
