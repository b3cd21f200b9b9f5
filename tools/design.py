"""Regenerates the per-property part of DESIGN.md (between the markers) from the property texts, the scenario modules,
the evidence of the last runs (costs) and the planted bugs.  Run `python3 tools/design.py` after a change."""
import ast
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/tools')

ORACLE = {
    'C01': 'tuple equality of the names the two objects were made of; `hash`, `==`, set and dict membership compared with it',
    'C02': 'the declared dict itself; a dict of the instances handed out so far (identity of instances)',
    'C03': 'a model (set of nodes, dict of links) advanced by the rule of the statement; breadth-first reachability written in the harness',
    'C04': 'set union and the two conflict rules on plain specifications of the samples',
    'C05': 'the specification (nodes, links) from which each sample was built',
    'C06': 'subset and counting of nodes and links of the specifications; the quotient is compared as a rational',
    'C07': 'reachability by layers over the specification, with its own filter',
    'C08': 'the specification with the values replaced, and the sample built directly from it',
    'C09': 'a dict specification -> symbolic count, advanced by the rule of each operation',
    'C10': 'a full snapshot (nodes, links, counts, text, hash) before and after arbitrary further operations',
    'C11': 'count / sum of counts as exact rationals',
    'C12': 'sums of the symbolic counts of the outcomes having variable and value, as exact rationals',
    'C13': 'sums of the symbolic counts per variable/value and per linked pair',
    'C14': 'the compatibility rule of the statement on specifications',
    'C15': 'the formula of the statement on specifications, using the reference of C07 for external nodes',
    'C16': 'connected components of the relation "a linked pair in common", computed on specifications',
    'C17': 'the partition of C16 over the outcomes of the graph',
    'C18': 'the product over all assignments of matching factor rows (relational join) on specifications',
    'C19': 'the grouping of C16 restricted to outcomes having the variable, then the join of matching outcomes',
    'C20': 'the product of all assignments, subsets of variables and connected link sets, generated by the harness',
    'C22': 'a dict specification -> symbolic count advanced by accepted additions',
    'C23': 'the lists of nodes and lines derived from the specification, compared with what a recording stand-in of pyvis got',
    'C24': 'the questions answered on the specifications',
    'C25': 'equality of the contents (names, symbolic counts, marks)',
    'C26': 'the text parsed back into opaque words and symbolic numbers, compared with the content; sortedness of the parts',
    'C27': 'the product of the tables over all assignments, restricted to the observed values, as polynomials in the counts',
    'C28': 'the texts parsed and the tables multiplied by the harness, on exact numbers; the same network or one entry changed',
    'D30': 'a dict of cells; packed form compared through unpacking and injectivity on pairs',
    'D31': 'the table of unit steps and the free neighbours of a cell, on symbolic walls and positions',
    'D32': 'a reference of the rules (score, food, capsules, timers, restarts) on the symbolic board',
    'D33': 'a reference of the rules; plus an inductive step: from any state satisfying the invariant every move keeps it',
    'D34': 'a full snapshot of every state before and after; equality against equality of the contents',
    'D35': 'a reference reader of the text; a reference search over the directory levels',
    'D36': 'a list of (priority, number, item) searched for its minimum',
    'D37': 'functions from keys to symbolic reals',
    'D38': 'the interval of the cumulative weights which contains the symbolic random number',
    'D39': 'a reference distribution over the legal moves, compared as exact reals',
    'D40': 'the expected log of calls (agents, rules, display) for the chosen course of the game',
    'D41': 'the recorded calls to `signal` and `sys.stdout` before, during and after',
    'D42': 'each recorded course of moves replayed through `generateSuccessor`; the printed report parsed back; a reference search of the path',
    'D43': 'the items a board needs, computed from the states of the game and compared with the items on the stand-in canvas',
    'D44': 'the points and options of each shape after each change, as symbolic reals',
    'D45': 'the sets of keys and clicks given by the events delivered so far',
    'D46': 'the items expected for the weights, cells and distances; the reference of D43 for the first person view',
    'D47': 'the arguments of the game computed directly from the options chosen',
    'D48': 'the definition of each helper over the same symbolic values',
}


def module(pid):
    t = ast.parse(open(f'{ROOT}/props/{pid.lower()}.py').read())
    v, docs = {}, {}
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            docs[n.name] = re.sub(r'\s+', ' ', ast.get_docstring(n) or '')
        if isinstance(n, ast.Assign):
            name = getattr(n.targets[0], 'id', '')
            if name in ('BOUNDS', 'OUTSIDE'):
                v[name] = ast.literal_eval(n.value)
            if name == 'SCENARIOS' and isinstance(n.value, ast.Dict):
                v['SCENARIOS'] = [ast.literal_eval(k) for k in n.value.keys]
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == 'numbers':
            v['NUMBERS'] = [ast.literal_eval(a) for a in n.value.args[1:]]
    return v, docs


def main():
    seeds = {}
    for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        m = json.load(open(f))
        seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
    costs = {}
    cf = ROOT + '/tools/costs.json'
    if os.path.exists(cf):
        costs = json.load(open(cf))
    out = []
    for l in open(ROOT + '/properties.jsonl'):
        p = json.loads(l)
        i = p['id']
        if not os.path.exists(f'{ROOT}/props/{i.lower()}.py'):
            continue
        v, docs = module(i)
        out.append(f'### {i} {p["title"]}\n')
        out.append(f'* Oracle: {ORACLE.get(i, "?")}.')
        sc = v.get('SCENARIOS', [])
        out.append('* Scenarios: ' + '; '.join(f'`{s}`' + (f' ({docs[s]})' if docs.get(s) else '') for s in sc) + '.')
        if v.get('NUMBERS'):
            out[-1] += ' Also over a vocabulary of numbers: ' + ', '.join(f'`{s}`' for s in v['NUMBERS']) + '.'
        out.append(f'* Bounds, quick: {v["BOUNDS"]["quick"]}.')
        out.append(f'* Bounds, thorough: {v["BOUNDS"]["thorough"]}.')
        out.append(f'* Outside: {v["OUTSIDE"]}.')
        c = costs.get(i, {})
        if c:
            out.append('* Cost: ' + '; '.join(f'{t} {x["wall"]:.0f} s, {x["paths"]} paths, {x["queries"]} queries' for t, x in c.items())
                       + ' (8 cores).')
        if i in seeds:
            out.append('* Planted: ' + '; '.join(f'`{n}` (needs {m["needs"]})' for n, m in seeds[i]) + '.')
        out.append('')
    d = open(ROOT + '/DESIGN.md').read()
    a, b = '<!-- properties: generated by tools/design.py -->', '<!-- end of properties -->'
    head, rest = d.split(a)
    tail = rest.split(b)[1]
    open(ROOT + '/DESIGN.md', 'w').write(head + a + '\n\n' + '\n'.join(out) + b + tail)


main()
