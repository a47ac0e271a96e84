#!/usr/bin/env python3
"""Generates DESIGN.md from tools/DESIGN.in.md, MANIFEST.json, properties.jsonl and seeded/"""
import ast
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
 'C01': 'boundary grid and last-trade index stated in integer nanoseconds; bit-exact int/float rounding, timestamps symbolic',
 'C02': 'recurrence-free statement: for each close, the sum since the previous close reaches the threshold and no shorter prefix does; carry as a running quotient',
 'C03': 'reference recurrence over symbolic logs; NaN pattern of sigma enumerated; unmodified sigma and length checks',
 'C04': 'min/max/sum/median/VWAP over exactly idx[a+1..b]; closes enumerated by forking',
 'C05': 'definition over the bar\'s own trades, running sums listed explicitly',
 'C06': 'definition with order-only log1p, percentile by linear interpolation over the sorted volumes',
 'C07': 'per level and side, sum over trades of indicator(level) × volume; tick arithmetic over rationals',
 'C08': 'diagonal comparison, longest run and lowest-largest level as explicit maxima over levels',
 'C09': 'gcd of the differences of an integer grid (symbolic levels on a decimal step)',
 'C10': 'builders of every bar type on symbolic trades, compared with the kernels\' definition per row; build orders permuted; footprint totals against bar totals',
 'C11': 'reference model of sort, first-id, merge-runs and side precedence on symbolic tables; conservation sums',
 'C12': 'gap list recomputed from ids and symbolic times; quality flag and share',
 'C13': 'value × factor in unbounded integers, per unit and stored width; floor division for resampling',
 'C14': 'last change among the prices up to the trade',
 'C15': 'element-wise comparison of every slice/table/validity result with nested lists',
 'C16': 'model store (month → rows) over symbolic histories of saves; range filter; metadata',
 'C17': 'bucket aggregation of the stored bars with symbolic request bounds',
 'C18': 'first touched barrier by explicit scan in nanoseconds, rounding bit-exact; NaN/inf/disabled barriers enumerated',
 'C19': 'row-wise relation of the output tables to the input tables for every drop pattern',
 'C20': 'count of covering spans, mean of reciprocals over the span',
 'C21': 'sum of log returns over concurrency per step',
 'C22': 'piecewise-linear decay by cumulated uniqueness',
 'C23': 'class shares and products of the stated weights',
 'C24': 'two one-sided sums with floor at 0, event iff above the current threshold',
 'C25': 'textbook window definition per position, NaN patterns enumerated',
 'C26': 'closed-form weighted sum over all earlier samples, decay symbolic where polynomial',
 'C27': 'search for the last price at or before t−lag in integers; windows by definition',
 'C28': 'range obligation on every output',
 'C29': 'self-composition: kernel on a prefix against kernel on its continuation with fresh symbolic samples',
 'C30': 'conservation per bucket, argmax, greedy growth re-stated as a relation on the resulting range',
 'C31': 'window membership by time; profile of the member bars by C30\'s kernels against the rolling update',
 'C32': 'calendar arithmetic (proleptic day count, integer div/mod) on a symbolic 64-bit timestamp',
 'C33': 'maximum over admissible reference points with its own critical value, undefined in warm-up',
 'C34': 'the operator applied to symbolic cell values, nested expressions enumerated by shape',
 'C35': 'each feature built alone against the set, all orders and build modes',
 'C36': 'the loaded set evaluated on symbolic tables against the saved one; parameters compared',
 'C37': 'steps applied by hand against Compose',
 'C38': 'compiled against data-frame implementation on the same symbolic table (relational)',
 'C39': 'definition over the window with NaN patterns, steps of windows as symbolic prices',
 'C40': 'transform output against the kernel on the named columns; permuted columns, index resolutions and time zones; defaults',
 'C41': 'row-wise definition per day/window; flags from arbitrary symbolic statistics',
 'C42': 'model of month integrity over symbolic histories; gap list by explicit sort',
 'C43': 'filter by symbolic bounds; bars of the filtered trades',
 'C44': 'race recorder over symbolic accesses (cells equal?), results compared across iteration orders',
 'C45': 'every input cell before = after, column sets unchanged',
}


def main():
    man = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
    seeds = {}
    for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
        seeds.setdefault(json.load(open(f))['property'], []).append(f.split('/')[-2])
    cost = json.load(open(V + '/tools/cost.json')) if os.path.exists(V + '/tools/cost.json') else {}
    out = []
    for line in open(V + '/properties.jsonl'):
        p = json.loads(line)
        if p['id'] not in man:
            continue
        ns = {}
        for node in ast.parse(open(f'{V}/props/{p["id"].lower()}.py').read()).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
                ns[node.targets[0].id] = ast.literal_eval(node.value)
        out.append(f"**{p['id']} {p['title']}.** Oracle: {ORACLE.get(p['id'], '')}. Bounds: {ns['BOUNDS']}. "
                   + (f"Assumed: {'; '.join(ns['ASSUMPTIONS'])}. " if ns.get('ASSUMPTIONS') else '')
                   + f"Beyond tests: {p['why_tests_cant']} "
                   + (f"Cost: {cost[p['id']]} s. " if p['id'] in cost else '')
                   + (f"Seeded changes caught: {', '.join(seeds[p['id']])}." if p['id'] in seeds else ''))
    s = open(V + '/tools/DESIGN.in.md').read().replace('PROPTABLE', '\n\n'.join(out))
    open(V + '/DESIGN.md', 'w').write(s)


main()
