#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after editing the properties)."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
ORACLE = {
    'C01': 'contracts on the angle operations, independent modular arithmetic',
    'C02': 'contracts on angular order and sweep queries, exact circular arithmetic',
    'C03': 'contracts on the trigonometric helpers, independent libm oracle',
    'C04': 'contracts on vector algebra, exact rational oracle',
    'C05': 'contracts on polar and rotation calls, independent trigonometric oracle',
    'C06': 'trace relations over equality, hashing and validity of observed values',
    'C07': 'contracts on line construction, incidence oracle',
    'C08': 'contracts on line queries, exact rational oracle',
    'C09': 'contracts on crossing predicates, exact rational oracle',
    'C10': 'contracts on segment intersections, exact rational oracle',
    'C11': 'contracts on segment distances, exact nearest-point oracle',
    'C12': 'contracts on ray queries, exact rational oracle',
    'C13': 'contracts on circle intersections, high-precision oracle',
    'C14': 'contracts on circle-circle intersections, high-precision oracle',
    'C15': 'contracts on circle queries, high-precision oracle',
    'C16': 'contracts on triangle queries, exact orientation oracle',
    'C17': 'contracts on triangle centres, defining-property oracle',
    'C18': 'contracts on triangle intersections, exact rational oracle',
    'C19': 'contracts on polygon queries, exact point-in-polygon oracle',
    'C20': 'contracts on polygon measures, exact rational oracle',
    'C21': 'contract on clipping, exact region-sampling oracle',
    'C22': 'contracts on hull computation, exact reference hull',
    'C23': 'state-machine monitor of rectangle edits against a model box',
    'C24': 'contracts on rectangle queries, exact oracle',
    'C25': 'contracts on sector queries, high-precision annular-wedge oracle',
    'C26': 'contracts on matrices, exact rational affine oracle',
    'C27': 'contracts on motion models, step-by-step simulation oracle',
    'C28': 'contracts on rounding helpers, exact rational oracle',
    'C29': 'state and aliasing monitor: deep snapshots around every call',
    'C30': 'trace checker: repeated, reordered and concurrent calls against recorded answers',
    'C31': 'trace relations over the ways of building and assigning',
    'C32': 'trace relations between shapes that describe one region',
    'C33': 'metamorphic trace relations: symmetric copies of one history',
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    checks.append(dict(
        property=i,
        quick_cmd=f'python3 check.py {i} --tier quick',
        thorough_cmd=f'python3 check.py {i} --tier thorough',
        evidence_file=f'evidence/{i}.json',
        technique='runtime monitoring: ' + ORACLE[i],
        level='exploration',
        level_note='Held on every observed execution of the real code under generated, hostile and coverage-guided '
                   'histories; trusts the oracle and the public accessors used for snapshots, and says nothing about '
                   'inputs that were not exercised or that lie inside the tolerance bands given in DESIGN.md.'))
m = dict(version=1,
         setup_cmd="python3 -c 'import sys; sys.dont_write_bytecode=True; import mon.runner as r; r.load()'",
         checks=checks, not_applicable=[],
         notes='No hooks are committed in /repo: the monitors are attached from the harness at run time to the '
               'public functions of whatever /repo/src/pyrusgeom contains.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
