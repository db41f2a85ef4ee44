#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed properties."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
import cases  # noqa: E402

TRUST = (' Assumes that a fault or preemption falls between executed source lines of the package; trusts the reference model '
         '(sim/fpmodel.py), CPython and bronx. Sampling: a clean batch is evidence, not proof.')
NOTES = dict(
    P01='Seeded histories of definitions, removals, priority and default changes, failing and interrupted operations; every '
        'load/find/default through every entry point is compared with an independent reference model of the choice.',
    P02='Same simulated histories, value oriented: every attribute of every object loaded or built is compared with the '
        'reference resolution (source order, substitution, remap, conversion, allowed and excluded values, restrictions), also '
        'after failed and interrupted resolutions.',
    P03='Each history runs several times: other hash seeds, identity salts, orders of class definition and of description keys, '
        'in different processes; all outcomes must agree with each other and with the reference model.',
    P04='Histories mixing index declarations with additions, removals, emptying and searches, with failures; searches compared '
        'with the reference search that knows no index.',
    P05='Lists of instances, liveness and searches of instances compared with the model after every event, objects and weak '
        'targets dying and garbage collections occurring at chosen steps inside the operations.',
    P06='default() compared with the model upon histories of objects of every origin, with deaths and failures mid-operation.',
    P07='All attributes of all live objects re-read after every operation; writes and deletes compared with the model, also cut '
        'short or failing.',
    P08='Copies, deep copies, clones, pickles, and restarts: objects saved on a simulated disk and read again by another '
        'process under another hash seed, with torn files; values, independence, reuse and tracking compared with the model.',
    P09='Footprints of all classes, shared footprint objects and shared dictionaries compared with the model after every '
        'operation; definitions rejected or failing in user code included.',
    P10='Histories of all the operations upon priority sets with failing and interrupted ones and concurrent readers, against a '
        'plain list.',
    P11='Interrupts at chosen or systematically swept steps and exceptions in every kind of user code; the complete observable '
        'state and all later operations must be those of the model where the operation was never attempted.',
    P12='Real threads released one at a time by the seed, preempted between lines of footprints, and resolutions '
        'nested in user code; each result and each report entry must be those of the operation alone.',
    P13='Adversarial substitution and remapping graphs under a step budget; the reference model tells which requests must not '
        'be refused.',
    P14='Histories of searches, views and clearings under a clock that stalls, repeats and goes back; every view compared with '
        'a reference log.',
    P15='Expansions against a reference; file patterns against a simulated file system with listing errors, reordering and '
        'concurrent creations and removals.',
    P16='Queries, filters, removals, proxies compared with the model through histories of registry operations.',
    P17='Values given by the callback, defaults and switches change at every step of the history; outcomes, number of '
        'consultations and settings compared with the model.',
)
NA = {
    'P18': 'Generated documentation is a pure function of one class definition: no schedule, clock, fault, input/output or '
           'history takes part in it, so there is nothing for a simulator to decide (the guide: not a simulation target).',
}
LEVEL = dict(P11='fault_enumeration')


def main():
    ids = [json.loads(x)['id'] for x in open(os.path.join(VERIF, 'properties.jsonl'))]
    checks, na = [], []
    for p in ids:
        if p in cases.RUNS:
            checks.append(dict(
                property=p, quick_cmd='/opt/venv/bin/python -B check.py {} --tier quick'.format(p),
                thorough_cmd='/opt/venv/bin/python -B check.py {} --tier thorough'.format(p),
                evidence_file='evidence/{}.json'.format(p),
                technique='deterministic simulation with fault injection (seeded histories, faults and schedules against an '
                          'executable reference model)',
                level=cases.INFO[p]['level'], level_note=NOTES[p] + TRUST))
        else:
            na.append(dict(property=p, reason=NA.get(p) or 'check under construction'))
    doc = dict(version=1, setup_cmd='/opt/venv/bin/python -B tools/setup.py', checks=checks, not_applicable=na,
               notes='No hook in /repo is needed: all the seams (clock, file system, threads, user code, garbage collector, '
                     'identity hashes) are put in place from outside before the package is imported.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
