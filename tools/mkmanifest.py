"""Writes MANIFEST.json from properties.jsonl and the checks"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vlib import main as M  # noqa: E402

NOTE = ('Every observed execution is judged; nothing is shown about inputs that were not generated. Trusted: the description of the '
        'dictionary given to the monitor, the writer of its files, {oracle}, and the Python interpreter.')
ORACLE = {
    'model': 'the reference model (vlib/model.py, vlib/sugmodel.py), written from the documentation and independent of the code under test',
    'diff': 'the comparison itself: both sides are answers of the code under test',
    'state': 'the observation of the process (descriptors, audit events, allocated blocks, weak references)',
    'tree': 'the description of the folders and archives',
    'total': 'the counters of executed lines',
}
KIND = {'L02': 'diff', 'L03': 'diff', 'H01': 'diff', 'H02': 'diff', 'H03': 'diff', 'T01': 'total', 'H04': 'diff',
        'R01': 'state', 'R02': 'state', 'L04': 'tree', 'L05': 'diff', 'A04': 'diff', 'T02': 'total'}


def main():
    checks = M.checks()
    out = dict(version=1, setup_cmd='true', checks=[], not_applicable=[],
               notes='Pure Python; nothing to build. Checks import spylls from the working tree of /repo, without instrumentation of it.')
    with open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8') as f:
        for line in f:
            p = json.loads(line)['id']
            out['checks'].append(dict(
                property=p, quick_cmd=f'bash run.sh {p}', thorough_cmd=f'bash run.sh {p}', evidence_file=f'evidence/{p}.json',
                technique='runtime monitoring: ' + checks[p].technique, level='exploration',
                level_note=NOTE.format(oracle=ORACLE[KIND.get(p, 'model')])))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(out, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
