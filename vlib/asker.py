"""Program run by H02 and R03 with different hash seeds: loads or restores dictionaries, prints their data and answers"""
import json
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib.checks_total import answer, canon, public  # noqa: E402


def main():
    from spylls.hunspell import Dictionary
    out = []
    with open(sys.argv[1], encoding='ascii') as f:
        jobs = json.load(f)
    for path, ops in jobs:
        try:
            if path.endswith('.pickle'):
                with open(path, 'rb') as f:
                    d = pickle.load(f)
            else:
                d = Dictionary.from_files(path)
            out.append(dict(error=None, data=canon(public(d)), answers=[answer(d, op) for op in ops]))
        except Exception as e:   # pylint: disable=broad-except
            out.append(dict(error=f'{type(e).__name__}: {e}', data=None, answers=[]))
    json.dump(out, sys.stdout, ensure_ascii=True)


main()
