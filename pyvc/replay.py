"""python -m pyvc.replay FILE: replays the failing input recorded by a check, or prints the obligation it could not discharge."""
import json
import sys
from . import run
import importlib
import random


def main(path):
    doc = json.load(open(path))
    print(f'property {doc["property"]}, goal {doc["goal"]}, case {doc["case"]!r}')
    for o in doc.get('failed_obligations') or []:
        print('  obligation not discharged:', o['name'], o.get('detail') or '', 'counter-model:', o.get('model'))
    f = doc.get('failing_input')
    if not f:
        print('no failing input is recorded')
        return 1
    import numpy as np
    from . import harness as H
    g = [x for x in run.collect(importlib.import_module(doc['module'])) if x.name == doc['goal']][0]
    if g.setup:
        g.setup()
    np.random.seed(f['seed'] % 2 ** 32)
    out, msg, log = H.run_concrete(g, g.cases[doc['case_index']], f['seed'], f['model'])
    for name, v in log:
        print(f'  {name} = {v}')
    print(out, msg)
    return 0 if out == 'ok' else 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
