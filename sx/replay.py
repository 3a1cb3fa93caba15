"""Runs the counterexample of a replay file again on the real code: exit 1 if it still fails."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sx.run import Conc  # noqa: E402


def main():
    d = json.load(open(sys.argv[1]))
    conc = Conc(d['property'])
    out = conc.run(d['harness'], d['inputs'], d['params'])
    conc.close()
    print(d['property'], d['harness'], json.dumps(d['inputs'], ensure_ascii=False))
    print(out.get('status'), out.get('label', ''), json.dumps(out.get('obs'), ensure_ascii=False))
    sys.exit(1 if out['status'] in ('fail', 'timeout', 'died') else 0)


if __name__ == '__main__':
    main()
