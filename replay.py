"""Replays recorded inputs on the unmodified package.

  replay.py FILE      one counterexample file; exit 1 if the property fails
  replay.py --batch   jobs as JSON on stdin, results as JSON on stdout
"""
import json
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')


def main():
    from vf import runner
    if sys.argv[1] == '--batch':
        jobs = json.load(sys.stdin)
        real = os.dup(1)
        os.dup2(2, 1)
        res = [runner.replay_values(*j) for j in jobs]
        os.dup2(real, 1)
        sys.stdout.write(json.dumps(res))
        sys.stdout.flush()
        return 0
    r = runner.replay_file(sys.argv[1])
    if r['raised']:
        print(r.get('tb') or r['raised'])
    for label, bad in r['fails']:
        print('%s: %s' % (label, bad))
    if r['raised'] or r['fails']:
        print('REPRODUCED')
        return 1
    print('not reproduced')
    return 0


if __name__ == '__main__':
    sys.exit(main())
