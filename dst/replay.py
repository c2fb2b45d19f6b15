"""Replay a recorded violation: python3 -m dst.replay FILE. Exit 1 if it happens again exactly, 0 if it does not."""
import json, sys
from . import engine


def main(path):
    with open(path) as f:
        o = json.load(f)
    claim = engine.claim_from_json(o['claim'])
    v, h = engine.evaluate(claim)
    if not v:
        print('no violation: property %s holds for this run' % o['property'])
        return 0
    same = h == o['trace'] and list(v) == list(o['violation'])
    print('%s: %s' % (v[0], v[1]))
    print('executions %s the recorded ones (%s)' % ('are exactly' if same else 'DIFFER from', h[:16]))
    print('VIOLATION property=%s replay=%s' % (o['property'], path))
    return 1 if same or '--any' in sys.argv else 3


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
