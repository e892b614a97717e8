"""Native replay of a reported counterexample:  python3-vt -m symx.replay FILE"""
import json
import sys

from .run import Plain


def main():
    d = json.load(open(sys.argv[1]))
    r = Plain(d['property'].lower()).run([{'part': d['part'], 'inputs': d['inputs'], 'tier': d['tier']}])[0]
    print(json.dumps(r, indent=1))
    return 1 if r['outcome'] in ('check', 'raise') else 0


if __name__ == '__main__':
    sys.exit(main())
