"""python -m mc check <property-id> | replay <file>"""
import os
import sys

from . import core


def main(argv):
    sys.setrecursionlimit(3000)
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    import gerber
    where = os.path.dirname(os.path.dirname(os.path.abspath(gerber.__file__)))
    if os.path.realpath(where) != os.path.realpath(core.REPO):
        print('wrong tree under test: %s' % where, file=sys.stderr)
        return 2
    if argv[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
        return core.explore(argv[1], tier, seed)
    if argv[0] == 'replay':
        return core.replay(argv[1])
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
