import sys
from . import core


def entry():
    a = sys.argv[1:]
    if a and a[0] == '--worker':
        _, prop, tier, seed, shard, n, out = a
        return core.worker(prop, tier, int(seed), int(shard), int(n), out)
    if a and a[0] == '--replay':
        return core.replay(a[1])
    from .meta import META
    return core.main(a[0], META[a[0]])


if __name__ == '__main__':
    sys.exit(entry())
