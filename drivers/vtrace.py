"""Recording of the behaviour of the repository's Python tools."""
import json, os, random, sys


def args():
    a = sys.argv[1:]
    return {a[i].lstrip('-'): a[i + 1] for i in range(0, len(a) - 1, 2)}


class Trace:
    def __init__(self, path):
        self.f = open(path, 'w')

    def ev(self, e, **kw):
        d = {'e': e}
        d.update(kw)
        self.f.write(json.dumps(d, separators=(',', ':')) + '\n')
        self.f.flush()
