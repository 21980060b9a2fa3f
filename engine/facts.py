"""Loading of the per-crate fact files written by the rustc driver."""
import json, os, re

FACTS = os.environ.get('FACTS_DIR', '/verif/build/facts')
_PATH = re.compile(r'^\{"t":"body","path":"((?:[^"\\]|\\.)*)","kind":"(\w+)"(?:,"uid":"([^"]*)")?')


class Body:
    __slots__ = ('path', 'kind', '_line', '_d', 'crate', '_an', 'key')

    def __init__(self, path, kind, line, crate):
        self.path, self.kind, self._line, self.crate = path, kind, line, crate
        self._d = None
        self._an = {}

    @property
    def d(self):
        if self._d is None:
            self._d = json.loads(self._line)
            self._line = None
        return self._d

    @property
    def file(self):
        return self.d['file']

    def __repr__(self):
        return 'Body(%s)' % self.path


class Facts:
    def __init__(self, crates, facts_dir=None):
        self.dir = facts_dir or FACTS
        self.bodies = {}
        self.types = {}
        self.impls = []
        self.crates = []
        self._suffix = {}
        self.by_uid = {}
        for c in crates:
            self.load(c)

    def load(self, crate):
        p = os.path.join(self.dir, crate + '.jsonl')
        with open(p) as f:
            for line in f:
                m = _PATH.match(line)
                if m:
                    b = Body(m.group(1), m.group(2), line, crate)
                    # several anonymous items may share a path; keep the first and number the rest
                    k = b.path
                    n = 1
                    while k in self.bodies:
                        n += 1
                        k = '%s@%d' % (b.path, n)
                    self.bodies[k] = b
                    b.key = k
                    if m.group(3):
                        self.by_uid[m.group(3)] = k
                    last = b.path.rsplit('::', 1)[-1]
                    self._suffix.setdefault(last, []).append(b)
                else:
                    d = json.loads(line)
                    if d['t'] == 'impl':
                        self.impls.append(d)
                    else:
                        self.types[d['path']] = d
        self.crates.append(crate)

    def find(self, pat, kind=None):
        """All bodies whose path equals pat or ends with '::'+pat."""
        last = pat.rsplit('::', 1)[-1]
        out = []
        for b in self._suffix.get(last, []):
            if path_match(b.path, pat) and (kind is None or b.kind == kind):
                out.append(b)
        return out

    def one(self, pat):
        r = self.find(pat)
        if len(r) == 1:
            return r[0]
        raise MissingAnchor('%s: %d definitions match' % (pat, len(r)))

    def type(self, pat):
        r = [t for p, t in self.types.items() if path_match(p, pat)]
        if len(r) == 1:
            return r[0]
        raise MissingAnchor('type %s: %d definitions match' % (pat, len(r)))


class MissingAnchor(Exception):
    pass


_NUM = re.compile(r'@\d+')
_NORM = re.compile(r'<([^<>]*) as ([^<>]*)>')


def norm_path(p):
    """<a::T as b::Tr>::m  ->  a::T::m"""
    while True:
        q = _NORM.sub(lambda m: m.group(1), p)
        if q == p:
            return p
        p = q


_pm = {}


def path_match(path, pat):
    k = (path, pat)
    r = _pm.get(k)
    if r is None:
        r = False
        path = _NUM.sub('', path)
        for one in pat.split('|'):
            if path == one or path.endswith('::' + one):
                r = True
                break
            n = norm_path(path)
            if n == one or n.endswith('::' + one):
                r = True
                break
        _pm[k] = r
    return r
