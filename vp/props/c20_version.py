import os, warnings
import lib
warnings.simplefilter('ignore')
import augpathlib as aug
from augpathlib import package
from packaging.version import Version, parse
aug.utils.log.setLevel('CRITICAL')
NO = dict(k='no', n=-1)


class Released(package.PackagePath):
    """ a package whose releases are known without asking anyone """
    pypi_json = None


def text(v):
    t = ''
    if v['epoch']:
        t += f"{v['epoch']}!"
    t += '.'.join(str(n) for n in v['rel'])
    if v['pre']['k'] != 'no':
        t += f"{v['pre']['k']}{v['pre']['n']}"
    if v['post'] >= 0:
        t += f".post{v['post']}"
    if v['dev'] >= 0:
        t += f".dev{v['dev']}"
    if v['local'] != 'no':
        t += f"+{v['local']}"
    return t


def record(v):
    return dict(epoch=v.epoch, rel=list(v.release), pre=dict(k=v.pre[0], n=v.pre[1]) if v.pre else dict(NO),
                post=-1 if v.post is None else v.post, dev=-1 if v.dev is None else v.dev,
                local='no' if v.local is None else v.local)


class Versions(lib.Binding):
    module = 'Version'

    def start(self, st, rng, root):
        self.rng = rng
        self.v = parse(text(st['v']))
        assert record(self.v) == st['v'], (text(st['v']), record(self.v))

    def do(self, op):
        v, ph, c = self.v, op['ph'], op['c']
        before = str(v)
        kw = {}
        if ph != 'current' or self.rng.random() < .5:
            kw['next_phase'] = ph
        if c != 'release' or self.rng.random() < .5:
            kw['rel_comp'] = c
        try:
            if self.rng.random() < .3:
                older = [f'0.0.{i}.dev{self.rng.randint(0, 3)}' for i in range(self.rng.randint(0, 2))]
                p = Released('/nowhere/setup.py')
                names = [before] + [o for o in older if parse(o) < v]
                self.rng.shuffle(names)
                p.pypi_json = dict(info=dict(version=before), releases={n: [] for n in names})
                got = p.version_next(**kw)
            else:
                got = package.next_version(v, **kw)
        except Exception:
            got = None
        if str(v) != before:
            return 'changed the version it was given'
        if got is None:
            return 'refused'
        if not isinstance(got, Version):
            return f'a {type(got).__name__}'
        if parse(str(got)) != got:
            return f'is not the version it shows'
        if not got > v:
            return f'{got} is not greater'
        self.v = parse(str(got))
        return 'next'

    def project(self):
        return dict(v=record(self.v))

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        n = lambda: rng.choice([0, 0, 1, 2, 9, 10, 99])
        v = dict(epoch=rng.choice([0, 0, 0, 1]), rel=[n() for _ in range(rng.choice([1, 2, 3, 3, 3, 3, 4, 5]))],
                 pre=dict(NO), post=-1, dev=-1, local=rng.choice(['no'] * 8 + ['0', 'ab', 'ab.1', '7']))
        k = rng.choice(['', '', 'pre', 'pre', 'post', 'dev'])
        if k == 'pre':
            v['pre'] = dict(k=rng.choice(['a', 'b', 'rc']), n=n())
        elif k:
            v[k] = n()
        if rng.random() < .2:
            v[rng.choice(['post', 'dev'])] = n()
        return dict(v=v)

    def random_op(self, rng, st):
        return dict(op='next', ph=rng.choice(PHASES), c=rng.choice(['release', 'release', 'major', 'minor', 'micro']))


PHASES = ['current', 'dev', 'pre', 'a', 'b', 'rc', 'release', 'major', 'minor', 'micro', 'post', 'local']
PROPS = ['Greater', 'Asked', 'KeepsRelease', 'ZeroesAfter', 'NeverBack', 'PostFromRelease']


def check(c):
    b = Versions()
    big = dict(Mixed=False, Releases={'1.2.3', '0.0.0', '1.9', '7', '1.2.0.4'}, Pres={0, 2}, Posts={0, 1}, Devs={0, 3},
               Locals={'ab'}, Epochs={0, 1} if c.thorough else {0})
    t = c.model('Version', dict(big, MaxOps=2 if c.thorough else 1), ['TypeOK', 'NeverStuck'], PROPS, expect=['next/next', 'next/refused'])
    c.replay(b, t, limit=None if c.thorough else 8000, tag='successors')
    m = c.model('Version', dict(big, Mixed=True, Releases={'1.2.3'}, Pres={1}, Posts={1}, Devs={0}, Locals=set(), MaxOps=1), ['TypeOK', 'NeverStuck'],
                [p for p in PROPS if p not in ('KeepsRelease', 'ZeroesAfter')], expect=['next/next', 'next/refused'])
    c.replay(b, m, limit=None if c.thorough else 4000, tag='several things at once')
    c.record(b, 3000 if c.thorough else 500, 15, dict(big, MaxOps=1000000))
    c.assumptions += ['versions in the normal form of PEP 440']
