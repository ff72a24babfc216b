import hashlib, warnings
import lib, mem
import augpathlib as aug
from augpathlib import PathMeta
from augpathlib.utils import FileSize
warnings.simplefilter('ignore')
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
F = ('size', 'created', 'updated', 'checksum', 'id', 'file_id', 'name', 'errors')


def people(n):
    # a number below 1024 and the unit
    k = 0
    while n >= 1024 ** (k + 1):
        k += 1
    return '%.0f' % (n / 1024 ** k) + ' KMGTPEZ'[k].strip()


class Compare(lib.Binding):
    module = 'Compare'

    def start(self, st, rng, root):
        self.rng = rng
        two = rng.choice([1, 2])
        self.v = dict(
            size=rng.choice([(5, 6), (0, 1), (1023, 5000000), (1024, 1024 ** 2), (1025, 2 ** 30 - 1), (2 ** 40, 3 * 2 ** 50), (2 ** 60, 2 ** 71)]),
            created=(mem.when(3), mem.when(4)),
            updated=rng.choice([(mem.when(5), mem.when(6)), (mem.when(5), mem.when(5).replace(microsecond=1)), (mem.when(1), mem.when(28))]),
            checksum=tuple(hashlib.sha256(b'%d' % i).digest() for i in (1, 2)),
            id=rng.choice([('N:a:1', 'N:a:2'), ('1', '2'), ('ü', 'u')]),
            file_id=rng.choice([(7, 8), (0, 1), (10, 1)]),
            name=rng.choice([('a', 'b'), ('size', 'Key'), ('x y', 'x  y')]),
            errors=(('one', ), ('one', 'two')))
        self.set = [dict(zip(F, m)) for m in st['m']]
        self.m = [self.make(i) for i in (0, 1)]

    def make(self, i):
        kw = {}
        for f, n in self.set[i].items():
            if n:
                v = self.v[f][n - 1]
                if f == 'size' and self.rng.random() < .3:
                    v = FileSize(v)
                elif f == 'errors' and self.rng.random() < .3:
                    v = list(v)
                elif f in ('created', 'updated') and self.rng.random() < .3:
                    v = v.isoformat()
                kw[f] = v
            elif self.rng.random() < .2:
                kw[f] = () if f == 'errors' else None
        return PathMeta(**kw)

    def text(self, f, n, human):
        v = self.v[f][n - 1]
        if f == 'size':
            return people(v) if human else str(v)
        if f == 'checksum':
            return v.hex()
        if f == 'errors':
            return str(list(v))
        if f in ('created', 'updated'):
            return [v.strftime('%Y-%m-%dT%H:%M:%S') + x + 'Z' for x in ('.%06d' % v.microsecond, ',%06d' % v.microsecond, '')][:3 if not v.microsecond else 2]
        return str(v)

    def rows(self, table, which, human):
        """what the table says, in the words of the specification"""
        lines = [l[1:-1].split('|') for l in table.splitlines() if l.startswith('|')]
        out = []
        for cells in lines[1:]:
            if len(cells) != 2 * len(which):
                return f'{cells}'
            row = []
            for k, i in enumerate(which):
                f, v = cells[2 * k][1:].rstrip(), cells[2 * k + 1][1:].rstrip()
                if not f:
                    row.append('' if not v else f'{v} of nothing')
                    continue
                n = self.set[i].get(f, 0)
                want = self.text(f, n, human) if n else None
                row.append(f'{f}={n}' if v == want or isinstance(want, list) and v in want else f'{f} is {v} not {want}')
            out.append(row)
        return '<<' + ', '.join('<<' + ', '.join(f'"{c}"' for c in r) + '>>' for r in out) + '>>'

    def do(self, op):
        k, i = op['op'], op['p'] - 1
        a, b = self.m[i], self.m[1 - i]
        yes = lambda x: {True: 'yes', False: 'no'}.get(x, f'neither yes nor no: {x!r}') if x in (True, False) else f'neither: {x!r}'
        human = self.rng.random() < .3
        if k == 'set':
            self.set[i][F[op['f'] - 1]] = op['v']
            self.m[i] = self.make(i)
            return 'ok'
        elif k == 'show':
            kw = dict(title='title') if self.rng.random() < .5 else {}
            return self.rows(a.as_pretty(human=human, **kw), [i], human)
        elif k == 'diff':
            t = a.as_pretty_diff(b, title='T', human=human)
            red = '\x1b[31mT' in t.splitlines()[0]
            return yes(red) + ' ' + self.rows(t, [i, 1 - i], human)
        elif k == 'differs':
            return yes(a.content_different(b))
        elif k == 'same':
            r = a == b
            if (b == a) is not r or (a != b) is r:
                return 'two answers'
            return yes(r)
        elif k == 'any':
            return yes(bool(a))

    def project(self):
        out = []
        for i in (0, 1):
            m, r = self.m[i], []
            if dict(m.items()).keys() - {'size'} != set(m.keys()) - {'size'}:
                raise lib.Mismatch('items and keys')
            for f in F:
                v = m[f] if self.rng.random() < .5 else getattr(m, f)
                if v is None or v == ():
                    r.append(0)
                else:
                    r.append(next((n for n in (1, 2) if v == self.v[f][n - 1]), 9))
            out.append(r)
        return dict(m=out)

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        return dict(m=[[rng.choice([0, 0, 1, 2]) for _ in F] for _ in P])

    def random_op(self, rng, st):
        if rng.random() < .4:
            while True:
                o = dict(op='set', p=rng.choice(P), f=rng.randrange(len(F)) + 1, v=rng.choice([0, 1, 2]))
                if st['m'][o['p'] - 1][o['f'] - 1] != o['v']:
                    return o
        return dict(op=rng.choice(['show', 'diff', 'diff', 'differs', 'same', 'any']), p=rng.choice(P))


P = (1, 2)
INV = ['TypeOK', 'Complete', 'Irreflexive', 'SameIsNotDifferent']


def check(c):
    b = Compare()
    base = dict(MaxOps=1, Active=set(F) - {'id', 'errors'} if c.thorough else set(F) - {'id', 'created', 'errors'}, Vals={0, 2})
    t = c.model('Compare', base, INV, ['AskingIsFree'], expect=[])
    c.replay(b, t, limit=40000 if c.thorough else 6000, tag='which fields')
    t = c.model('Compare', dict(base, Active={'size', 'updated', 'checksum'}, Vals={0, 1, 2}), INV, ['AskingIsFree'], expect=['differs/yes', 'differs/no', 'same/yes', 'same/no', 'any/yes', 'any/no'])
    c.replay(b, t, limit=20000 if c.thorough else 4000, tag='which values')
    c.walks(b, t, 1000 if c.thorough else 200, 12)
    c.record(b, 3000 if c.thorough else 300, 30, dict(base, MaxOps=1000000, Active=set(F), Vals={0, 1, 2}))
