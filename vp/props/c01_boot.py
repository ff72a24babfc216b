import hashlib, os, shutil
import lib, mem
import augpathlib as aug
from augpathlib import PathMeta
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
SETS = [('a', 'b', 'c.inc'), ('ab', 'a', 'a.inc'), ('x y', 'x.tar.gz', '.inc'), ('.h', '.h.h', 'ü.inc'), ('operations', '.operations.d', ' .inc'), ('n' * 60, 'm', 'm.m.inc')]
FIELDS = 'id', 'size', 'checksum', 'created', 'updated', 'file_id', 'user_id'


class Boot(lib.Binding):
    module = 'Boot'

    def start(self, st, rng, root):
        self.rng = rng
        base = os.path.realpath(str(root))
        self.root = base + '/r'
        self.names = dict(zip('123', rng.choice(SETS)))
        self.prefix = rng.choice(['f', 'N:x:'])
        self.alike = rng.random() < .4
        self.salt = rng.randrange(1 << 30)
        self.w = w = mem.World('r')
        self.Local, self.Cache, self.Remote = mem.make(w)
        self.Remote.init(w.root)
        self.Remote.dropAnchor(self.Local(base))
        self.internal = self.Cache(self.root).local_data_dir.name
        os.chdir(base)
        for e in st['r']:
            self.object(e)
        if st['l'] or st['marks']:
            raise lib.MachineryError('not an initial state')

    def id(self, p):
        if not p:
            return self.w.root
        # ids that are parts of each other
        return self.prefix + (str(p) if not self.alike else '-'.join('7' * int(c) for c in str(p)))

    def number(self, i):
        i = i[len(self.prefix):]
        return int(i) if not self.alike else int(''.join(str(len(x)) for x in i.split('-')))

    def path(self, p):
        return '/'.join([self.root] + [self.names[c] for c in str(p or '')])

    def data(self, p, v):
        return b'%d' % p * (p % 3) + b'.' * (v - 1)

    def object(self, e):
        p, v = e['p'], e['v']
        self.w.o[self.id(p)] = dict(kind='d' if e['k'] == 'dir' else 'f', parent=self.id(p // 10), name=self.names[str(p)[-1]],
                                    data=self.data(p, v), meta=self.facts(e['k'], p, v))

    def facts(self, k, p, v):
        h = hashlib.sha256(b'%d %d' % (self.salt, p)).digest()
        m = dict(created=mem.when(1 + h[0] % 5), updated=mem.when(5 + v + h[1] % 5))
        if k == 'file':
            d = self.data(p, v)
            m.update(size=len(d), checksum=hashlib.sha256(d).digest(), file_id=p)
            if v == 1 and h[2] % 4 == 0:
                del m['checksum']
        if h[3] % 2:
            m['user_id'] = 'u%d' % p
        return m

    def do(self, op):
        w, o, p = self.w, op['op'], op['at']
        if o == 'boot':
            cache = self.spell(p)
            kw = {k: self.rng.choice([list, tuple, set])(map(self.id, op[k])) for k in ('only', 'skip', 'sparse') if op[k] or self.rng.random() < .5}
            w.trip = self.rng.randint(0, 12) if op['fail'] else None
            try:
                if self.rng.random() < .5:
                    out = cache.remote.bootstrap(recursive=True, **kw)
                else:
                    out = cache.bootstrap(cache.remote.meta, recursive=True, **kw)
            except mem.Tripped:
                return 'interrupted'
            finally:
                w.trip = None
            ps = []
            for c in out:
                if not isinstance(c, self.Cache):
                    return f'{c!r} is not a cache'
                q = 0 if c.id == w.root else self.number(c.id)
                if os.path.realpath(c.parent) + '/' + c.name != self.path(q):
                    return f'{c} is not where {c.id} is'
                ps.append(q)
            if len(set(ps)) != len(ps):
                return f'more than once: {sorted(ps)}'
            return '<<' + ', '.join(map(str, sorted(ps))) + '>>'
        if o in ('again', 'noid'):
            cache = self.spell(p)
            m = cache.remote.meta if o == 'again' else self.rng.choice([PathMeta(), PathMeta(name='x', size=3)])
            try:
                cache.bootstrap(m, recursive=o == 'noid')
            except aug.exceptions.BootstrappingError:
                return 'refused'
        elif o == 'fetch':
            self.Cache(self.path(p)).fetch(size_limit_mb=None)
        elif o == 'edit':
            with open(self.path(p), 'wb') as f:
                f.write(b'edited')
        elif o == 'mk':
            if op['k'] == 'udir':
                os.mkdir(self.path(p))
            else:
                with open(self.path(p), 'wb') as f:
                    f.write(b'mine')
        elif o == 'rm':
            x = self.path(p)
            shutil.rmtree(x) if os.path.isdir(x) and not os.path.islink(x) else os.unlink(x)
        elif o == 'grow':
            self.object(dict(p=p, k=op['k'], v=1))
        elif o == 'change':
            self.object(dict(p=p, k='file', v=2))
        return 'done'

    def spell(self, p):
        a = self.path(p)
        k = self.rng.random()
        if k < .5:
            return self.Local(a).cache
        if k < .7:
            return self.Cache(a)
        if k < .85:
            return self.Local(os.path.relpath(a)).cache
        return self.Local(self.root + '/../' + os.path.relpath(a)).cache

    def project(self):
        inv = {v: k for k, v in self.names.items()}
        l, marks = [], []
        for base, ds, fs in os.walk(self.root):
            if base == self.root:
                if self.internal not in ds:
                    raise lib.Mismatch('the internal folder is gone')
                ds.remove(self.internal)
            for n in ds + fs:
                full = os.path.join(base, n)
                rel = os.path.relpath(full, self.root).split('/')
                if any(x not in inv for x in rel):
                    raise lib.Mismatch(f'not expected: {rel}')
                p = int(''.join(inv[x] for x in rel))
                k = 'link' if os.path.islink(full) else 'dir' if os.path.isdir(full) else 'file'
                c = self.Local(full).cache
                m = c.meta if c is not None else None
                v = 0
                if m is None:
                    k = 'u' + k
                else:
                    v = self.version(p, k, m)
                data = 0
                if k in ('file', 'ufile'):
                    with open(full, 'rb') as f:
                        b = f.read()
                    data = 3 if b == b'edited' else 2 if b == b'mine' else 1 if b == self.data(p, v) else 9
                l.append(dict(p=p, k=k, v=v, c=data))
                if k == 'dir' and c.is_sparse():
                    if p < 10:
                        marks.append(p)
                    elif int(str(p)[0]) not in [x for x in (1, 2, 3) if self.sparse(x)]:
                        raise lib.Mismatch(f'{rel} is sparse, not what it is in')
        if self.Cache(self.root).meta.id != self.w.root or self.Cache(self.root).is_sparse():
            raise lib.Mismatch('the root changed')
        r = [dict(p=self.number(i), k='dir' if o['kind'] == 'd' else 'file', v=self.v(i)) for i, o in self.w.o.items() if i != self.w.root]
        return dict(r=sorted(r, key=lambda e: e['p']), l=sorted(l, key=lambda e: e['p']), marks=sorted(marks))

    def sparse(self, p):
        c = self.Local(self.path(p)).cache
        return c is not None and os.path.isdir(c) and c.is_sparse()

    def v(self, i):
        p = self.number(i)
        return 1 if self.w.o[i]['meta'] == self.facts('dir' if self.w.o[i]['kind'] == 'd' else 'file', p, 1) else 2

    def version(self, p, k, m):
        for v in (1, 2):
            want = dict(dict.fromkeys(FIELDS), id=self.id(p), **self.facts('dir' if k == 'dir' else 'file', p, v))
            if all(getattr(m, f) == want[f] for f in FIELDS):
                return v
        raise lib.Mismatch(f'{p}: records {m}')

    def is_init(self, pre):
        return not pre['l'] and not pre['marks']

    def random_init(self, rng):
        r = []
        for p in (1, 2, 3, 11, 12, 13, 21, 23, 31, 111, 113, 121, 213, 1111, 1113):
            up = {e['p']: e for e in r}.get(p // 10)
            if p > 9 and (up is None or up['k'] != 'dir') or rng.random() < .3:
                continue
            r.append(dict(p=p, k=rng.choice(['dir', 'dir', 'file'] if p < 100 else ['dir', 'file']), v=1))
        return dict(r=r, l=[], marks=[])

    def random_op(self, rng, st):
        no = dict(op='', at=0, only=[], skip=[], sparse=[], fail=False, k='')
        r = {e['p']: e for e in st['r']}
        l = {e['p']: e for e in st['l']}
        tops = [p for p in r if p < 10]
        some = lambda xs, q: sorted(rng.sample(xs, rng.randint(1, len(xs)))) if xs and rng.random() < q else []
        x = rng.random()
        everywhere = [q for q in range(1, 1000) if set(str(q)) <= set('123')]
        if x < .4 or not l:
            at = rng.choice([0, 0] + [p for p in tops if l.get(p, {}).get('k') == 'dir'])
            new = sum(p not in l for p in r)
            return dict(no, op='boot', at=at, only=some(tops, .3), skip=some(tops, .2), sparse=some([p for p in tops if r[p]['k'] == 'dir'], .3),
                        fail=not at and new < 6 and rng.random() < .3)
        if x < .44:
            return dict(no, op=rng.choice(['again', 'noid']), at=rng.choice([0] + [p for p in l if l[p]['k'] == 'dir']))
        if x < .6:
            c = [p for p in l if l[p]['k'] == 'link' and l[p]['v'] == r[p]['v']]
            return dict(no, op='fetch', at=rng.choice(c)) if c else None
        if x < .66:
            c = [p for p in l if l[p]['k'] == 'file' and l[p]['c'] == 1]
            return dict(no, op='edit', at=rng.choice(c)) if c else None
        if x < .72:
            return dict(no, op='rm', at=rng.choice(list(l)))
        if x < .78:
            c = [p for p in r if r[p]['k'] == 'file' and r[p]['v'] == 1 and l.get(p, {}).get('k') != 'file']
            return dict(no, op='change', at=rng.choice(c)) if c else None
        free = [p for p in everywhere if p not in l and p not in r]
        if x < .88:
            c = [p for p in free if p < 10 or l.get(p // 10, {}).get('k') in ('dir', 'udir')]
            return dict(no, op='mk', at=rng.choice(c), k=rng.choice(['udir', 'ufile'])) if c else None
        c = [p for p in free if (p < 10 or r.get(p // 10, {}).get('k') == 'dir')]
        return dict(no, op='grow', at=rng.choice(c), k=rng.choice(['dir', 'file'])) if c else None


def check(c):
    b = Boot()
    inv = ['IsTree', 'OneToOne'], ['Mirrors', 'NothingElse', 'KeepsData']
    ops = {'again', 'noid', 'fetch', 'edit', 'mk', 'rm', 'grow', 'change'}
    base = dict(Paths={1, 2, 3, 11, 13, 113}, OpNames=set(), Fails={False}, Selections={'only', 'skip', 'sparse'}, MaxRemote=5, MaxOps=1)
    t = c.model('Boot', base, *inv)
    c.replay(b, t, limit=40000 if c.thorough else 2500, tag='fresh')
    t = c.model('Boot', dict(base, Selections={'sparse'}, Fails={True}, MaxRemote=4), *inv, expect=['boot/interrupted'])
    c.replay(b, t, reps=4, limit=20000 if c.thorough else 500, tag='interrupted')
    t = c.model('Boot', dict(base, Paths={1, 2, 11, 13}, OpNames=ops, MaxRemote=2, MaxOps=4 if c.thorough else 3, Selections={'sparse'}), *inv,
                expect=[o for o in ops])
    c.walks(b, t, 4000 if c.thorough else 500, 8, tag='histories')
    c.record(b, 6000 if c.thorough else 500, 12, dict(base, MaxOps=99, MaxRemote=0, OpNames=ops, Fails={False, True}))
