import os, pathlib, contextlib, hashlib, warnings
import lib, mem
import augpathlib as aug
warnings.simplefilter('ignore')
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True


def body(k):
    return b'object %d ' % k * 3


class Store(lib.Binding):
    module = 'Store'

    def start(self, st, rng, root):
        self.rng = rng
        self.base = os.path.realpath(root)
        self.outname = dict(X=rng.choice(['X', 'X sp', 'x.y']), Y='Y')
        self.w, self.cls = {}, {}
        pathlib.Path(self.base, 'out').mkdir()
        for z in 'XY':
            x = st['x'][z]
            if x['th']:
                self.out(z).mkdir()
                for k in self.on(x['keys']):
                    (self.out(z) / f'f{k}').write_bytes(body(k))
        # another spelling of the folder the stores are in
        os.symlink('out', self.base + '/alias')
        for i in (1, 2):
            w = self.w[i] = mem.World('root')
            for k in (1, 2):
                w.add(f'f{k}', 'f', 'r0', f'n{k}', body(k))
            w.add('f9', 'f', 'r0', 'junk', b'junk')
            q = st['p'][i - 1]
            pathlib.Path(self.base, f'p{i}').mkdir()
            self.root(i).mkdir()
            self.fresh(i)
            L, C, R = self.cls[i]
            C(self.root(i), meta=R('r0').meta)
            self.anchor(i)
            for k in (1, 2):
                C(self.root(i) / f'n{k}', meta=R(f'f{k}').meta)
            d = self.dd(i)
            if q['dd']:
                d.mkdir()
            o = d / 'objects'
            if q['obj'] == 'own':
                o.mkdir()
                for k in self.on(q['own']):
                    (o / f'f{k}').write_bytes(body(k))
            elif q['obj'] == 'file':
                o.write_text('mine')
            elif q['obj'] != 'none':
                o.symlink_to(self.out(q['obj']))
            if q['tr']:
                (d / 'trash').mkdir()
            if q['tr'] == 2:
                (d / 'trash' / 'old').write_text('old')

    def root(self, i):
        return pathlib.Path(self.base, f'p{i}', 'root')

    def dd(self, i):
        return self.root(i) / '.operations'

    def out(self, z):
        return pathlib.Path(self.base, 'out', self.outname[z])

    def fresh(self, i):
        """the classes of the application that works on project i: what it fetches it keeps"""
        L, C, R = mem.make(self.w[i])

        def data(self):
            o = self.local_object_cache_path
            if o.exists():
                yield from o.data
                return
            got = b''.join(self.remote.data)
            if self.local_objects_dir.is_dir() and self.id != 'f9':
                o.data = iter([got])
            yield got
        for c in (C, ) + tuple(C.__subclasses__()):
            if 'data' in c.__dict__ or c is C:
                c.data = property(data)
        self.cls[i] = L, C, R

    def anchor(self, i):
        """anchor without the insurance, to get at any state"""
        L, C, R = self.cls[i]
        C._abstract_class()._anchor = C(self.root(i))
        R.init('r0')
        R.anchorToCache(L(self.root(i)).cache)

    @contextlib.contextmanager
    def within(self, d):
        here = os.getcwd()
        os.chdir(d)
        try:
            yield
        finally:
            os.chdir(here)

    def spell(self, i, z):
        p = self.out(z)
        how = self.rng.choice(['abs', 'abs', 'dots', 'alias', 'rel', 'rel2'])
        if how == 'dots':
            p = pathlib.Path(self.base, 'p1', '..', 'out', p.name)
        elif how == 'alias':
            p = pathlib.Path(self.base, 'alias', p.name)
        elif how == 'rel':
            p = pathlib.Path('out', p.name)
        elif how == 'rel2':
            p = pathlib.Path('.', '..', self.base.rsplit('/', 1)[1], 'out', p.name)
        return self.cls[i][0](p) if self.rng.random() < .7 else p

    def do(self, op):
        k = op['op']
        i = op.get('i')
        if k in ('setup', 'anchor'):
            c = None
            try:
                if k == 'anchor':
                    self.fresh(i)
                    L, C, R = self.cls[i]
                    R.init('r0')
                    L(self.root(i)).cache.anchorClassHere()
                else:
                    L, C, R = self.cls[i]
                    kw = {}
                    if not op['again'] or self.rng.random() < .5:
                        kw['exist_ok'] = op['again']
                    if op['to'] != 'here':
                        kw['symlink_objects_to'] = self.spell(i, op['to'])
                    elif self.rng.random() < .3:
                        kw['symlink_objects_to'] = None
                    c = self.rng.choice([C._abstract_class()._anchor, L(self.root(i)).cache, L(self.root(i) / 'n1').cache])
                    with self.within(self.base):
                        c.local_data_dir_init(**kw)
            except OSError:
                if k == 'anchor':
                    self.fresh(i)
                    self.anchor(i)
                return 'refused'
            return 'ok'
        if k == 'fetch':
            L, C, R = self.cls[i]
            n = self.root(i) / f'n{op["k"]}'
            was = self.w[i].asked
            L(n).cache.fetch()
            if n.read_bytes() != body(op['k']):
                return 'other data'
            return 'asked' if self.w[i].asked > was else 'found'
        if k == 'crumple':
            L, C, R = self.cls[i]
            j = self.root(i) / 'junk'
            C(j, meta=R('f9').meta)
            if self.rng.random() < .5:
                L(j).cache.fetch()
            t = L(j).cache.crumple()
            if os.path.lexists(j):
                return 'still there'
            if pathlib.Path(t).parent != self.dd(i) / 'trash' or not os.path.lexists(t):
                return 'somewhere else'
            return 'ok'
        if k == 'unlink':
            (self.dd(i) / 'objects').unlink()
        elif k == 'empty':
            for f in list((self.dd(i) / 'objects').iterdir()):
                f.unlink()
        elif k == 'gone':
            for f in list(self.out(op['z']).iterdir()):
                f.unlink()
            self.out(op['z']).rmdir()
        elif k == 'make':
            self.out(op['z']).mkdir()
        return 'ok'

    def on(self, bits):
        return [k for k in (1, 2) if bits[k - 1]]

    def keys(self, d):
        r = [0, 0]
        for n in sorted(os.listdir(d)):
            good = n in ('f1', 'f2') and (d / n).is_file() and (d / n).read_bytes() == body(int(n[1]))
            if not good:
                return ['changed ' + n, 0]
            r[int(n[1]) - 1] = 1
        return r

    def project(self):
        x = {z: dict(th=self.out(z).is_dir(), keys=self.keys(self.out(z)) if self.out(z).is_dir() else [0, 0]) for z in 'XY'}
        p = []
        stray = sorted(set(os.listdir(self.base)) - {'p1', 'p2', 'out', 'alias'}) + \
            sorted(set(os.listdir(self.base + '/out')) - {self.out(z).name for z in 'XY'})
        for i in (1, 2):
            d = self.dd(i)
            q = dict(dd=d.is_dir(), obj='none', own=[0, 0], tr=0)
            extra = sorted(set(os.listdir(self.root(i))) - {'n1', 'n2', '.operations'})
            if q['dd']:
                extra += sorted(set(os.listdir(d)) - {'objects', 'trash'})
            o = d / 'objects'
            if o.is_symlink():
                to = os.path.join(d, os.readlink(o))
                q['obj'] = {os.path.realpath(self.out(z)): z for z in 'XY'}.get(os.path.realpath(to), 'link elsewhere')
            elif o.is_dir():
                q['obj'] = 'own'
                q['own'] = self.keys(o)
            elif o.exists():
                q['obj'] = 'file' if o.read_text() == 'mine' else 'another file'
            t = d / 'trash'
            if t.is_symlink():
                q['tr'] = 'link'
            elif t.is_dir():
                q['tr'] = 2 if os.listdir(t) else 1
            if extra or stray:
                q['obj'] = 'extra ' + ' '.join(extra + stray)
            p.append(q)
        return dict(p=p, x=x)

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        def proj():
            if rng.random() < .5:
                return dict(dd=False, obj='none', own=[0, 0], tr=0)
            o = rng.choice(['none', 'own', 'own', 'X', 'Y', 'file'])
            return dict(dd=True, obj=o, own=rng.choice([[0, 0], [1, 0], [1, 1]]) if o == 'own' else [0, 0], tr=rng.choice([0, 1, 2]))

        def out():
            th = rng.random() < .8
            return dict(th=th, keys=rng.choice([[0, 0], [1, 0], [0, 1]]) if th else [0, 0])
        return dict(p=[proj(), proj()], x=dict(X=out(), Y=out()))

    def random_op(self, rng, st):
        while True:
            k = rng.choice(['setup', 'setup', 'setup', 'anchor', 'fetch', 'fetch', 'fetch', 'crumple', 'unlink', 'empty', 'gone', 'make'])
            i = rng.choice([1, 2])
            q = st['p'][i - 1]
            z = rng.choice('XY')
            if k == 'setup':
                return dict(op=k, i=i, to=rng.choice(['here', 'X', 'Y']), again=rng.random() < .8)
            if k == 'anchor':
                return dict(op=k, i=i)
            if k == 'fetch':
                return dict(op=k, i=i, k=rng.choice([1, 2]))
            if k == 'crumple' and q['tr'] in (0, 1):
                return dict(op=k, i=i)
            if k == 'unlink' and q['obj'] in ('X', 'Y', 'file'):
                return dict(op=k, i=i)
            if k == 'empty' and 1 in q['own']:
                return dict(op=k, i=i)
            if k == 'gone' and st['x'][z]['th'] and rng.random() < .3:
                return dict(op=k, z=z)
            if k == 'make' and not st['x'][z]['th']:
                return dict(op=k, z=z)


INV = ['TypeOK', 'Idempotent', 'Shared']
PROPS = ['ObjectsStay', 'StillSeen', 'AsAsked', 'NeverRedirected', 'RefusalsAreNoOps', 'OtherStays']
EXP = ['setup/ok', 'setup/refused', 'anchor/ok', 'fetch/found', 'fetch/asked', 'crumple/ok', 'unlink/ok', 'empty/ok', 'gone/ok']


def check(c):
    b = Store()
    t = c.model('Store', dict(MaxOps=1, Keys={1}, Start='one'), INV, PROPS, expect=EXP + ['anchor/refused', 'make/ok'])
    c.replay(b, t, limit=None if c.thorough else 3000, tag='any one')
    t = c.model('Store', dict(MaxOps=6 if c.thorough else 5, Keys={1}, Start='blank'), INV, PROPS, expect=EXP + ['make/ok'])
    c.replay(b, t, limit=None if c.thorough else 3000, tag='from nothing')
    c.walks(b, t, 1500 if c.thorough else 250, 10)
    c.record(b, 1500 if c.thorough else 250, 30, dict(MaxOps=1000000, Keys={1, 2}, Start='blank'))
    c.assumptions += ['an application keeps what it fetches under local_object_cache_path, as its data property does']
