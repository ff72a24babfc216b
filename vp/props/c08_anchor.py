import os, pathlib, contextlib, io, warnings
import lib, mem
import augpathlib as aug
from augpathlib import PathMeta, RemotePath
warnings.simplefilter('ignore')
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
ID = {0: None, 1: 'r0', 2: 'zz'}
KEY = 'user.mem.id'


class Anchor(lib.Binding):
    module = 'Anchor'

    def place(self, p):
        return pathlib.Path(self.base, 'p' + str(p))

    def root(self, p):
        return self.place(p) / self.rname

    def classes(self):
        self.Local, self.Cache, self.Remote = mem.make(self.w)
        # an unrelated application bound to the same kind of remote, never anchored
        self.Local2, self.Cache2, self.Remote2 = mem.make(self.w)
        self.Remote2.init('r0')
        if self.rng.random() < .3:      # what is below another root can be anchored too, but this is none of them
            self.Remote._remote_root = 'other'

    def start(self, st, rng, root):
        self.rng = rng
        self.base = os.path.realpath(root)
        self.rname = rng.choice(['root', 'r.oot', 'ro ot', 'rööt'])
        self.w = mem.World(self.rname)
        self.classes()
        for p in (1, 2):
            self.place(p).mkdir()
            self.make(p, dict(st['f'][p - 1], c=st['f'][p - 1]['c'] & 2 if p in (st['ra'], st['ca']) else st['f'][p - 1]['c']))
        # the anchors of the state, made the way an application makes them
        if st['init']:
            self.Remote.init('r0')
        if st['ca']:
            x = st['f'][st['ca'] - 1]
            if x['id'] == 1:
                self.Local(self.root(st['ca'])).cache.anchorClassHere()
                self.Remote.weighAnchor()
            else:
                self.Cache._abstract_class()._anchor = self.Cache(self.root(st['ca']))
        if st['ra']:
            self.Remote.anchorToCache(self.Local(self.root(st['ra'])).cache)
        if not st['init'] and hasattr(self.Remote, '_api'):
            del self.Remote._api, self.Remote.root
        for p in (1, 2):
            want = st['f'][p - 1]
            if want['k'] == 'dir' and want['c'] & 1:
                (self.root(p) / '.operations').mkdir(exist_ok=True)
            elif want['k'] == 'dir' and (self.root(p) / '.operations').exists():
                self.clear(self.root(p) / '.operations')
        self.kinds = None

    def clear(self, p):
        for d, ds, fs in os.walk(p, topdown=False):
            for f in fs:
                os.unlink(os.path.join(d, f))
            os.rmdir(d)

    def make(self, p, f):
        r = self.root(p)
        if f['k'] == 'file':
            r.write_text('mine')
        elif f['k'] == 'dir':
            r.mkdir()
            if f['id']:
                self.Cache(r, meta=PathMeta(id=ID[f['id']]))
            if f['c'] & 1:
                (r / '.operations').mkdir()
            if f['c'] & 2:
                self.put(p)

    def put(self, p):
        x = self.root(p) / 'mine'
        if self.rng.random() < .5:
            x.write_text('mine')
        else:
            x.mkdir()

    @contextlib.contextmanager
    def within(self, d):
        here = os.getcwd()
        os.chdir(d)
        try:
            yield
        finally:
            os.chdir(here)

    def parent(self, p, call):
        """ hand the folder above over in one of the ways there are """
        how = self.rng.choice(['abs', 'abs', 'rel', 'cwd', 'str', 'dot'])
        if how in ('abs', 'str'):
            d = self.place(p)
            return call(str(d) if how == 'str' else self.Local(d))
        elif how == 'rel':
            with self.within(self.base):
                return call(self.Local(self.place(p).name))
        else:
            with self.within(self.place(p)):
                return call() if how == 'cwd' else call(self.Local('.'))

    def do(self, op):
        k = op['op']
        R = self.Remote
        p = op.get('p')
        was = getattr(R, '_cache_anchor', None)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                if k == 'init':
                    R.init('zz' if op['bad'] else 'r0')
                    return 'ok'
                elif k == 'weigh':
                    R.weighAnchor()
                    if op['both']:
                        self.Cache.weighAnchor()
                    return 'ok'
                elif k == 'restart':
                    self.classes()
                    return 'ok'
                elif k == 'put':
                    self.put(p)
                    return 'ok'
                elif k == 'rm':
                    if self.root(p).is_dir():
                        self.clear(self.root(p))
                    else:
                        self.root(p).unlink()
                    return 'ok'
                if k in ('drop', 'smart'):
                    f = dict(drop=R.dropAnchor, smart=R.smartAnchor)[k]
                    gone = self.w.o
                    if op['down']:
                        self.w.o = {}
                    try:
                        got = self.parent(p, f)
                    finally:
                        self.w.o = gone
                elif k == 'to':
                    rel = self.rng.random() < .3
                    with self.within(self.base if rel else '.'):
                        x = self.Local(self.root(p))
                        if rel:
                            x = self.Local(os.path.relpath(self.root(p), self.base))
                        if op['create'] or self.rng.random() < .5:
                            got = R.anchorTo(x, create=op['create'])
                        else:
                            got = R.anchorTo(x)
                elif k == 'tocache':
                    c = self.Local(self.root(p)).cache
                    got = R.anchorTo(c) if self.rng.random() < .5 else R.anchorToCache(c)
                elif k == 'here':
                    self.Local(self.root(p)).cache.anchorClassHere()
                    got = R._cache_anchor
                elif k == 'other':
                    d = self.place(p)
                    if op['how'] == 'name':
                        got = R.anchorTo(self.Local(d / self.rng.choice(['unlike', self.rname + '2', self.rname[:-1], self.rname.upper()])), create=True)
                    else:
                        f = self.rng.choice([R.dropAnchor, R.smartAnchor])
                        got = f(self.Local(d / 'not' / 'there'))
            except Exception:
                return 'refused'
        if got is None or got is not getattr(R, '_cache_anchor', None):
            return 'returned something else'
        if os.path.normpath(str(got)) != str(self.root(p)):
            return 'anchored elsewhere'
        return 'same' if was is got else 'anchored'

    def which(self, a):
        if a is None:
            return 0
        a = os.path.normpath(str(a))
        for p in (1, 2):
            if a == str(self.root(p)):
                return p
        return 'elsewhere ' + a[len(self.base):]

    def project(self):
        f = []
        for p in (1, 2):
            r = self.root(p)
            extra = sorted(set(os.listdir(self.place(p))) - {self.rname})
            if extra:
                f.append(dict(k='extra ' + ' '.join(extra), c=0, id=0))
                continue
            if not os.path.lexists(r):
                f.append(dict(k='none', c=0, id=0))
                continue
            attrs = sorted(os.listxattr(r, follow_symlinks=False))
            id = 0
            if attrs:
                id = {'r0': 1, 'zz': 2}.get(os.getxattr(r, KEY).decode(), 3) if KEY in attrs else 4
            if not r.is_dir():
                ok = r.read_text() == 'mine'
                f.append(dict(k='file' if ok else 'changed', c=0, id=id))
                continue
            names = os.listdir(r)
            c = (1 if '.operations' in names else 0) + (2 if 'mine' in names else 0)
            if set(names) - {'.operations', 'mine'}:
                c = 'more ' + ' '.join(sorted(names))
            f.append(dict(k='dir', c=c, id=id))
        R = self.Remote
        ra = self.which(getattr(R, '_cache_anchor', None))
        ca = self.which(getattr(self.Cache._abstract_class(), '_anchor', None))
        if hasattr(self.Remote2, '_cache_anchor') or hasattr(RemotePath, '_cache_anchor') \
                or getattr(self.Cache2._abstract_class(), '_anchor', None) is not None:
            ra = 'and another class'
        if ra and isinstance(ra, int):
            # instances see the anchor of their class
            if self.which(R('r0')._cache_anchor) != ra:
                ra = 'instances differ'
        init = int(hasattr(R, '_api'))
        if init and R.root != 'r0':
            init = 'another root'
        return dict(f=f, ra=ra, ca=ca, init=init)

    def is_init(self, pre):
        return not pre['ra'] and not pre['ca'] and not pre['init']

    def random_init(self, rng):
        def folder():
            k = rng.choice(['none', 'none', 'file', 'dir', 'dir', 'dir', 'dir'])
            return dict(k=k, c=rng.choice([0, 0, 1, 2, 3]) if k == 'dir' else 0,
                        id=rng.choice([0, 0, 1, 1, 2]) if k == 'dir' else 0)
        return dict(f=[folder(), folder()], ra=0, ca=0, init=0)

    def random_op(self, rng, st):
        p = rng.choice([1, 2])
        f = st['f'][p - 1]
        cached = f['id'] in (1, 2)
        while True:
            k = rng.choice(['drop', 'smart', 'to', 'to', 'tocache', 'here', 'weigh', 'weigh', 'other', 'rm', 'put', 'restart']
                           + ['init'] * (1 if st['init'] else 6))
            if k == 'init':
                return dict(op=k, bad=rng.random() < .2)
            if k in ('drop', 'smart'):
                return dict(op=k, p=p, down=rng.random() < .15)
            if k == 'to':
                return dict(op=k, p=p, create=rng.random() < .7)
            if k == 'other':
                return dict(op=k, p=p, how=rng.choice(['name', 'stray']))
            if k in ('tocache', 'here') and cached:
                return dict(op=k, p=p)
            if k == 'weigh':
                return dict(op=k, both=rng.random() < .7)
            if k == 'restart' and rng.random() < .3:
                return dict(op=k)
            if k == 'put' and f['k'] == 'dir' and f['c'] in (0, 1) and rng.random() < .5:
                return dict(op=k, p=p)
            if k == 'rm' and st['ra'] != p and f['k'] != 'none':
                return dict(op=k, p=p)


INV = ['TypeOK', 'AnchorRecordsRoot', 'CanReanchor']
PROPS = ['OneAnchor', 'RefusalsAreNoOps', 'IdsStay', 'NeverAdoptsStuff', 'OnlyTheAnchored']
BIG = dict(MaxOps=1000000, Ids={0, 1, 2}, Contents={0, 1, 2, 3})


def check(c):
    b = Anchor()
    t = c.model('Anchor', dict(MaxOps=4 if c.thorough else 3, Ids={0, 1, 2}, Contents={0, 1, 2, 3}), INV, PROPS,
                expect=['drop/anchored', 'drop/refused', 'smart/anchored', 'smart/same', 'smart/refused', 'to/anchored',
                        'to/refused', 'tocache/anchored', 'tocache/refused', 'here/anchored', 'here/refused',
                        'other/refused', 'init/ok', 'init/refused', 'weigh/ok'])
    c.replay(b, t, limit=None if c.thorough else 5000, tag='steps')
    c.walks(b, t, 1500 if c.thorough else 250, 12)
    c.record(b, 1500 if c.thorough else 300, 40, BIG)
    c.assumptions += ['one process at a time anchors a folder', 'the folder an anchor rests on is not removed while anchored']
