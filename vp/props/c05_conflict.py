import hashlib, os
from datetime import datetime, timezone, timedelta
import lib, mem
import augpathlib as aug
from augpathlib import PathMeta, SymlinkCache
from augpathlib import exceptions as exc
aug.utils.log.setLevel('CRITICAL')
LONG = tuple('N:f:' + 'x' * 255 + i for i in '123')      # too long for a file name
NAMES = 'id', 'upd', 'cre', 'size', 'x'


class Conflict(lib.Binding):
    module = 'Conflict'

    def start(self, st, rng, root):
        self.rng = rng
        self.root = os.path.realpath(str(root))
        os.mkdir(self.root + '/r')
        w = mem.World('r')
        # the last pair of ids has the same spelling once made safe for file names
        self.ids = dict(zip((1, 2, 3), rng.choice([('f1', 'f2', 'f3'), ('N:f:1', 'N:f:2', 'N:f:3'), ('a:f:1', 'a/f/1', 'a f-1'),
                                               LONG])))
        for i in self.ids.values():
            w.add(i, 'f', 'r0', 'f')if i[1:].isdigit() else w.o.update({i: dict(kind='f', parent='r0', name='f', data=b'')})
        self.Local, self.Cache, Remote = mem.make(w)
        Remote.init(w.root)
        Remote.dropAnchor(self.Local(self.root))
        self.name = self.root + '/r/f'
        self.anchor = self.Cache(self.root + '/r')
        off = rng.choice([timedelta(0), timedelta(hours=2)])
        base = datetime(2020, 1, 1, 22, tzinfo=timezone(off))
        step = rng.choice([timedelta(microseconds=1), timedelta(seconds=1), timedelta(days=400), timedelta(hours=3)])
        tz = [timezone.utc, timezone(timedelta(hours=5))]
        self.times = [None] + [(base + k * step).astimezone(rng.choice(tz)) for k in range(3)]
        self.sizes = [None, rng.choice([0, 7]), 100, 101]
        if st['cur']['k'] != 'none':
            self.Cache(self.name, meta=self.meta(st['cur']['r']))
            if st['cur']['k'] == 'file':
                self.fetch(st['cur']['c'])
        for code in st['trash']:
            c, rest = code % 4, code // 4
            r = {}
            for f in reversed(NAMES):
                r[f], rest = rest % 4, rest // 4
            self.n = getattr(self, 'n', 0) + 1
            raise lib.MachineryError('trash at the start')

    def cache(self):
        return self.Cache(self.name)

    def meta(self, r):
        return PathMeta(id=self.ids[r['id']], name='f', updated=self.times[r['upd']], created=self.times[r['cre']],
                        size=self.sizes[r['size']], checksum=hashlib.md5(b'%d' % r['x']).digest() if r['x'] else None)

    def record(self, m):
        def one(xs, v):
            return xs.index(v) if v in xs else 99
        return dict(id={v: k for k, v in self.ids.items()}.get(m.id, 99), upd=one(self.times, m.updated), cre=one(self.times, m.created),
                    size=one(self.sizes, m.size),
                    x=0 if m.checksum is None else one([None] + [hashlib.md5(b'%d' % i).digest() for i in (1, 2, 3)], m.checksum))

    def fetch(self, c):
        m = self.cache().meta
        os.unlink(self.name)
        with open(self.name, 'wb') as f:
            f.write(b'content %d' % c)
        self.Cache(self.name, meta=m)

    def item(self, path):
        """what there is at a path"""
        if os.path.islink(path):
            m = PathMeta.from_symlink(aug.AugmentedPath(path), match_name=False)
            return dict(k='link', r=self.record(m), c=0)
        if os.path.isfile(path):
            with open(path, 'rb') as f:
                data = f.read()
            m = PathMeta.from_xattrs(aug.LocalPath(path).xattrs(), 'mem')
            return dict(k='file', r=self.record(m), c=int(data[8:]) if data[:8] == b'content ' else 99)
        if not os.path.lexists(path):
            return dict(k='none', r=dict.fromkeys(NAMES, 0), c=0)
        raise lib.Mismatch(f'a strange thing at {path}')

    def code(self, it):
        n = 0
        for f in NAMES:
            n = n * 4 + it['r'][f]
        return n * 4 + it['c']

    def do(self, op):
        o = op['op']
        if o == 'write':
            m = self.meta(op['r'])
            try:
                if not os.path.lexists(self.name):
                    self.Cache(self.name, meta=m)
                elif op['via'] == 'helper':
                    if self.rng.random() < .5:
                        SymlinkCache(self.cache(), meta=m)
                    else:
                        SymlinkCache(self.cache()).meta = m
                else:
                    self.cache()._meta_setter(m)
            except (exc.AugPathlibError, TypeError):
                return 'refused'
            return 'done'
        if o == 'fetch':
            self.fetch(op['c'])
            return 'done'
        if o == 'crumple':
            t = self.cache().crumple()
            if not os.path.lexists(str(t)):
                return 'the place it was put is not the one said'
            return 'done'
        if o == 'read':
            m = self.cache().meta if os.path.lexists(self.name) else None
            return 'nothing' if m is None else str(self.code(dict(r=self.record(m), c=0)))
        raise lib.MachineryError(o)

    def project(self):
        trash = []
        d = str(self.anchor.trash)
        for base, ds, fs in os.walk(d):
            for n in fs + [x for x in ds if os.path.islink(os.path.join(base, x))]:
                it = self.item(os.path.join(base, n))
                want = aug.utils.fs_safe_id(self.ids.get(it['r']['id'], '?'))
                if want not in n and not (self.ids[1] == LONG[0] and n.split('.')[0] == 'f'):
                    raise lib.Mismatch(f'{n} is not the name of {want}')
                trash.append(self.code(it))
        left = sorted(os.listdir(self.root + '/r'))
        if [x for x in left if x not in ('f', os.path.basename(os.path.dirname(d)))]:
            raise lib.Mismatch(f'left behind: {left}')
        return dict(cur=self.item(self.name), trash=sorted(set(trash)))

    def is_init(self, pre):
        return not pre['trash'] and pre['cur']['k'] in ('none', 'link')

    def random_init(self, rng):
        return dict(cur=dict(k='none', r=dict.fromkeys(NAMES, 0), c=0), trash=[])

    def random_op(self, rng, st):
        no = dict(op='', r=dict.fromkeys(NAMES, 0), c=0, via='')
        k = st['cur']['k']
        x = rng.random()
        if x < .1:
            return dict(no, op='read')
        if k == 'file' and x < .6 or k == 'link' and x < .2:
            return dict(no, op='crumple')
        if k == 'link' and x < .35:
            return dict(no, op='fetch', c=rng.randint(1, 2))
        r = dict(id=rng.randint(1, 3), upd=rng.choice([0, 1, 1, 2, 2, 3]), cre=rng.randint(0, 3), size=rng.choice([0, 1, 2, 3, 1]),
                 x=rng.randint(0, 2))
        return dict(no, op='write', r=r, via='helper' if k == 'file' else rng.choice(['helper', 'primary']))


def check(c):
    b = Conflict()
    props = ['NothingLost', 'SizeKept']
    base = dict(Ids={1, 2}, Times={0, 1, 2}, Sizes={0, 1, 2} if c.thorough else {0, 1}, Xs={0, 1} if c.thorough else {0}, Contents={1}, OpNames={'write'}, MaxOps=1,
                InitRecs=True, KeepTrash=False)
    t = c.model('Conflict', base, ['OrderFree'], props, expect=['write/done', 'write/refused'])
    c.replay(b, t, limit=40000 if c.thorough else 4000, tag='pairs')
    hist = dict(base, Ids={1, 2}, Times={1, 2} if c.thorough else {1, 2}, Sizes={1}, Xs={0, 1}, Contents={1, 2}, InitRecs=False,
                OpNames={'write', 'fetch', 'crumple', 'read'}, MaxOps=4 if c.thorough else 3, KeepTrash=True)
    t = c.model('Conflict', hist, [], props, expect=['write/refused', 'crumple/done'])
    c.walks(b, t, 4000 if c.thorough else 800, 10, tag='histories')
    c.record(b, 5000 if c.thorough else 800, 14, dict(hist, Ids={1, 2, 3}, Times={0, 1, 2, 3}, Sizes={0, 1, 2, 3}, Xs={0, 1, 2}, MaxOps=99))
    c.assumptions += ['comparing a time with and one without time zone is undecidable and not generated']
