import hashlib, os
import lib, mem
import augpathlib as aug
from augpathlib import PathMeta
from augpathlib import exceptions as exc
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
MB = 1024 ** 2


class Fetch(lib.Binding):
    module = 'Fetch'

    def start(self, st, rng, root):
        self.rng = rng
        self.root = os.path.realpath(str(root))
        os.mkdir(self.root + '/r')
        self.w = w = mem.World('r')
        unit = rng.choice([1, 2, 700, 5000])
        self.data = [b'', b'a' * unit + b'b' * unit, b'b' * unit + b'a' * unit, b'c' * (3 * unit)]
        w.chunk = rng.choice([1, 3, 4096]) if unit < 100 else rng.choice([100, 4096, 10 ** 6])
        w.error = rng.choice([ConnectionError('gone'), ValueError('bad'), KeyboardInterrupt('stop'), OSError(5, 'io'), SystemExit(3)])
        self.name = self.root + '/r/' + rng.choice(['f', 'a file.txt', '.hid', 'a  b'])
        # with a checksum of another kind than that of the class
        self.cypher = rng.choice([(None, hashlib.sha256), (None, hashlib.sha256), ('sha256', hashlib.sha256), ('md5', hashlib.md5), ('blake2b', hashlib.blake2b)])
        self.id = rng.choice(['f1', 'N:f:1'])
        w.o[self.id] = dict(kind='f', parent='r0', name=os.path.basename(self.name), data=b'')
        self.remote(st['d'], st['r'])
        self.Local, self.Cache, Remote = mem.make(w)
        Remote.init(w.root)
        Remote.dropAnchor(self.Local(self.root))
        self.anchor = self.Cache(self.root + '/r')
        self.place(st)

    def place(self, st):
        if st['k'] == 'file':
            with open(self.name, 'wb') as f:
                f.write(self.data[st['c']])
        self.Cache(self.name, meta=self.meta(st['m']))

    def remote(self, d, r):
        o = self.w.o[self.id]
        o['data'] = self.data[d]
        m = dict(self.fields(r))
        o['meta'] = m

    def fields(self, m):
        if m['size'] != -1:
            yield 'size', len(self.data[{0: 0, 2: 1, 3: 3}[m['size']]])
        if m['sum'] != -1:
            yield 'checksum', self.cypher[1](self.data[m['sum']]).digest()
        if self.cypher[0]:
            yield 'checksum_cypher', self.cypher[0]
        if m['fid'] != -1:
            yield 'file_id', m['fid'] - 1
        if m['err']:
            yield 'errors', ('checksum-mismatch',)
        yield 'created', mem.when(3)
        yield 'updated', mem.when(4)

    def meta(self, m):
        return PathMeta(id=self.id, name=os.path.basename(self.name), parent_id='r0', **dict(self.fields(m)))

    def record(self, m):
        if m.id != self.id:
            raise lib.Mismatch(f'the id became {m.id}')
        if m.created != mem.when(3) or m.updated != mem.when(4):
            raise lib.Mismatch(f'the times became {m.created} {m.updated}')
        sums = [self.cypher[1](d).digest() for d in self.data]
        if list(m.errors or ()) not in ([], ['checksum-mismatch']):
            raise lib.Mismatch(f'errors {m.errors}')
        return dict(size=-1 if m.size is None else {len(self.data[i]): z for i, z in ((0, 0), (1, 2), (3, 3))}.get(m.size, 99),
                    sum=-1 if m.checksum is None else sums.index(m.checksum) if m.checksum in sums else 99,
                    fid=-1 if m.file_id is None else m.file_id + 1, err=int(bool(m.errors)))

    def content(self, path):
        with open(path, 'rb') as f:
            d = f.read()
        return self.data.index(d) if d in self.data else 9 if any(x.startswith(d) for x in self.data) else 8

    def do(self, op):
        o = op['op']
        if o == 'edit':
            how = self.rng.random()
            if how < .5:
                self.Local(self.name).data = iter([self.data[op['c']]])
            else:
                with open(self.name, 'wb') as f:
                    f.write(self.data[op['c']])
            if self.rng.random() < .5:
                t = self.rng.choice([0, 10 ** 9, 4 * 10 ** 9])
                os.utime(self.name, (t, t))
            return 'done'
        if o == 'remote':
            self.remote(op['c'], op['m'])
            return 'done'
        self.w.asked, self.w.fail = 0, op['fail']
        try:
            cache = self.Cache(self.name) if self.rng.random() < .5 else self.Local(self.name).cache
            if o == 'fetch':
                size = cache.meta.size
                n = int(size) if size is not None else len(self.data[1])
                lim = dict(none=None, below=(n - 1) / MB if self.rng.random() < .5 else n / 2 / MB if n else -1, equal=n / MB,
                           above=self.rng.choice([(n + 1) / MB, n + 1, 2]))[op['lim']]
                if lim is not None and n and op['lim'] == 'below' and self.rng.random() < .2:
                    lim = 0
                cache.fetch(size_limit_mb=lim)
            else:
                cache._meta_updater(self.meta(op['m']))
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            self.why = e
            return 'refused'
        finally:
            self.w.fail = 0
        return 'done' if self.w.asked else 'skipped'

    def project(self):
        k = 'link' if os.path.islink(self.name) else 'file'
        if not os.path.lexists(self.name):
            raise lib.Mismatch(f'nothing is left, {getattr(self, "why", None)!r}')
        m = self.Local(self.name).cache.meta
        if m is None:
            raise lib.Mismatch(f'no metadata is left, {getattr(self, "why", None)!r}')
        o = self.w.o[self.id]
        left = [x for x in os.listdir(self.root + '/r') if x not in (os.path.basename(self.name), self.anchor.local_data_dir.name)]
        if left:
            raise lib.Mismatch(f'left behind: {left}')
        trash = []
        for base, ds, fs in os.walk(str(self.anchor.trash)):
            for n in fs:
                p = os.path.join(base, n)
                if not os.path.islink(p):
                    t = self.record(PathMeta.from_xattrs(aug.LocalPath(p).xattrs(), 'mem'))
                    trash.append((((t['err'] * 10 + self.content(p)) * 10 + t['size'] + 1) * 10 + t['sum'] + 1) * 10 + t['fid'] + 1)
        return dict(k=k, m=self.record(m), c=self.content(self.name) if k == 'file' else 0, d=self.data.index(o['data']),
                    r=self.record(PathMeta(id=self.id, **o['meta'])), trash=sorted(set(trash)))

    def is_init(self, pre):
        return not pre['trash'] and pre['c'] != 9

    def rec(self, rng, c, full=False):
        sz = [0, 2, 2, 3]
        m = dict(size=sz[c], sum=c, fid=rng.choice([1, 1, 2]), err=0)
        r = rng.random()
        if r < .15:
            m['sum'] = rng.choice([-1, 0, 1, 2, 3])
        elif r < .3:
            m['size'] = rng.choice([-1, 0, 2, 3])
        elif r < .4 and not full:
            m['fid'] = -1
        return m

    def random_init(self, rng):
        k = rng.choice(['link', 'file'])
        c = rng.randint(0, 3)
        d = rng.choice([c, rng.randint(0, 3)])
        return dict(k=k, m=self.rec(rng, c), c=c if k == 'file' else 0, d=d, r=self.rec(rng, d, True), trash=[])

    def random_op(self, rng, st):
        no = dict(op='', m=dict(size=0, sum=0, fid=1, err=0), c=0, lim='none', fail=0)
        fail = rng.choice([0, 0, 0, 1, 2 if st['d'] else 1])
        x = rng.random()
        if st['k'] == 'file' and x < .15:
            return dict(no, op='edit', c=rng.choice([c for c in range(4) if c != st['c']]))
        if x < .35:
            c = rng.randint(0, 3)
            return dict(no, op='remote', c=c, m=self.rec(rng, c, True))
        if x < .65:
            return dict(no, op='fetch', fail=fail, lim=rng.choice(['none', 'above', 'equal'] + ['below'] * (st['m']['size'] != 0)))
        return dict(no, op='update', fail=fail, m=st['r'] if rng.random() < .7 else self.rec(rng, rng.choice([st['d'], rng.randint(0, 3)]), True))


def check(c):
    b = Fetch()
    props = ['Faithful', 'Limited', 'AllOrNothing', 'KeepsIdentity', 'Local']
    base = dict(Contents={0, 1, 2, 3}, Recs={'missing', 'wrong'}, Kinds={'link', 'file'}, OpNames={'fetch'}, MaxOps=1)
    t = c.model('Fetch', base, [], props, expect=['fetch/done', 'fetch/refused', 'fetch/skipped'])
    c.replay(b, t, limit=40000 if c.thorough else 2500, tag='fetch')
    t = c.model('Fetch', dict(base, Recs={'missing', 'wrong'} if c.thorough else {'missing'}, OpNames={'update'}), [], props, expect=['update/done', 'update/refused', 'update/skipped'])
    c.replay(b, t, limit=40000 if c.thorough else 3000, tag='update')
    t = c.model('Fetch', dict(base, Recs={'nofid'}, Contents={0, 1, 2}), [], props)
    c.replay(b, t, limit=40000 if c.thorough else 1500, tag='without a file id')
    hist = dict(base, Contents={0, 1, 2}, Recs={'honest'}, Kinds={'link'}, OpNames={'fetch', 'update', 'edit', 'remote'}, MaxOps=4 if c.thorough else 3)
    t = c.model('Fetch', hist, [], props)
    c.walks(b, t, 4000 if c.thorough else 600, 8, tag='histories')
    c.record(b, 6000 if c.thorough else 800, 12, dict(hist, MaxOps=99, Kinds=set(), Contents={0, 1, 2, 3}, Recs={'missing', 'wrong', 'nofid'}))
