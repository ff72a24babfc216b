import hashlib, os
from datetime import datetime, timezone, timedelta
import lib, mem
import augpathlib as aug
from augpathlib import PathMeta, SymlinkCache
from augpathlib import exceptions as exc
aug.utils.log.setLevel('CRITICAL')
FIELDS = ['id', 'name', 'size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag', 'chunksize', 'multi', 'parent_id',
          'file_id', 'old_id', 'gid', 'user_id', 'mode', 'errors']


class Merge(lib.Binding):
    module = 'Merge'

    def start(self, st, rng, root):
        self.rng = rng
        self.root = os.path.realpath(str(root))
        os.mkdir(self.root + '/r')
        w = mem.World('r')
        ids = ['f1', 'f2', 'f3'] if rng.random() < .5 else ['N:f:1', 'N:f:2', 'N:f:3']
        for i in ids:
            w.o[i] = dict(kind='d' if st['k'] == 'dir' else 'f', parent='r0', name='f', data=b'')
        self.Local, self.Cache, Remote = mem.make(w)
        Remote.init(w.root)
        Remote.dropAnchor(self.Local(self.root))
        self.name = self.root + '/r/f'
        base = datetime(2020, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=rng.choice([0, 1]))
        step = rng.choice([timedelta(microseconds=1), timedelta(seconds=1), timedelta(days=40)])
        times = [base + k * step for k in range(3)]
        ch = [hashlib.sha256(b'%d' % i).digest() for i in range(3)]
        self.values = dict(
            id=ids, name=['f', 'f.x', 'g'], size=rng.choice([[0, 1, 2], [5, 6, 7]]), created=times, updated=times,
            checksum=ch, checksum_cypher=['sha256', 'md5', 'sha512'], etag=[(c[:16], i + 1) for i, c in enumerate(ch)],
            chunksize=[1, 2, 4096], multi=rng.choice([[0, 1, 2], [1, 2, 3]]), parent_id=['r0', 'd1', 'd2'],
            file_id=rng.choice([[0, 1, 2], [1, 2, 3]]), old_id=['o1', 'o2', 'o3'], gid=[0, 1, 2], user_id=[0, 'u', 'u2'],
            mode=['0o100644', '0o100600', '0o100755'], errors=[('a',), ('b',), ('a', 'b')])
        k = st['k']
        self.local = self.Local(self.name)
        if k == 'file':
            with open(self.name, 'wb') as f:
                f.write(self.content(st['c']))
        elif k == 'dir':
            os.mkdir(self.name)
        if any(st['m'].values()):
            self.Cache(self.name, meta=self.meta(st['m']))
        # other programs have their attributes too
        self.foreign = k in ('file', 'dir')
        if self.foreign:
            aug.LocalPath(self.name).setxattr('other.size', b'77')
            aug.LocalPath(self.name).setxattr('note', b'mine')

    def content(self, c):
        return b'content %d' % c * (c + 1)

    def value(self, f, v):
        if v == 0:
            return () if f == 'errors' else None
        if v > 10:
            return self.values['id'][v - 11]
        return self.values[f][v - 1]

    def meta(self, m):
        d = {f: self.value(f, v) for f, v in m.items()}
        return PathMeta(**{f: v for f, v in d.items() if v is not None or self.rng.random() < .3})

    def classes(self, m):
        out = {}
        for f in FIELDS:
            v = getattr(m, f)
            if f == 'errors':
                v = tuple(v or ())
            if v is None or v == ():
                out[f] = 0
            elif f == 'old_id' and v in self.values['id']:
                out[f] = 11 + self.values['id'].index(v)
            else:
                same = [i + 1 for i, x in enumerate(self.values[f]) if x == v and isinstance(x, str) == isinstance(v, str)]
                out[f] = same[0] if same else 99
        return out

    def read(self):
        """what every kind of handle reads"""
        got = {}
        handles = dict(cache=lambda: self.Cache(self.name).meta, local=lambda: self.Local(self.name).cache.meta,
                       kept=lambda: self.local.cache.meta, spelled=lambda: self.Local(self.root + '/r/../r/f').cache.meta,
                       child=lambda: (self.Local(self.root) / 'r' / 'f').cache.meta)
        if os.path.islink(self.name):
            handles['link'] = lambda: PathMeta.from_symlink(aug.AugmentedPath(self.name))
            handles['helper'] = lambda: SymlinkCache(self.name).meta
        else:
            handles['xattrs'] = lambda: PathMeta.from_xattrs(aug.EatPath(self.name).xattrs(), 'mem')
        for n, h in handles.items():
            m = h()
            got[n] = self.classes(m) if m is not None else None
        first = got['cache']
        for n, g in got.items():
            if g != first:
                raise lib.Mismatch(f'{n} reads {g}, cache {first}')
        return first

    def do(self, op):
        o = op['op']
        try:
            if o == 'set':
                self.Cache(self.name)._meta_setter(self.meta(op['m']))
                return 'done'
            if o == 'update':
                m = self.meta(op['m'])
                try:
                    has = self.Cache(self.name)
                except exc.NoCachedMetadataError:
                    has = None
                if has is None or (not os.path.isfile(self.name) and self.rng.random() < .4):
                    self.Cache(self.name, meta=m)
                else:
                    # fetching what changed is the subject of C03
                    if self.rng.random() < .7:
                        has.id
                    has._meta_updater(m, fetch=False)
                    if has.id != has.meta.id:
                        return f'{has.id} still, not {has.meta.id}'
                return 'done'
            if o == 'read':
                self.read()
                return 'agree'
            if o == 'data':
                data = self.content(op['c'])
                how = self.rng.choice(['data', 'data', 'kept', 'open', 'tee', 'cache'])
                if how == 'data':
                    self.Local(self.name).data = iter([data[:3], data[3:]])
                elif how == 'kept':
                    self.local.data = (x for x in [data])
                elif how == 'tee':
                    for _ in self.Local(self.name)._data_setter(iter([data])):
                        pass
                elif how == 'cache':
                    self.Cache(self.name).local.data = iter([data])
                else:
                    with open(self.name, 'wb') as f:
                        f.write(data)
                return 'done'
        except (exc.AugPathlibError, TypeError):
            return 'refused'
        raise lib.MachineryError(o)

    def project(self):
        none = dict.fromkeys(FIELDS, 0)
        if not os.path.lexists(self.name):
            return dict(k='none', m=none, c=0)
        k = 'link' if os.path.islink(self.name) else 'dir' if os.path.isdir(self.name) else 'file'
        c = 0
        if k == 'file':
            with open(self.name, 'rb') as f:
                data = f.read()
            c = [i for i in range(4) if self.content(i) == data]
            c = c[0] if c else 99
        if self.foreign and (aug.LocalPath(self.name).getxattr('other.size'), aug.LocalPath(self.name).getxattr('note')) != (b'77', b'mine'):
            raise lib.Mismatch('attributes of others changed')
        try:
            self.Cache(self.name)
        except exc.NoCachedMetadataError:
            return dict(k=k, m=none, c=c)
        return dict(k=k, m=self.read() or none, c=c)

    def is_init(self, pre):
        return pre['c'] == 0

    def random_meta(self, rng, p):
        m = {f: rng.choice([1, 1, 2, 3]) if rng.random() < p else 0 for f in FIELDS}
        m['id'] = rng.choice([1, 1, 1, 2, 3])
        return m

    def random_init(self, rng):
        k = rng.choice(['none', 'link', 'file', 'dir'])
        none = dict.fromkeys(FIELDS, 0)
        return dict(k=k, m=none if k == 'none' or k != 'link' and rng.random() < .2 else self.random_meta(rng, .8), c=0)

    def random_op(self, rng, st):
        no = dict(op='', m=dict.fromkeys(FIELDS, 0), c=0, via='')
        has = any(st['m'].values())
        r = rng.random()
        if has and st['k'] == 'file' and r < .2:
            return dict(no, op='data', c=rng.randint(0, 3))
        if has and r < .3:
            return dict(no, op='read')
        if has and st['k'] in ('file', 'dir') and r < .45:
            return dict(no, op='set', m=self.random_meta(rng, rng.choice([.3, .9])))
        m = self.random_meta(rng, rng.choice([.1, .5, .9]))
        if rng.random() < .5 and has:
            m = {f: v if rng.random() < .7 else m[f] for f, v in st['m'].items()}
            m['old_id'] = m['old_id'] if m['old_id'] < 10 else 0
        return dict(no, op='update', m=m)


def check(c):
    b = Merge()
    inv = (['Idempotent'], ['Brings', 'Carried', 'Dropped', 'DataKeepsMeta'])
    base = dict(Kinds={'none', 'link', 'file', 'dir'}, Fields={'id'}, Values={1, 2}, Contents={1, 2}, OpNames={'set', 'update', 'read', 'data'},
                MaxOps=1, Plain=True)
    groups = [{'id', 'updated', 'gid', 'old_id'}, {'id', 'size', 'name', 'errors'}, {'id', 'checksum', 'file_id', 'etag'},
              {'id', 'created', 'updated', 'size'}, {'checksum_cypher', 'mode', 'user_id', 'chunksize'}, {'multi', 'parent_id', 'created'}]
    for i, g in enumerate(groups):
        for plain in (True, False) if c.thorough else (i % 2 == 0,):
            t = c.model('Merge', dict(base, Fields=g, Plain=plain), *inv)
            c.replay(b, t, limit=20000 if c.thorough else 1100, tag=','.join(sorted(g)))
    walk = dict(base, Fields={'id', 'updated', 'gid'}, MaxOps=3, OpNames={'update', 'data', 'read'}, Kinds={'link', 'file', 'dir'})
    t = c.model('Merge', dict(walk, Values={1, 2} if c.thorough else {1}), *inv)
    c.walks(b, t, 2000 if c.thorough else 300, 8)
    c.record(b, 6000 if c.thorough else 500, 10, dict(base, MaxOps=99, Kinds=set()))
    c.assumptions += ['updates of a fetched file whose content changed (which fetch again) are the subject of C03']
