import os, shutil
import lib, mem
import augpathlib as aug
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
# the names of an object; r is also the name of the root folder
SETS = [dict(a='a', b='b', r='r'), dict(a='x y', b='x y.txt', r='root'), dict(a='.h', b='ü', r='d.tar.gz'), dict(a='ab', b='b', r='a'),
        dict(a='n' * 200, b='1', r='0')]


class Views(lib.Binding):
    module = 'Views'

    def start(self, st, rng, root):
        self.rng = rng
        base = os.path.realpath(str(root))
        self.names = dict(rng.choice(SETS))
        self.inv = {v: k for k, v in self.names.items()}
        self.top = base + '/' + self.names['r']
        self.prefix = rng.choice(['f', 'N:x:', 'N:x/y'])
        self.kinds = list(st['kinds'])
        self.w = w = mem.World(self.names['r'])
        w.root = self.id(0)
        w.o = {w.root: w.o.pop('r0')}
        self.L, self.C, self.R = mem.make(w)
        self.R._mkdir_child = self.child()
        self.R.init(w.root)
        self.A = self.R.dropAnchor(self.L(base))
        self.internal = self.C(self.top).local_data_dir.name
        for k in ('rem', 'loc'):
            if k == 'loc':
                self.rem(st['rem'])
        # what is here, put there by hand
        def put(p, where):
            for i, e in enumerate(st['loc'], 1):
                if e['p'] == p:
                    at = where + '/' + self.names[e['n']]
                    if self.kinds[i - 1] == 'd':
                        os.mkdir(at)
                    else:
                        with open(at, 'wb') as f:
                            f.write(b'12345')
                    self.C(at, meta=aug.PathMeta(id=self.id(i), name=self.names[e['n']], **(self.facts(i) if self.kinds[i - 1] == 'f' else {})))
                    put(i, at)
        put(0, self.top)
        os.chdir(rng.choice([base, self.top]))

    def facts(self, i):
        return dict(size=5, created=mem.when(1), updated=mem.when(2), file_id=i)

    def child(self):
        b, w = self, self.w

        def _mkdir_child(self, name):
            if any(o['parent'] == self.id and o['name'] == name for o in w.o.values()):
                raise FileExistsError(name)
            i = next(i for i, k in enumerate(b.kinds, 1) if k == 'd' and b.id(i) not in w.o and i not in b.seen)
            w.o[b.id(i)] = dict(kind='d', parent=self.id, name=name)
            return self.__class__(b.id(i))
        return _mkdir_child

    def id(self, i):
        return f'{self.prefix}{i}'

    def number(self, ident):
        if not isinstance(ident, str) or not ident.startswith(self.prefix):
            raise lib.Mismatch(f'a strange id {ident}')
        return int(ident[len(self.prefix):])

    def rem(self, rem):
        w = self.w
        for i, e in enumerate(rem, 1):
            w.o.pop(self.id(i), None)
            if e['p'] != -1:
                k = self.kinds[i - 1]
                w.o[self.id(i)] = dict(kind=k, parent=self.id(e['p']), name=self.names[e['n']], data=b'12345', meta=self.facts(i) if k == 'f' else {})

    # --- where things are
    def path(self, st, i):
        n = []
        while i:
            e = st['loc'][i - 1]
            n.insert(0, self.names[e['n']])
            i = e['p']
        return '/'.join([self.top] + n)

    def here(self, p):
        """a local path, spelled one way or another"""
        k = self.rng.random()
        if k < .5:
            return self.L(p)
        if k < .7:
            return self.L(os.path.relpath(p))
        return self.L(os.path.dirname(p)) / os.path.basename(p)

    def at(self, path):
        """the names of a path below the root"""
        path = os.path.abspath(str(path))
        if path == self.top:
            return ()
        if not path.startswith(self.top + '/'):
            raise lib.Mismatch(f'{path} is not below the root')
        return tuple(path[len(self.top) + 1:].split('/'))

    def slashed(self, parts):
        return '/'.join(self.inv.get(x, repr(x)) for x in parts)

    def above(self, things):
        out = []
        for x in things:
            if x is None or x.id is None:
                break
            out.append(self.number(x.id))
        return '.'.join(map(str, out))

    def same(self, what, a, b):
        if a != b:
            raise lib.Mismatch(f'{what}: {a!r} and {b!r}'[:300])

    def any_view(self, p):
        """the three views of what is at a path, reached from one of them"""
        local = self.here(p)
        cache = local.cache if self.rng.random() < .7 else self.C(p)
        for _ in range(self.rng.randint(0, 3)):
            x = self.rng.random()
            if x < .25:
                cache = cache.local.cache
            elif x < .5:
                cache = cache.remote.cache
            elif x < .75:
                cache = cache.remote.local.cache
            else:
                local = cache.local
                cache = local.remote.cache
        return cache

    def views(self, st, i):
        p = self.path(st, i)
        cache = self.any_view(p)
        local, remote = cache.local, cache.remote
        for what, x in (('local', local), ('remote.local', remote.local), ('remote.cache.local', remote.cache.local),
                        ('local.cache.local', local.cache.local), ('local.remote.local', local.remote.local)):
            self.same(what, self.at(x), self.at(p))
        for what, x in (('cache', cache), ('remote', remote), ('local.cache', local.cache), ('local.remote', local.remote),
                        ('remote.cache', remote.cache), ('cache.meta', cache.meta), ('anew', self.L(p).cache), ('anew.remote', self.L(p).remote)):
            self.same(f'{what}.id', x.id, self.id(i))
        self.same('cache_id', self.L(p).cache_id, self.id(i))
        again, others = self.R(self.id(i)), [self.R(x) for x in ('N:y:%d' % i, str(i), self.id(i) + '0')]
        if remote != again or hash(remote) != hash(again) or any(remote == x or len({remote, x}) == 1 for x in others):
            raise lib.Mismatch('remotes are the same when and only when their ids are')
        self.same('is_dir', (remote.is_dir(), remote.is_file()), (self.kind(i) == 'd', self.kind(i) == 'f'))
        self.same('find_cache_root', self.at(self.here(p).find_cache_root()), ())
        if not (type(local) is type(self.L(p)) and isinstance(cache, self.C) and type(remote) is self.R):
            raise lib.Mismatch(f'{type(local)} {type(cache)} {type(remote)}')
        if not (remote == self.R(self.id(i)) and hash(remote) == hash(self.R(self.id(i)))):
            raise lib.Mismatch('the remote is not the object')
        others = [j for j in [0, *range(1, len(self.kinds) + 1)] if j != i and self.id(j) in self.w.o]
        if any(remote == self.R(self.id(j)) or not remote != self.R(self.id(j)) for j in others):
            raise lib.Mismatch('the remote is another object')
        parts = '?'
        if not i or st['rem'][i - 1]['p'] != st['loc'][i - 1]['p'] or self.settled(st, st['rem'][i - 1]['p']):
            r = self.any_view(p).remote
            parts = self.slashed(r.parts)
            self.same('as_path', self.slashed(r.as_path().parts), parts)
            self.same('local_direct', self.slashed(r.local_direct.parts), parts)
        up = self.above([cache, *cache.parents] if not cache.is_helper_cache or cache.id else [])
        one = cache.parent.id if i else None
        self.same('cache.parent', one, self.id(st['loc'][i - 1]['p']) if i else None)
        if i and self.kind(i) == 'f' and os.path.islink(p) and self.rng.random() < .2:
            cache.fetch(size_limit_mb=None)
        return ' '.join([up, self.above(remote.parents) if i else '', parts])

    def kind(self, i):
        return self.kinds[i - 1] if i else 'd'

    def settled(self, st, i):
        while i:
            if st['loc'][i - 1] != st['rem'][i - 1]:
                return False
            i = st['rem'][i - 1]['p']
        return True

    def listed(self, caches):
        out = []
        st = self.project()
        for c in caches:
            n = self.number(c.id)
            self.same('remote', c.remote.id, c.id)
            self.same('a listed path', self.at(c), self.at(self.path(st, n)))
            self.same('its local', self.at(c.local), self.at(c))
            out.append(n)
        if len(set(out)) != len(out):
            raise lib.Mismatch(f'listed twice: {out}')
        return ' '.join(map(str, sorted(out)))

    def do(self, op):
        st = self.project()
        o, i = op['op'], op['i']
        rng = self.rng
        self.seen = {i for i, e in enumerate(st['loc'], 1) if e['p'] != -1}
        if o == 'rmv':
            rem = [dict(e) for e in st['rem']]
            rem[i - 1] = dict(p=op['p'], n=op['n'])
            self.rem(rem)
            return 'done'
        if o == 'fresh':
            r = self.R(rng.choice([self.id(i), self.R(self.id(i)), aug.PathMeta(id=self.id(i))]))
            self.same('as_path', r.as_path().parts, r.parts)
            return self.slashed(r.parts) + ' ' + (self.above(r.parents) if i else '')
        if o == 'mirror':
            r = self.R(self.id(i))
            try:
                c = r.cache_init(parents=True) if op['parents'] else r.cache_init()
            except FileNotFoundError:
                return 'refused'
            self.same('what came of it', c.id, self.id(i))
            self.same('where', self.at(c), self.at(self.path(self.project(), i)))
            self.same('its remote', (c.remote.id, c.remote.cache.id), (self.id(i),) * 2)
            return 'done'
        p = self.path(st, i)
        if o == 'lmv':
            os.rename(p, self.path(st, op['p']) + '/' + self.names[op['n']])
            return 'done'
        if o == 'lrm':
            shutil.rmtree(p) if self.kind(i) == 'd' else os.unlink(p)
            return 'done'
        if o in ('children', 'rchildren'):
            c = self.any_view(p)
            return self.listed(list(c.children if o == 'children' else c.rchildren))
        if o == 'mkdir':
            x = self.here(p) / self.names[op['n']]
            if not op['m'] and rng.random() < .3 and not os.path.lexists(x):
                os.mkdir(x)
            if op['m']:
                x = x / self.names[op['m']]
            try:
                r = x.mkdir_remote(parents=True) if op['parents'] else x.mkdir_remote()
            except (FileNotFoundError, FileExistsError, aug.exceptions.RemotePathExistsError):
                # a folder that was there stays
                if not op['m'] and not any(e['p'] == i and e['n'] == op['n'] for e in st['loc']) and os.path.isdir(x):
                    os.rmdir(x)
                return 'refused'
            self.same('the new folder', self.at(r.local), self.at(x))
            self.same('its cache', (r.cache.id, x.cache.id), (r.id,) * 2)
            return 'done'
        if o == 'lookup':
            return self.lookup(st, i, p, op['n'])
        return self.views(st, i)

    def lookup(self, st, i, p, n):
        n = self.names[n]
        full = p + '/' + n
        own = None
        if not os.path.lexists(full) and self.rng.random() < .6:
            own = self.rng.choice(['file', 'dir'])
            if own == 'dir':
                os.mkdir(full)
            else:
                open(full, 'w').close()
        try:
            c = self.here(full).cache
            try:
                d = self.any_view(p) / n
                if d is None and not own:
                    raise lib.Mismatch('a cache of nothing at all')
            except FileNotFoundError:
                if os.path.lexists(full):
                    raise lib.Mismatch(f'{n} is there')
                d = None
            a, b = (None if x is None else x.id for x in (c, d))
            self.same('by path and by name', a, b)
            self.same('cache_id', self.L(full).cache_id, a)
            self.same('find_cache_root', self.at(self.here(full).find_cache_root()), ())
        finally:
            if own:
                os.rmdir(full) if own == 'dir' else os.unlink(full)
        return 'none' if a is None else str(self.number(a))

    def project(self):
        none = dict(p=-1, n='')
        loc, rem = [dict(none) for _ in self.kinds], [dict(none) for _ in self.kinds]

        def walk(where, p):
            for n in os.listdir(where):
                full = where + '/' + n
                if p == 0 and n == self.internal:
                    continue
                c = self.L(full).cache
                if c is None or c.id is None:
                    raise lib.Mismatch(f'{full} is of no object')
                i = self.number(c.id)
                if n not in self.inv or loc[i - 1]['p'] != -1:
                    raise lib.Mismatch(f'not expected: {full}')
                loc[i - 1] = dict(p=p, n=self.inv[n])
                if (self.kinds[i - 1] == 'd') != (os.path.isdir(full) and not os.path.islink(full)):
                    raise lib.Mismatch(f'{full} is not a {self.kinds[i - 1]}')
                if os.path.isdir(full):
                    walk(full, i)
        walk(self.top, 0)
        for ident, o in self.w.o.items():
            if ident != self.w.root:
                rem[self.number(ident) - 1] = dict(p=self.number(o['parent']), n=self.inv[o['name']])
        return dict(kinds=list(self.kinds), rem=rem, loc=loc)

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        n = rng.randint(3, 8)
        kinds = [rng.choice('ddf') for _ in range(n)]
        none = dict(p=-1, n='')
        rem, loc = [dict(none) for _ in kinds], [dict(none) for _ in kinds]
        for i in range(n):
            p = rng.choice([0] + [j + 1 for j in range(i) if kinds[j] == 'd' and rem[j]['p'] != -1])
            e = dict(p=p, n=rng.choice('abr'))
            if e in rem or kinds[i] == 'd' and rng.random() < .3:
                continue
            rem[i] = e
            if (p == 0 or loc[p - 1]['p'] != -1) and rng.random() < .6:
                loc[i] = dict(e)
        return dict(kinds=kinds, rem=rem, loc=loc)

    def random_op(self, rng, st):
        no = dict(i=0, p=0, n='', m='', parents=False)
        n = len(st['kinds'])
        here = [0] + [i for i in range(1, n + 1) if st['loc'][i - 1]['p'] != -1]
        there = [i for i in range(1, n + 1) if st['rem'][i - 1]['p'] != -1]
        dirs = lambda t: [i for i in t if i == 0 or st['kinds'][i - 1] == 'd']

        def up(i):
            out = []
            while i:
                i = st['rem'][i - 1]['p']
                out.append(i)
            return out

        def fits(i):
            if not i or st['loc'][i - 1] == st['rem'][i - 1]:
                return True
            return st['loc'][i - 1]['p'] == -1 and st['rem'][i - 1] not in st['loc']
        o = rng.choice(['lmv', 'lrm', 'rmv', 'mirror', 'mirror', 'children', 'rchildren', 'mkdir', 'views', 'views', 'views', 'fresh', 'lookup'])
        if o == 'rmv':
            if not there:
                return None
            i, p = rng.choice(there), rng.choice([0] + dirs(there))
            x = dict(p=p, n=rng.choice('abr'))
            if p == i or i in up(p) or x in st['rem']:
                return None
            return dict(no, op=o, i=i, **x)
        if o == 'lrm':
            return dict(no, op=o, i=rng.choice(here[1:])) if here[1:] else None
        if o == 'lmv':
            i, p = rng.choice(here), rng.choice(dirs(here))
            x, q = dict(p=p, n=rng.choice('abr')), p
            while q and q != i:
                q = st['loc'][q - 1]['p']
            return None if q == i or x in st['loc'] else dict(no, op=o, i=i, **x)
        if o == 'mirror':
            c = [i for i in there if all(fits(j) for j in [i] + up(i)) and (st['kinds'][i - 1] == 'd' or up(i)[0] in here or up(i)[1] not in here)]
            return dict(no, op=o, i=rng.choice(c), parents=rng.random() < .5) if c else None
        if o in ('children', 'rchildren'):
            i = rng.choice(dirs(here))
            if not self.settled(st, i) or i and i not in there:
                return None
            below = [j for j in there if (i in up(j) if o == 'rchildren' else up(j)[0] == i)]
            return dict(no, op=o, i=i) if all(fits(j) for j in below) else None
        if o == 'mkdir':
            free = [i for i in range(1, n + 1) if st['kinds'][i - 1] == 'd' and i not in there and i not in here]
            i = rng.choice(dirs(here))
            x, m = rng.choice('abr'), rng.choice(['', 'a', 'b', 'r'])
            if len(free) < (2 if m else 1) or i and i not in there or m and dict(p=i, n=x) in st['loc']:
                return None
            return dict(no, op=o, i=i, n=x, m=m, parents=rng.random() < .6)
        if o == 'views':
            return dict(no, op=o, i=rng.choice(here))
        if o == 'fresh':
            return dict(no, op=o, i=rng.choice([0] + there))
        return dict(no, op=o, i=rng.choice(dirs(here)), n=rng.choice('abr'))


def check(c):
    b = Views()
    inv = ['Trees'], ['Calm', 'Remote', 'Found']
    ops = {'lmv', 'lrm', 'rmv', 'mirror', 'children', 'rchildren', 'mkdir', 'views', 'fresh', 'lookup'}
    base = dict(Shapes={'chain', 'fork', 'deep'}, Names={'a', 'b', 'r'}, OpNames=ops, MaxOps=3)
    t = c.model('Views', dict(base, MaxOps=3 if c.thorough else 2), *inv, expect=['mirror/done', 'mirror/refused', 'mkdir/done', 'mkdir/refused', 'lookup/none'])
    c.replay(b, t, limit=30000 if c.thorough else 4000)
    t = c.model('Views', dict(base, Names={'a', 'r'}, MaxOps=4 if c.thorough else 3), *inv)
    c.walks(b, t, 5000 if c.thorough else 500, 12, tag='histories')
    c.record(b, 6000 if c.thorough else 600, 16, dict(base, MaxOps=99, Shapes=set()))
