import os, shutil, warnings
import lib, mem
warnings.simplefilter('ignore')
import augpathlib as aug
from augpathlib import exceptions as exc
aug.utils.log.setLevel('CRITICAL')

PATHS = ['a', 'b', 'ext', 'gone', 'o', 'o/a', 'o/b']
OUT = ['copy_outto', 'copy_infrom']
IDS = dict(A='f1', B='f2', P='f3')


class Copy(lib.Binding):
    module = 'Copy'
    metas = False
    placeholder = None

    def path(self, p):
        return self.names[p]

    def fill(self, token):
        size = 0 if token == 'E' else self.rng.choice([1, 3, 4095, 4096, 4097, 8192, 12288, 20000, 70001])
        return b'' if not size else (token.encode() + self.rng.randbytes(size))[:size] if size > 3 else token.encode() * size

    def start(self, st, rng, root):
        self.rng = rng
        self.w = os.path.join(os.path.realpath(root), rng.choice(['w', 'w ö x']))
        os.mkdir(self.w)
        n = rng.choice([('a', 'b', 'o'), ('a.txt', 'b c', 'o.d'), ('.a', 'bb.tar.gz', '.o'), ('ä', 'ß', 'Ω')])
        self.names = {p: self.w + '/' + v for p, v in dict(
            a=n[0], b=n[1], ext='ext', gone='gone', o=n[2], self='self', deep='no/such/place', nofolder='missing/x').items()}
        self.names['o/a'] = self.names['o'] + '/' + n[0]
        self.names['o/b'] = self.names['o'] + '/' + n[1]
        self.content = {t: self.fill(t) for t in 'ABEXOF'}
        self.born = {}
        self.setup()
        later = []
        for p in PATHS:
            v, f = st['e'][p], self.names[p]
            if v == 'dir':
                os.mkdir(f)
            elif v == '=' + p:
                with open(f, 'wb') as fh:
                    fh.write(self.content[st['c'][p]])
                self.born[os.stat(f).st_ino] = p
            elif v[0] == '=':
                later.append((p, v[1:]))
            elif v[0] == '>':
                os.symlink(f if v == '>self' else self.names[v[1:]], f)
        for p, q in later:
            os.link(self.names[q], self.names[p])
        for p in PATHS:
            if st['m'][p] != 'none':
                self.set_meta(p, st['m'][p])
        os.symlink('self', self.w + '/self')
        self.placed(st)
        for p in PATHS:
            f = self.names[p]
            if os.path.isfile(f) and not os.path.islink(f):
                os.chmod(f, rng.choice([0o644, 0o600, 0o755, 0o440]))
                os.utime(f, ns=(10 ** 18, rng.randrange(10 ** 18, 15 * 10 ** 17)))
        self.cwd = rng.choice([self.w, self.names['o'] if st['e']['o'] == 'dir' else self.w])
        os.chdir(self.cwd)
        self.handles = {}
        self.sticky = rng.random() < .5

    def setup(self):
        self.cls = self.rng.choice([aug.AugmentedPath, aug.EatPath, aug.LocalPath])
        self.others = [aug.AugmentedPath, aug.EatPath, aug.LocalPath]

    def placed(self, st):
        pass

    def set_meta(self, p, v):
        raise NotImplementedError

    def get_meta(self, f):
        return 'none'

    def handle(self, p, other=False):
        if self.sticky and p in self.handles:
            return self.handles[p]
        f = self.names[p]
        name = self.rng.choice([f, os.path.relpath(f, self.cwd)])
        cls = self.rng.choice(self.others) if other and self.rng.random() < .2 else self.cls
        h = cls(name)
        if self.sticky:
            self.handles[p] = h
        return h

    def do(self, op):
        before = self.stamp(op['x'])
        self.carries = False
        out = self.do_(op)
        if out == 'ok' and self.carries:
            x, y = self.names[op['x']], self.names[op['y']]
            if os.path.isdir(y):
                y += '/' + os.path.basename(x)
            a, b = os.stat(x), os.stat(y)
            if (a.st_mode, a.st_mtime_ns) != (b.st_mode, b.st_mtime_ns):
                return f'ok but of other times or permissions {a} {b}'
        if self.stamp(op['x']) != before:
            return out + ' but the source was changed'
        return out

    def stamp(self, p):
        try:
            st = os.lstat(self.names[p])
        except OSError:
            return None
        return st.st_mode, st.st_ino, st.st_uid

    def kw(self, op, h=None):
        kw = {} if not op['force'] and self.rng.random() < .5 else dict(force=op['force'])
        if op['meta'] or (isinstance(h, aug.LocalPath) and self.rng.random() < .5):
            kw['copy_cache_meta'] = op['meta']
        return kw

    def do_(self, op):
        o = op['op']
        try:
            if o == 'copy_to':
                h = self.handle(op['x'])
                self.carries = not isinstance(h, aug.LocalPath)
                h.copy_to(self.handle(op['y'], True), **self.kw(op, h))
            elif o == 'copy_from':
                h, x = self.handle(op['y']), self.handle(op['x'])
                self.carries = not isinstance(h, aug.LocalPath) and not isinstance(x, aug.LocalPath)
                h.copy_from(x, **self.kw(op, h))
            else:
                d, x = self.handle(op['y'], True), self.handle(op['x'])
                self.carries = not isinstance(x, aug.LocalPath)
                kw = self.kw(op)
                r = x.copy_outto(d, **kw) if o == 'copy_outto' else d.copy_infrom(x, **kw)
                if os.path.abspath(r) != os.path.abspath(self.names[op['y']] + '/' + os.path.basename(self.names[op['x']])):
                    return f'says it copied to {r}'
            return 'ok'
        except exc.PathExistsError:
            return 'exists'
        except exc.CacheExistsError:
            return 'exists'
        except (OSError, shutil.Error, TypeError) as e:
            if isinstance(e, TypeError) and not (op['meta'] and op['force']):
                return lib.describe(e)
            return 'error'

    def token(self, b):
        for t, v in self.content.items():
            if v == b:
                return t
        return f'{len(b)} bytes: {b[:20]!r}'

    def project(self):
        e, c, m = {}, {}, {}
        back = {v: k for k, v in self.names.items()}
        for p in PATHS:
            c[p] = m[p] = 'none'
        seen = {}
        for p in PATHS:
            f = self.names[p]
            if os.path.islink(f):
                t = os.readlink(f)
                e[p] = '>self' if t == f else '>' + back.get(t, 'deep' if t == self.placeholder else t)
            elif os.path.isdir(f):
                e[p] = 'dir'
            elif os.path.lexists(f):
                i = os.stat(f).st_ino
                if i not in self.born or (self.born[i] != p and not os.path.lexists(self.names[self.born[i]])):
                    self.born[i] = p
                e[p] = '=' + self.born[i]
                q = self.born[i]
                c[q] = self.token(open(f, 'rb').read())
                m[q] = self.get_meta(f)
            else:
                e[p] = 'none'
        extra = set(os.listdir(self.w)) - {os.path.basename(self.names[p]) for p in PATHS if '/' not in p} - {'self', '.operations'}
        if os.path.isdir(self.names['o']):
            extra |= set(os.listdir(self.names['o'])) - {os.path.basename(self.names[p]) for p in ('a', 'b')}
        if extra:
            e['a'] = f'also {sorted(extra)}'
        return dict(e=e, c=c, m=m)

    def is_init(self, pre):
        return pre['e']['a'] == '=a'

    def random_init(self, rng):
        e = {p: 'none' for p in PATHS}
        c, m = dict(e), dict(e)
        e.update(ext='=ext', o='dir')
        c.update(ext='X')
        e['a'] = rng.choice(['=a', '=a', '=a', 'dir', 'none', '>ext', '>gone', '>self'])
        if self.metas:
            e['a'] = rng.choice(['=a', '=a', '=a', 'dir', 'none'])
        e['b'] = rng.choice(['none', '=b', 'dir', '>deep'] if self.metas else ['none', 'none', 'none', '=b', 'dir', '>ext', '>gone', '>deep', '>o', '>a'] + ['=a'] * (e['a'] == '=a'))
        e['o/a'] = rng.choice(['none', 'none', '=o/a'] + ['>gone'] * (not self.metas))
        for p, t in (('a', 'A'), ('b', 'B'), ('o/a', 'O')):
            if e[p] == '=' + p:
                c[p] = rng.choice([t, 'E']) if p != 'o/a' else t
        if self.metas:
            for p in 'ab':
                if e[p] == '=' + p and rng.random() < .6:
                    m[p] = 'M' + p.upper()
        return dict(e=e, c=c, m=m)

    def random_op(self, rng, st):
        def final(p, n=5):
            v = st['e'].get(p, '')
            return p if not v.startswith('>') else p if not n else final(v[1:], n - 1)

        def at(p):
            f = final(p)
            return st['e'].get(f, '') if not st['e'].get(f, '').startswith('>') else ''
        for _ in range(20):
            x = rng.choice('ab')
            if rng.random() < .3 and not self.metas:
                y = rng.choice(['o', 'o', 'o', 'b', 'ext', 'nofolder'])
                if y == 'b' and not (final('b') in PATHS and (at('b') != 'dir' or final('b') == 'o')):
                    continue
                return dict(op=rng.choice(OUT), x=x, y=y, force=rng.random() < .4, meta=False)
            y = rng.choice(['a', 'b', 'b', 'o', 'o/a', 'nofolder'])
            v = at(x)
            has = v[:1] == '=' and st['m'].get(v[1:], 'none') != 'none'
            force = rng.random() < .4
            if y != 'nofolder' and at(y) == 'dir' and final(y) != 'o':
                force = False
            return dict(op=rng.choice(['copy_to', 'copy_from']), x=x, y=y, force=force, meta=has and rng.random() < .6)


class Cached(Copy):
    """files below a cache root, some with cached metadata"""
    metas = True

    def setup(self):
        world = mem.World(os.path.basename(self.w))
        self.cls, self.cache, self.remote = mem.make(world)
        self.others = [self.cls]
        self.remote.init(world.root)
        self.remote.dropAnchor(self.cls(os.path.dirname(self.w)))
        for t in 'ABP':
            world.add(IDS[t], 'f', world.root, t)
        self.meta = {'M' + t: mem.meta(IDS[t], t) for t in 'AB'}

    def placed(self, st):
        if st['e']['b'] == '>deep':      # in a cached folder: a placeholder
            os.unlink(self.names['b'])
            self.remote(IDS['P'])
            self.cache(self.names['b'], meta=mem.meta(IDS['P'], os.path.basename(self.names['b'])))
            self.placeholder = os.readlink(self.names['b'])

    def set_meta(self, p, v):
        self.cls(self.names[p]).cache_init(self.meta[v])

    def get_meta(self, f):
        x = {k: v for k, v in ((k, os.getxattr(f, k)) for k in os.listxattr(f))}
        if not x:
            return 'none'
        cache = self.cls(f).cache
        got = cache and cache.meta
        for n, v in self.meta.items():
            if got == v:
                return n
        return f'{got and got.as_pretty()}'


def check(c):
    allops = {'copy_to', 'copy_from', 'copy_outto', 'copy_infrom'}
    inv = (['TypeOK'], ['NeverClobbers', 'SourceKept', 'CopiedExactly', 'OnlyIntoFolders', 'MetaOnlyOnRequest',
                        'RefusedChangesNothing'])
    plain = dict(Metas={'none'}, OutKinds={'dir', 'none', '=o', '>gone', '>ext'}, OpNames=allops,
                 SrcKinds={'=a', 'dir', 'none', '>ext', '>gone', '>self', '>b'}, InOut={'none', '=o/a', '>gone', '=a'},
                 DstKinds={'none', '=b', 'dir', '>ext', '>gone', '>self', '>deep', '>o', '>a', '=a'})
    t = c.model('Copy', dict(plain, MaxOps=8 if c.thorough else 2), *inv,
                expect=[f'{o}/{r}' for o in allops for r in ('ok', 'error', 'exists')])
    b = Copy()
    c.replay(b, t, limit=None if c.thorough else 8000, reps=3 if c.thorough else 1, tag='plain')
    c.walks(b, t, 1000 if c.thorough else 200, 8, tag='plain')
    cached = dict(Metas={'none', 'm'}, OutKinds={'dir'}, OpNames=allops, SrcKinds={'=a', 'dir', 'none'},
                  DstKinds={'none', '=b', 'dir', '>deep', '=a'}, InOut={'none', '=o/a'})
    t = c.model('Copy', dict(cached, MaxOps=6 if c.thorough else 2), *inv, expect=['copy_to/ok', 'copy_from/ok'])
    b2 = Cached()
    c.replay(b2, t, limit=None if c.thorough else 3000, tag='cached')
    c.walks(b2, t, 100, 6, tag='cached')
    c.record(b, 1500 if c.thorough else 300, 8, dict(plain, MaxOps=9))
    c.record(b2, 1000 if c.thorough else 100, 8, dict(cached, MaxOps=9))
    c.assumptions += ['sources that cannot be read are folders, missing, dangling or loops',
                      'whether writing with force onto a link goes through the link or replaces it is left open',
                      'which metadata is kept when it is asked for but the target has its own is left open']
