import os, shutil, pathlib, contextlib, io, warnings
import lib, mem
import augpathlib as aug
from augpathlib import PathMeta
from augpathlib.caches import ReflectiveCache
warnings.simplefilter('ignore')
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True

CLASSES = [aug.AugmentedPath, aug.EatPath, aug.LocalPath, aug.RepoPath, ReflectiveCache]
WHERE = dict(a='a', b='b', x='a/x', y='a/y')
PART = dict(LONG='n' * 300, NUL='n\0l')


@contextlib.contextmanager
def within(d):
    here = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(here)


class Paths(lib.Binding):
    module = 'Paths'

    def start(self, st, rng, root):
        self.rng = rng
        self.base = os.path.realpath(root) + '/base'
        os.mkdir(self.base)
        self.t = {k: 'n' for k in WHERE}
        for n in 'abxy':
            self.set(n, st['t'][n])
        self.memo = {}

    def set(self, n, k):
        p = f'{self.base}/{WHERE[n]}'
        if self.t[n] == 'd':
            os.rmdir(p)
        elif self.t[n] != 'n':
            os.unlink(p)
        if k == 'f':
            open(p, 'w').close()
        elif k == 'd':
            os.mkdir(p)
        elif k == 'p':
            os.mkfifo(p)
        elif k != 'n':
            t = k[2:]
            if t == 'long':
                t = PART['LONG']
            os.symlink(self.base + t if t.startswith('/') else t, p)
        self.t[n] = k

    def path(self, q):
        """ an object for the path, the one from before or a new one, in one of the spellings """
        q = [PART.get(c, c) for c in q]
        rel = self.rng.random() < .3
        key = (tuple(q), rel)
        if key in self.memo and self.rng.random() < .6:
            return rel, self.memo[key]
        cls = self.rng.choice(CLASSES[:4] if rel else CLASSES)
        parts = ([] if rel else [self.base]) + q
        how = self.rng.choice(['join', 'args', 'div'])
        if cls is ReflectiveCache:
            how = 'join'  # joining caches looks for the joined cache
        if how == 'join':
            p = cls('/'.join(parts))
        elif how == 'args':
            p = cls(*parts)
        else:
            p = cls(parts[0])
            for c in parts[1:]:
                p = p / c
        self.memo[key] = p
        return rel, p

    def do(self, op):
        k = op['op']
        if k == 'set':
            self.set(op['n'], op['k'])
            return 'ok'
        elif k == 'ask':
            rel, p = self.path(op['q'])
            with within(self.base if rel else '.'):
                got = ''
                for name, c in (('exists', 'e'), ('is_file', 'f'), ('is_dir', 'd'), ('is_symlink', 'l'),
                                ('is_broken_symlink', 'b'), ('exists_not_symlink', 'n')):
                    try:
                        r = getattr(p, name)()
                    except Exception as e:
                        return f'{name} raised {type(e).__name__}'
                    if r is not True and r is not False:
                        return f'{name} said {r!r}'
                    got += c if r else '-'
                got += self.more(p, op['q'], got)
            return got
        elif k == 'type':
            return self.type(op)
        elif k == 'rel':
            base = self.rng.choice([['/'], ['/', 'q'], ['/', 'a', 'b'], []])
            cls = self.rng.choice(CLASSES[:4])
            a, b = cls(*base, *op['from']), cls(*base, *op['to'])
            r = b.relative_path_from(a) if self.rng.random() < .5 else a.relative_path_to(b)
            if type(r) is not type(a) or r.is_absolute():
                return f'{type(r).__name__} {r}'
            return os.path.normpath(str(r))

    def type(self, op):
        name, kind, to = op['name'], op['kind'], op['to']
        d = self.base + '/' + self.rng.choice(['t', 't.json', 't.gz'])
        os.makedirs(d + '/at')
        p = f'{d}/{name}'
        if kind == 'file':
            open(p, 'w').close()
        elif kind == 'dir':
            os.mkdir(p)
        elif kind == 'pipe':
            os.mkfifo(p)
        elif kind.startswith('link'):
            t = name if kind.endswith('self') else to if kind.endswith('dir') else 'at/' + to
            if kind.endswith('file'):
                open(d + '/' + t, 'w').close()
            elif kind.endswith('dir'):
                os.mkdir(d + '/' + t + '_')
                t += '_'
            os.symlink(t if self.rng.random() < .7 else d + '/' + t, p)
        cwd, p = self.rng.choice([('.', p), (d, name), (d, './' + name), (d + '/at', '../' + name), (self.base, os.path.relpath(p, self.base))])
        cls = self.rng.choice(CLASSES[:4])
        o = type(cls.__name__, (cls,), dict(_suffix_mimetypes={('.aa', '.zz'): 'ours'}))
        if hasattr(o, '_bind_flavours'):
            o._bind_flavours()
        try:
            with within(cwd):
                o = o(p)
                m = o.mimetype
                return m if m == 'inode/directory' else f'{m or "-"} {o.encoding or "-"}'
        finally:
            shutil.rmtree(d)

    def more(self, p, q, got):
        out = ''
        if 'NUL' in q:  # no file can be called this
            return '---:-:-'
        for modes, kw, c in ((('read', os.R_OK, 'write', os.W_OK), {}, 'r'), (('execute', os.X_OK), {}, 'x'),
                             (('read', 'write'), dict(follow_symlinks=False), 'm')):
            r = p.access(self.rng.choice(modes), **kw)
            if r is not True and r is not False:
                return f'access said {r!r}'
            out += c if r else '-'
        if self.rng.random() < .2:
            try:
                return f'access said {p.access("peek")} to nonsense'
            except TypeError:
                pass
        out += ':'
        if got[0] == 'e':
            r = p.resolve()
            if type(r) is not type(p):
                return f'resolved to a {type(r).__name__}'
            r = str(r)
            at = {self.base + '/' + w: n for n, w in WHERE.items()}
            at.update({self.base: '', os.path.dirname(self.base): '^', os.path.dirname(os.path.dirname(self.base)): '^'})
            out += at.get(r, 'elsewhere ' + r)
        else:
            out += '-'
        try:
            v = str(p.readlink())
        except OSError as e:
            return out + ':-'
        v = 'long' if v == PART['LONG'] else '.' if v == '' else v
        return out + ':->' + (v[len(self.base):] if v.startswith(self.base) else v)

    def project(self):
        t = {}
        for n, w in WHERE.items():
            p = f'{self.base}/{w}'
            if n in 'xy' and t['a'] != 'd' or not os.path.lexists(p):
                t[n] = 'n'
            elif os.path.islink(p):
                v = os.readlink(p)
                v = 'long' if v == PART['LONG'] else v
                t[n] = '->' + (v[len(self.base):] if v.startswith(self.base) else v)
            else:
                t[n] = 'd' if os.path.isdir(p) else 'f' if os.path.isfile(p) else 'p'
        extra = set(os.listdir(self.base)) - {'a', 'b'}
        if extra:
            t['a'] = 'more'
        return dict(t=t)

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        return dict(t=dict(a='n', b='n', x='n', y='n'))

    def random_op(self, rng, st):
        t = st['t']
        top = ['->a', '->b', '->zz', '->.', '->a/x', '->b/x', '->a/..', '->/b', '->/a/x', '->long', 'n', 'f', 'd', 'd', 'd', 'p']
        sub = ['->x', '->y', '->zz', '->.', '->../b', '->../a', '->/b', '->/a/x', '->long', 'n', 'f', 'd', 'd', 'p']
        for _ in range(20):
            if rng.random() < .35:
                n = rng.choice('abxy')
                if n in 'xy' and t['a'] != 'd' or n == 'a' and (t['x'] != 'n' or t['y'] != 'n'):
                    continue
                k = rng.choice(top if n in 'ab' else sub)
                if k != t[n]:
                    return dict(op='set', n=n, k=k)
            else:
                return dict(op='ask', q=rng.choice(QUERIES))
        return dict(op='ask', q=['a'])


QUERIES = [[c] for c in ('a', 'b', 'zz', 'LONG', 'NUL')] \
    + [[c, e] for c in 'ab' for e in ('x', 'y', 'zz', '..', 'LONG')] \
    + [['a', c, e] for c in ('x', 'y', '..') for e in ('x', 'b', '..') if [c, e] not in (['..', '..'], ['..', 'x'])] \
    + [['b', '..', 'b'], ['b', 'x', 'y'], ['zz', 'x'], ['zz', '..', 'a']]


class Tree(lib.Binding):
    module = 'CacheTree'
    kinds = None

    def start(self, st, rng, root):
        self.rng = rng
        self.top = os.path.realpath(root)
        os.mkdir(self.top + '/base')
        os.symlink('base', self.top + '/alias')
        self.base = self.top + '/base/r'
        w = mem.World('r')
        self.Local, self.Cache, self.Remote = mem.make(w)
        self.Remote.init('r0')
        self.Remote.dropAnchor(self.Local(self.top + '/base'))
        self.n = 0
        self.t = {n: 'n' for n in SLOTS}
        for n in SLOTS:
            if st['t'][n] != 'n':
                self.set(n, st['t'][n])
        self.memo = {}

    def at(self, n):
        return self.base + ('/' + n.replace('/o', '/.operations') if n else '')

    def set(self, n, k):
        p = self.at(n)
        if self.t[n] in ('k', 'K'):
            os.rmdir(p)
        elif self.t[n] != 'n':
            os.unlink(p)
        self.n += 1
        m = PathMeta(id=f'f{self.n}', name=os.path.basename(p), size=1, created=mem.when(1), updated=mem.when(1),
                     file_id=self.n, checksum=b'1' * 32)
        if k in ('f', 'F'):
            open(p, 'w').close()
        elif k in ('k', 'K'):
            os.mkdir(p)
        elif k == 'P':
            os.symlink(m.as_symlink(), p)
        elif k[0] == 'l':
            up = '..' if '/' in n else '.'
            t = {'l.': up, 'ld': up + '/d', 'lz': 'not/there', 'lx': 'x'}[k]
            if self.rng.random() < .4 and k in ('l.', 'ld'):
                t = os.path.normpath(os.path.join(os.path.dirname(p), t))
            os.symlink(t, p)
        if k == 'F':
            self.Cache(p, meta=m)
        elif k == 'K':
            self.Cache(p, meta=PathMeta(id=f'd{self.n}'))
        self.t[n] = k

    def spell(self, n):
        """ one of the spellings of the path """
        p = self.at(n)
        how = self.rng.choice(['abs', 'abs', 'alias', 'rel', 'reldot', 'inside', 'deep'])
        cwd = '.'
        if how == 'deep':
            # through a link from elsewhere to the folder it is in, or to the folder it is
            d, name = os.path.split(p)
            if os.path.isdir(p) and not os.path.islink(p) and self.rng.random() < .5:
                d, name = p, ''
            link = self.top + '/in' + os.path.relpath(d, self.base).replace('/', '-').strip('.')
            if os.path.isdir(d) and d.startswith(self.base):
                if not os.path.islink(link):
                    os.symlink(d, link)
                p = os.path.join(link, name).rstrip('/')
        if how == 'alias':
            p = p.replace('/base', '/alias', 1) if p.startswith(self.top + '/base') else p
        elif how == 'rel':
            cwd, p = self.top, os.path.relpath(p, self.top)
        elif how == 'reldot':
            cwd, p = self.base, os.path.relpath(p, self.base)
        elif how == 'inside':
            cwd = self.base if not os.path.isdir(self.base + '/d') else self.base + '/d'
            p = os.path.relpath(p, os.path.realpath(cwd))
        key = (cwd, p)
        if key not in self.memo or self.rng.random() < .5:
            self.memo[key] = self.Local(p)
        return cwd, self.memo[key]

    def names(self, n, p, got, deep):
        """ the listing as paths from the root, through the real folder it is of """
        got = [os.path.relpath(str(g), str(p)) for g in got]
        real = os.path.relpath(os.path.realpath(self.at(n)), self.base)
        out = []
        for g in got:
            r = os.path.normpath(os.path.join(real, g))
            if '/' in r:
                h, tl = os.path.split(r)
                r = h + '/' + ('o' if tl == '.operations' else tl)
            out.append(r)
        known = [n for n in ORDER if n in out]
        other = sorted(x for x in out if x not in ORDER)
        twice = sorted(x for x in set(out) if out.count(x) > 1)
        return ''.join(x + ' ' for x in known + [f'and {x}' for x in other] + [f'twice {x}' for x in twice])

    def do(self, op):
        k = op['op']
        if k == 'set':
            self.set(op['n'], op['k'])
            return 'ok'
        elif k in ('children', 'all'):
            cwd, p = self.spell(op['n'])
            got = []
            with within(cwd):
                for x in p.children if k == 'children' else p.rchildren:
                    if type(x) is not type(p):
                        return f'yielded a {type(x).__name__}'
                    got.append(x)
                    if len(got) > 50:
                        return 'does not end'
            return self.names(op['n'], p, got, k == 'all')
        elif k == 'root':
            cwd, p = self.spell(op['n'])
            with within(cwd):
                r = p.find_cache_root(fail=True) if self.rng.random() < .2 else p.find_cache_root()
                if r is None:
                    return 'none'
                return 'the anchor' if os.path.realpath(r) == self.base else 'elsewhere'
        elif k == 'outside':
            r = self.Local(self.top + self.rng.choice(['/base', '/other', '/base/other', '', '/base/rr'])).find_cache_root()
            return 'none' if r is None else 'found one'

    def project(self):
        t = {}
        for n in SLOTS:
            p = self.at(n)
            if '/' in n and t[n[0]] not in ('k', 'K') or not os.path.lexists(p):
                t[n] = 'n'
            elif os.path.islink(p):
                v = os.readlink(p)
                t[n] = self.t[n]
                if v.startswith('.') and self.t[n] not in ('l.', 'ld'):
                    t[n] = 'another link'
            else:
                a = bool(os.listxattr(p))
                t[n] = ('K' if a else 'k') if os.path.isdir(p) else ('F' if a else 'f')
        if set(os.listdir(self.base)) - {'d', 'u', '.operations'}:
            t['d'] = 'more'
        return dict(t=t)

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        return dict(t={n: 'n' for n in SLOTS})

    def random_op(self, rng, st):
        t = st['t']
        for _ in range(20):
            r = rng.random()
            if r < .4:
                n = rng.choice(SLOTS)
                k = rng.choice(['n', 'f', 'F', 'P', 'k', 'K', 'k', 'K', 'l.', 'ld', 'lz', 'lx'])
                if '/' in n:
                    if k == 'lx' and not n.endswith('/x') or n.endswith('/o') and k not in ('n', 'f', 'k'):
                        continue
                    if t[n[0]] not in ('k', 'K'):
                        continue
                else:
                    if k == 'lx' or n == 'd' and k == 'lx':
                        continue
                    if any(t[f'{n}/{c}'] != 'n' for c in 'xo'):
                        continue
                if k != t[n]:
                    return dict(op='set', n=n, k=k)
            elif r < .8:
                n = rng.choice(SLOTS + ['', ''])
                if '/' not in n or t[n[0]][0] != 'l':
                    return dict(op=rng.choice(['children', 'all']), n=n)
            elif r < .95:
                return dict(op='root', n=rng.choice(SLOTS + ['', 'nope', 'd/nope', 'u/nope/not', '.operations',
                                                              '.operations/trash']))
            else:
                return dict(op='outside')
        return dict(op='outside')


SLOTS = ['d', 'u', 'd/x', 'd/o', 'u/x', 'u/o']
ORDER = ['d', 'd/x', 'd/o', 'u', 'u/x', 'u/o']
LINKS = {'->a', '->b', '->x', '->y', '->zz', '->.', '->../b', '->../a', '->a/x', '->b/x', '->a/..', '->/b', '->/a/x', '->long'}
TOP = {'n', 'f', 'F', 'P', 'k', 'K', 'l.', 'ld', 'lz'}
SUB = {'n', 'f', 'F', 'P', 'k', 'K', 'l.', 'ld', 'lz', 'lx'}


def check(c):
    b, r = Paths(), Tree()
    links = LINKS if c.thorough else {'->a', '->b', '->x', '->../b', '->zz', '->b/x', '->/a/x', '->long'}
    t = c.model('Paths', dict(Mode='query', MaxOps=1, Links=links), ['TypeOK', 'Consistent'], ['AskingIsFree'],
                expect=['ask/e----n', 'ask/e--l--', 'ask/ef---n', 'ask/e-d--n', 'ask/ef-l--', 'ask/e-dl--', 'ask/---lb-', 'ask/------', 'set/ok'])
    c.replay(b, [x for x in t if x['op']['op'] == 'ask'], limit=None if c.thorough else 6000, tag='queries')
    c.walks(b, t, 2000 if c.thorough else 250, 30)
    t = c.model('Paths', dict(Mode='relative', MaxOps=1, Links=set()), ['LeadsBack'], ['AskingIsFree'], expect=['rel/.', 'rel/..'])
    c.replay(b, t, reps=8 if c.thorough else 3, tag='relative')
    t = c.model('Paths', dict(Mode='type', MaxOps=1, Links=set()), [], ['AskingIsFree'],
                expect=['type/inode/directory', 'type/ours -', 'type/- gzip', 'type/- -', 'type/text/plain gzip'])
    c.replay(b, t, reps=8 if c.thorough else 3, tag='types')
    c.record(b, 1000 if c.thorough else 150, 60, dict(Mode='query', MaxOps=1000000, Links=LINKS))
    t = c.model('CacheTree', dict(MaxOps=1, TopKinds=TOP if c.thorough else TOP - {'f', 'k'}, SubKinds=SUB if c.thorough else {'n', 'f', 'k', 'l.', 'P'}),
                ['TypeOK', 'ListsAll', 'ChildrenOfChildren'], ['AskingIsFree'],
                expect=['children/d u', 'all/d d/x', 'root/the anchor', 'outside/none', 'children/'])
    c.replay(r, [x for x in t if x['op']['op'] != 'set'], limit=None if c.thorough else 3000, tag='listing')
    c.record(r, 600 if c.thorough else 100, 50, dict(MaxOps=1000000, TopKinds=TOP, SubKinds=SUB))
    c.assumptions += ['queries run with the permissions to search the folders they pass through',
                      'relative paths are taken between paths without ".." components']
