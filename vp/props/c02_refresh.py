import hashlib, os
import lib, mem
import augpathlib as aug
from augpathlib import PathMeta
from augpathlib.utils import fs_safe_id
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
SETS = [('a', 'b'), ('x y', 'x y.txt'), ('n', 'm.tar.gz'), ('.h', 'h'), ('a', 'ab'), ('n' * 200, 'ü')]


class Refresh(lib.Binding):
    module = 'Refresh'

    def start(self, st, rng, root):
        self.rng = rng
        base = os.path.realpath(str(root))
        self.root = base + '/r'
        self.names = dict(zip('12', rng.choice(SETS)))
        self.prefix = rng.choice(['f', 'N:x:', 'N:x/y'])
        self.w = w = mem.World('r')
        w.chunk = rng.choice([1, 4, 100])
        w.error = rng.choice([ConnectionError('remote gone'), KeyboardInterrupt('stop'), ValueError('remote gone')])
        self.Local, self.Cache, self.Remote = mem.make(w)
        self.Cache.cypher = rng.choice([hashlib.sha256, hashlib.md5])
        self.Remote.init(w.root)
        self.Remote.dropAnchor(self.Local(base))
        self.internal = self.Cache(self.root).local_data_dir.name
        os.chdir(base)
        for o in st['r']:
            w.o[self.id(o['i'])] = dict(kind='d' if o['k'] == 'dir' else 'f')
        self.remote(st['r'])
        if st['trash']:
            raise lib.MachineryError('trash at the start')
        for e in st['l']:
            p = self.path(e['p'])
            if e['k'] == 'dir':
                os.mkdir(p)
            elif e['k'] != 'link':
                with open(p, 'wb') as f:
                    f.write(self.content(e['i'], e['c']))
            if e['i']:
                w.o.setdefault(self.id(e['i']), dict(kind='d' if e['k'] == 'dir' else 'f', parent='r0', name='x', data=b''))
                self.Cache(p, meta=PathMeta(id=self.id(e['i']), name=self.names[str(e['p'])[-1]], **self.facts(e['k'], e['i'], e['v'])))
        have = {o['i'] for o in st['r']}
        for e in st['l']:
            if e['i'] not in have:
                w.o.pop(self.id(e['i']), None)

    def id(self, i):
        return f'{self.prefix}{i}'

    def number(self, ident):
        if not ident.startswith(self.prefix):
            raise lib.Mismatch(f'a strange id {ident}')
        return int(ident[len(self.prefix):])

    def content(self, i, c):
        return b'edited' if c == 4 else b'mine' if c == 5 else b'' if (i % 3, c) == (0, 2) else b'%d:%d' % (i, c) + b'x' * (i % 3 * c)

    def facts(self, k, i, v):
        m = dict(created=mem.when(1), updated=mem.when(1 + v))
        if k != 'dir':
            d = self.content(i, v)
            m.update(size=len(d), checksum=self.Cache.cypher(d).digest(), file_id=i * 10 + v)
        return m

    def path(self, p):
        return '/'.join([self.root] + [self.names[c] for c in str(p or '')])

    def remote(self, r):
        """the remote becomes r"""
        w, at = self.w, {o['p']: self.id(o['i']) for o in r}
        for ident in [i for i in w.o if i != w.root and self.number(i) not in {o['i'] for o in r}]:
            del w.o[ident]
        for o in r:
            p = o['p']
            w.o[self.id(o['i'])].update(parent=at[p // 10] if p // 10 else w.root, name=self.names[str(p)[-1]], v=o['v'],
                                        data=self.content(o['i'], o['v']) if o['k'] == 'file' else b'', meta=self.facts(o['k'], o['i'], o['v']))

    def do(self, op):
        st = self.project()
        o, p, w = op['op'], op['p'], self.w
        if o == 'refresh':
            e = {x['p']: x for x in st['l']}[p]
            cache = self.spell(p)
            w.fail = self.rng.choice([1, 2]) if op['fail'] else 0
            if w.fail == 2 and e['i'] in [x['i'] for x in st['r']] and not w.o[self.id(e['i'])].get('data'):
                w.fail = 1
            w.different = None
            try:
                new = cache.refresh(update_data=op['data'], **(dict(size_limit_mb=None) if op['data'] else {}))
            except (Exception, KeyboardInterrupt) as x:
                self.why = x
                return 'refused'
            finally:
                w.fail = 0
            if new is None:
                return 'gone'
            there = {x['i']: x for x in st['r']}
            if w.different is not None and e['k'] in ('file', 'link') and e['i'] in there and bool(w.different) != (there[e['i']]['v'] != e['v']):
                return f'says {w.different} of the file being different'
            if new.id != self.id(e['i']) or not (new.exists() or new.is_broken_symlink()):
                return f'{new} is not the object'
        elif o == 'reboot':
            cache = self.Cache(self.root) if self.rng.random() < .5 else self.Local(self.root).cache
            try:
                cache.bootstrap(cache.meta, recursive=True)
            except Exception as x:
                self.why = x
                return 'refused' if isinstance(x, aug.exceptions.LocalChangesError) else f'refused {type(x).__name__}'
        elif o == 'edit':
            with open(self.path(p), 'wb') as f:
                f.write(self.content(0, 4))
        elif o == 'mk':
            with open(self.path(p), 'wb') as f:
                f.write(self.content(0, 5))
        else:
            r = []
            for x in st['r']:
                a, b = str(x['p']), str(p)
                if o == 'rmove' and a.startswith(b):
                    x = dict(x, p=int(str(op['to']) + a[len(b):]))
                elif o == 'rchange' and a == b:
                    x = dict(x, v=x['v'] + 1)
                elif o == 'rdel' and a.startswith(b):
                    continue
                r.append(x)
            self.remote(r)
        return 'done'

    def spell(self, p):
        a = self.path(p)
        k = self.rng.random()
        if k < .5:
            return self.Local(a).cache
        if k < .7:
            return self.Cache(a)
        return self.Local(os.path.relpath(a)).cache

    def entry(self, full, p):
        k = 'link' if os.path.islink(full) else 'dir' if os.path.isdir(full) else 'file'
        c = self.Local(full).cache
        m = c.meta if c is not None else None
        e = dict(p=p, k=k, i=0, v=0, c=0)
        if m is None:
            e['k'] = 'mine' if k == 'file' else 'my' + k
        else:
            e['i'] = i = self.number(m.id)
            for v in (1, 2, 3):
                want = self.facts(k, i, v)
                if all(getattr(m, f) == want[f] for f in want):
                    e['v'] = v
            if not e['v']:
                raise lib.Mismatch(f'{p} records {m}')
        if k == 'file':
            with open(full, 'rb') as f:
                b = f.read()
            e['c'] = next((c for c in (1, 2, 3, 4, 5) if b == self.content(e['i'], c)), 8)
        return e

    def project(self):
        inv = {v: k for k, v in self.names.items()}
        l, trash = [], []
        for base, ds, fs in os.walk(self.root):
            if base == self.root:
                ds.remove(self.internal)
            for n in ds + fs:
                full = os.path.join(base, n)
                rel = os.path.relpath(full, self.root).split('/')
                if any(x not in inv for x in rel):
                    raise lib.Mismatch(f'not expected: {rel}')
                l.append(self.entry(full, int(''.join(inv[x] for x in rel))))
        for base, ds, fs in os.walk(os.path.join(self.root, self.internal, 'trash')):
            for n in ds + fs:
                e = self.entry(os.path.join(base, n), 0)
                if e['k'] == 'link':
                    continue
                trash.append(e['i'] * 10 + (9 if e['k'] == 'dir' else e['c']))
        r = []
        for ident, o in self.w.o.items():
            if ident == self.w.root:
                continue
            p, x = '', o
            while True:
                p = inv[x['name']] + p
                if x['parent'] == self.w.root:
                    break
                x = self.w.o[x['parent']]
            r.append(dict(p=int(p), k='dir' if o['kind'] == 'd' else 'file', i=self.number(ident), v=o['v']))
        key = lambda e: e['p']
        return dict(r=sorted(r, key=key), l=sorted(l, key=key), trash=sorted(set(trash)))

    def is_init(self, pre):
        return not pre['trash']

    def random_init(self, rng):
        r = []
        for p in (1, 2, 11, 12, 21, 22, 111, 112, 121, 211, 222):
            up = {e['p']: e for e in r}.get(p // 10)
            if p > 9 and (up is None or up['k'] != 'dir') or rng.random() < .3:
                continue
            r.append(dict(p=p, k=rng.choice(['dir', 'dir', 'file'] if p < 10 else ['dir', 'file', 'file'] if p < 100 else ['file']), i=p, v=1))
        l = []
        for o in r:
            k = 'dir' if o['k'] == 'dir' else rng.choice(['link', 'file'])
            l.append(dict(p=o['p'], k=k, i=o['i'], v=1, c=1 if k == 'file' else 0))
        return dict(r=r, l=l, trash=[])

    def random_op(self, rng, st):
        no = dict(op='', p=0, to=0, data=False, fail=False)
        r, l = {o['p']: o for o in st['r']}, {e['p']: e for e in st['l']}
        ri, li = {o['i']: o for o in st['r']}, {e['i']: e for e in st['l'] if e['i']}
        above = lambda p: [int(str(p)[:n]) for n in range(1, len(str(p)))]

        def in_order(e):
            o = ri.get(e['i'])
            for q in above(o['p']) if o else []:
                i = r[q]['i']
                if i in li and li[i]['p'] != q or q in l and l[q]['i'] not in (0, i):
                    return False
            return True
        x = rng.random()
        if x < .5:
            c = [e for e in l.values() if e['i'] and in_order(e)]
            if not c:
                return None
            stale = [e for e in c if e['i'] not in ri or ri[e['i']]['p'] != e['p'] or ri[e['i']]['v'] != e['v']]
            e = rng.choice(stale if stale and rng.random() < .8 else c)
            data = e['c'] in (0, e['v']) and rng.random() < .3
            return dict(no, op='refresh', p=e['p'], data=data, fail=not (data and e['k'] == 'file') and rng.random() < .15)
        if x < .58:
            c = [p for p in l if l[p]['k'] == 'file']
            return dict(no, op='edit', p=rng.choice(c)) if c else None
        paths = [1, 2, 11, 12, 21, 22, 111, 112, 121, 122, 211, 212, 221, 222]
        if x < .62:
            c = [p for p in paths if p not in l and (p < 10 or l.get(p // 10, {}).get('k') == 'dir')]
            return dict(no, op='mk', p=rng.choice(c)) if c else None
        if not r:
            return None
        p = rng.choice(list(r))
        if x < .67:
            return dict(no, op='rdel', p=p)
        if x < .82:
            return dict(no, op='rchange', p=p) if r[p]['v'] < 3 else None
        deep = max(len(str(q)) for q in r if str(q).startswith(str(p))) - len(str(p))
        c = [n for n in paths if n not in r and (n < 10 or r.get(n // 10, {}).get('k') == 'dir') and not str(n).startswith(str(p)) and len(str(n)) + deep <= 3]
        return dict(no, op='rmove', p=p, to=rng.choice(c)) if c else None


def check(c):
    b = Refresh()
    inv = ['IsTree'], ['NothingLost', 'InLine', 'Gone', 'Stays']
    ops = {'edit', 'mk', 'rmove', 'rchange', 'rdel'}
    P = {1, 2, 11, 12, 21, 22, 111, 112, 121, 211, 212}
    base = dict(Paths=P, Shapes={'flat'}, LocalKinds={'link', 'file'}, OpNames=ops, Fails={False}, MaxOps=3)
    t = c.model('Refresh', dict(base, Shapes={'flat', 'deep', 'two'} if c.thorough else {'deep', 'two'}, Fails={False, True} if c.thorough else {False}), *inv, expect=['refresh/done', 'refresh/refused', 'refresh/gone'])
    only = [x for x in t if x['op']['op'] == 'refresh' and not x['pre']['trash']]
    c.replay(b, only, limit=40000 if c.thorough else 2500, tag='refresh')
    t = c.model('Refresh', dict(base, Paths={1, 2, 11}, MaxOps=5 if c.thorough else 4, Fails={True, False}, LocalKinds={'file'}), *inv)
    c.walks(b, t, 5000 if c.thorough else 600, 10, tag='histories')
    t = c.model('Refresh', dict(base, OpNames=ops | {'reboot'}, Shapes={'flat', 'deep', 'two'} if c.thorough else {'deep', 'two'}, MaxOps=4 if c.thorough else 3), inv[0], inv[1] + ['Mirrored', 'LeftAlone'], expect=['reboot/done', 'reboot/refused'])
    c.replay(b, [x for x in t if x['op']['op'] == 'reboot' and not x['pre']['trash']], limit=40000 if c.thorough else 1500, tag='again')
    c.record(b, 6000 if c.thorough else 600, 14, dict(base, MaxOps=99, Shapes=set(), Fails={False, True}))
