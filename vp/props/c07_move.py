import hashlib, os, pathlib
import lib, mem
import augpathlib as aug
from augpathlib import PathMeta
from augpathlib import exceptions as exc
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
SETS = [('a', 'b'), ('x y', 'x y.txt'), ('n', 'm.tar.gz'), ('.h', 'h'), ('a', 'ab')]


class Move(lib.Binding):
    module = 'Move'

    def start(self, st, rng, root):
        self.rng = rng
        self.root = os.path.realpath(str(root)) + '/r'
        os.mkdir(self.root)
        self.names = dict(zip('12', rng.choice(SETS)))
        self.prefix = rng.choice(['f', 'N:x:'])
        self.w = w = mem.World('r')
        self.Local, self.Cache, self.Remote = mem.make(w)
        w.o.update({self.id(e['id']): self.object(e['id'], e['k'], 'r0', 'x') for e in st['t'] if e['id']})
        self.Remote.init(w.root)
        self.Remote.dropAnchor(self.Local(os.path.dirname(self.root)))
        self.internal = self.Cache(self.root).local_data_dir.name
        os.chdir(os.path.dirname(self.root))
        for e in sorted(st['t'], key=lambda e: e['p']):
            p = self.path(e['p'])
            if e['k'] == 'dir':
                os.mkdir(p)
            elif e['k'] == 'file':
                with open(p, 'wb') as f:
                    f.write(b'content %d' % e['c'])
        self.there(st['t'])
        for e in st['t']:
            if e['id']:
                self.Cache(self.path(e['p']), meta=self.meta(e['id'], e['v'], os.path.basename(self.path(e['p']))))

    def object(self, i, k, parent, name):
        d = dict(kind='d' if k == 'dir' else 'f', parent=parent, name=name, data=b'')
        if k != 'dir':
            d['meta'] = dict(self.facts(i))
        return d

    def facts(self, i):
        return dict(size=100 + i, checksum=hashlib.sha256(b'%d' % i).digest(), file_id=i, created=mem.when(2), updated=mem.when(3))

    def meta(self, i, v, name):
        kind = self.w.o[self.id(i)]['kind']
        return PathMeta(id=self.id(i), name=name, user_id=f'u{v}' if v else None, **(self.facts(i) if kind == 'f' else {}))

    def id(self, i):
        return f'{self.prefix}{i}'

    def rel(self, p):
        return '/'.join(self.names[c] for c in str(p))

    def path(self, p):
        return os.path.join(self.root, self.rel(p))

    def there(self, t, move=None):
        """the remote has everything where it is here, but what is moved is at its target, and what is missing there exists"""
        w = self.w
        at = {e['p']: self.id(e['id']) if e['id'] else f'u{e["p"]}' for e in t}
        if move:
            src, dst = move
            used = {e['id'] for e in t}
            q = dst // 10
            while q:
                if q not in at or w.o.get(at[q], {}).get('kind') == 'f':
                    n = min(x for x in (100 * i + q for i in range(10, 21)) if x not in used)
                    at[q] = self.id(n) if q not in at else f'v{q}'
                    w.o[at[q]] = dict(kind='d', parent='r0', name='x')
                q //= 10
            at[dst] = at[src]
        for p, i in at.items():
            if i not in w.o:
                w.o[i] = dict(kind='d', parent='r0', name='x')
            if move and i == at.get(move[0]) and p != move[1]:
                continue
            w.o[i].update(name=self.names[str(p)[-1]], parent=at[p // 10] if p // 10 else 'r0')

    def spell(self, p):
        k = self.rng.random()
        a = self.path(p)
        if k < .6:
            return a
        if k < .75:
            return os.path.relpath(a)
        if k < .87:
            # through a link from elsewhere to the folder the project is in
            link = self.root + '-alias'
            if not os.path.islink(link):
                os.symlink(self.root, link)
            return os.path.join(link, os.path.relpath(a, self.root))
        d, n = os.path.split(a)
        sub = [x for x in (os.listdir(d) if os.path.isdir(d) else []) if os.path.isdir(os.path.join(d, x))]
        return os.path.join(d, self.rng.choice(sub), '..', n) if sub else a

    def do(self, op):
        t = self.project()['t']
        src, dst = op['src'], op['dst']
        self.there(t, (src, dst))
        e = {x['p']: x for x in t}[src]
        d = {x['p']: x for x in t}.get(dst)
        cache = self.Local(self.path(src)).cache if op['way'] == 'remote' or self.rng.random() < .5 else self.Local(self.spell(src)).cache
        rename, armed = os.rename, [op['fail']]

        def place(p):
            d, n = os.path.split(str(p))
            return os.path.join(os.path.realpath(d), n)

        def fail(a, b, **kw):
            if armed[0] and place(b) == self.path(dst) and place(a) == self.path(src):
                armed[0] = False
                raise OSError(5, 'injected')
            return rename(a, b, **kw)
        os.rename = fail
        try:
            if op['way'] == 'remote':
                r = cache.move(remote=self.Remote(self.id(e['id'])))
            else:
                target = self.Local(self.spell(dst))
                if d and d['id'] and self.rng.random() < .5:
                    target = self.Cache(self.path(dst))
                r = cache.move(target=target, meta=cache.meta)
        except (Exception, KeyboardInterrupt) as x:
            self.why = x
            return 'refused'
        finally:
            os.rename = rename
        if os.path.realpath(os.path.dirname(str(r))) + '/' + os.path.basename(str(r)) != self.path(dst):
            return f'{r} is not the target'
        return 'same' if src == dst else 'moved'

    def project(self):
        out = []
        inv = {v: k for k, v in self.names.items()}
        for base, ds, fs in os.walk(self.root):
            if self.internal in ds:
                ds.remove(self.internal)
            for n in ds + fs:
                full = os.path.join(base, n)
                rel = os.path.relpath(full, self.root).split('/')
                if any(x not in inv for x in rel):
                    raise lib.Mismatch(f'left behind: {rel}')
                e = dict(p=int(''.join(inv[x] for x in rel)), k='link' if os.path.islink(full) else 'dir' if os.path.isdir(full) else 'file', id=0, c=0, v=0)
                c = self.Local(full).cache
                m = c.meta if c is not None else None
                if m is not None:
                    if not m.id.startswith(self.prefix):
                        raise lib.Mismatch(f'{rel} has the id {m.id}')
                    e['id'] = int(m.id[len(self.prefix):])
                    e['v'] = int(m.user_id[1:]) if m.user_id else 0
                    if e['k'] != 'dir':
                        want = self.facts(e['id'])
                        got = {f: getattr(m, f) for f in want}
                        if got != want:
                            raise lib.Mismatch(f'{rel}: {got} instead of {want}')
                if e['k'] == 'file':
                    with open(full, 'rb') as f:
                        data = f.read()
                    e['c'] = int(data[8:]) if data[:8] == b'content ' else 99
                out.append(e)
        return dict(t=sorted(out, key=lambda e: e['p']))

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        t, ids = [], list(range(1, 6))
        for p in (1, 2, 11, 12, 21, 22, 111, 112, 121, 221, 222):
            up = {e['p']: e for e in t}.get(p // 10)
            if p > 9 and (up is None or up['k'] != 'dir') or rng.random() < .4 or not ids:
                continue
            k = rng.choice(['dir', 'dir', 'file', 'link'] if p < 100 else ['file', 'link'])
            i = ids.pop(rng.randrange(len(ids))) if k == 'link' or rng.random() < .85 else 0
            if rng.random() < .1 and k != 'dir':
                same = [e for e in t if e['k'] != 'dir' and e['id']]
                i = same[0]['id'] if same else i
            t.append(dict(p=p, k=k, id=i, c=p if k == 'file' else 0, v=rng.randint(0, 2) if i else 0))
        return dict(t=t)

    def random_op(self, rng, st):
        have = {e['p']: e for e in st['t']}
        paths = [1, 2, 11, 12, 21, 22, 111, 112, 121, 122, 211, 212, 221, 222]
        ops = []
        for src, e in have.items():
            if not e['id']:
                continue
            deep = max(len(str(p)) for p in have if str(p).startswith(str(src))) - len(str(src))
            for dst in paths:
                a, b = str(src), str(dst)
                if (a != b and (a.startswith(b) or b.startswith(a))) or len(b) + deep > 3:
                    continue
                d = have.get(dst)
                if d and d['id'] == e['id'] and (d['k'] == 'dir') != (e['k'] == 'dir'):
                    continue
                if {x['id'] for p, x in have.items() if str(p).startswith(a)} & {x['id'] for p, x in have.items() if b.startswith(str(p)) and p != dst} - {0}:
                    continue
                ops.append((src, dst))
        if not ops:
            return None
        src, dst = rng.choice(ops)
        return dict(op='move', src=src, dst=dst, way=rng.choice(['remote', 'target']), fail=rng.random() < .15)


def check(c):
    b = Move()
    inv = ['IsTree'], ['NothingLost', 'Carries', 'Refused']
    P = {1, 2, 11, 12, 21, 22, 111, 112, 121, 122, 211, 212, 221, 222}
    base = dict(Paths=P, Sources={1, 11, 111} if c.thorough else {1, 11}, Kinds={'link', 'file', 'dir'}, Others={0, 1, 2}, OtherKinds={'link', 'file', 'dir'},
                OpNames={'move'}, Fails={False, True} if c.thorough else {False}, Vs={0, 1} if c.thorough else {1}, MaxOps=1)
    t = c.model('Move', base, *inv, expect=['move/moved', 'move/refused', 'move/same'])
    c.replay(b, t, limit=40000 if c.thorough else 3000, tag='one move')
    t = c.model('Move', dict(base, Sources={11}, Others={1, 2}, Vs={0, 2}, Fails={True}, Paths={1, 2, 11, 12, 21, 22, 212}), *inv)
    c.replay(b, t, limit=20000 if c.thorough else 800, tag='failing')
    t = c.model('Move', dict(base, Paths={1, 2, 11, 12, 21, 121}, Sources={1}, Others={2}, Fails={False}, MaxOps=3), *inv)
    c.walks(b, t, 4000 if c.thorough else 500, 8, tag='histories')
    c.record(b, 5000 if c.thorough else 600, 8, dict(base, MaxOps=99, Sources=set(), Fails={False, True}))
