import os, pathlib, warnings
import lib
warnings.simplefilter('ignore')
import augpathlib as aug
from augpathlib import exceptions as exc
from augpathlib.caches import ReflectiveCache
aug.utils.log.setLevel('CRITICAL')

PATHS = ['a', 'd', 'd/f', 'd/e', 'd/e/g']
CLASSES = [aug.EatPath, aug.LocalPath]
SPARSE = aug.EatPath('/')._sparse_key
SPARSE = SPARSE.decode() if isinstance(SPARSE, bytes) else SPARSE


class Xattr(lib.Binding):
    module = 'Xattr'
    spaces = False

    def start(self, st, rng, root):
        self.rng = rng
        # the world is the cwd so that relative spellings can be used
        self.base = str(root)
        self.w = os.path.join(self.base, 'world')
        os.makedirs(self.w + '/d/e')
        self.content = {}
        for p in ('a', 'd/f', 'd/e/g'):
            if st['here'][p]:
                self.content[p] = rng.choice([b'', b'content', os.urandom(5000)])
                open(f'{self.w}/{p}', 'wb').write(self.content[p])
        os.symlink(self.w + '/nowhere', self.w + '/bl')
        self.cls = rng.choice(CLASSES)
        self.cwd = rng.choice([self.w, self.w + '/d', self.w + '/d/e'])
        os.chdir(self.cwd)
        self.keys = dict(zip(('k1', 'k2'), rng.choice([('k1', 'k2'), ('k1', 'k1.x'), ('bf.id', 'bf.id2'), ('ключ', 'a b'),
                                                       ('K', 'k'), ('sparse', 'augpathlib')])))
        self.keys['mark'] = SPARSE
        self.values = {'v': rng.choice([b'v', b'0', b'\x00\xff', b'v' * 900, 'é'.encode()]),
                       'w': rng.choice([b'w', b'v2', b'11', b' w ']), 'e': b'', '1': b'1'}
        # names are in a namespace, and those of another are not to be seen or touched
        self.space = rng.choice(['user', 'user.ns', 'user.ns.more']) if self.spaces else 'user'
        if self.space != 'user':
            for p in self.content:
                for k in ('k1', 'k2'):
                    os.setxattr(f'{self.w}/{p}', 'user.' + self.keys[k], b'foreign')
        self.ns = {} if self.space == 'user' and rng.random() < .7 else dict(namespace=self.space.encode())
        self.handles = {}
        self.sticky = rng.random() < .5
        for p, x in st['x'].items():
            for k, v in x.items():
                if v != 'none':
                    os.setxattr(f'{self.w}/{p}', f'{self.space}.{self.keys[k]}', self.values[v])

    def handle(self, p):
        if self.sticky and p in self.handles:
            return self.handles[p]
        full = f'{self.w}/{p}'
        name = self.rng.choice([full, full, os.path.relpath(full, self.cwd)])
        h = self.handles[p] = self.cls(name)
        return h

    def key_(self, k):
        k = self.keys[k]
        return k.encode() if self.rng.random() < .5 else k

    def back(self, b):
        for n, v in self.values.items():
            if v == b:
                return n
        return repr(b)[:40]

    def do(self, op):
        p = self.handle(op['p'])
        o, k, v = op['op'], op['k'], op['v']
        if o == 'remove':
            os.unlink(f"{self.w}/{op['p']}")
            self.content.pop(op['p'])
            return 'ok'
        text = self.rng.choice(['text', 1, None, bytearray(b'x'), ['x'], True])
        try:
            if o == 'set':
                p.setxattr(self.key_(k), text if v == 'text' else self.values[v], **self.ns)
                return 'ok'
            if o == 'setmany':
                a = (self.key_('k1'), text if v == 'text' else self.values[v])
                b = (self.key_('k2'), self.values['w'])
                p.setxattrs(dict(self.rng.choice([(a, b), (b, a)])), **self.ns)
                return 'ok'
            if o == 'get':
                r = p.getxattr(self.key_(k), **self.ns)
                return '=' + self.back(r)
            if o == 'del':
                if v == 'fail':
                    p.delxattr(self.key_(k), fail=True, **self.ns)
                else:
                    p.delxattr(self.key_(k), **self.ns)
                return 'ok'
            if o == 'list':
                r = {(a.decode() if isinstance(a, bytes) else a): b for a, b in p.xattrs(**self.ns).items()}
                out = ','.join(f'{n}={self.back(r.pop(self.keys[n])) if self.keys[n] in r else "none"}'
                               for n in ('k1', 'k2', 'mark'))
                return out + (f' and {sorted(r)}' if r else '')
            if o == 'mark':
                p._mark_sparse()
                return 'ok'
            if o == 'clear':
                p._clear_sparse()
                return 'ok'
            if o == 'sparse':
                return 'yes' if p.is_sparse() else 'no'
        except exc.NoStreamError:
            return 'absent'
        except TypeError as e:
            return 'typeerror'
        except OSError:
            return 'oserror'
        except Exception as e:
            return lib.describe(e)

    def project(self):
        x, here = {}, {}
        ours = {f'{self.space}.{v}': k for k, v in self.keys.items()}
        for p in PATHS:
            f = f'{self.w}/{p}'
            here[p] = os.path.lexists(f)
            x[p] = {k: 'none' for k in ('k1', 'k2', 'mark')}
            if here[p]:
                for n in os.listxattr(f):
                    if self.space != 'user' and n in ('user.' + self.keys['k1'], 'user.' + self.keys['k2']):
                        if os.getxattr(f, n) != b'foreign':
                            x[p][n] = 'another space changed'
                    elif n.startswith('user.'):
                        x[p][ours.get(n, n)] = self.back(os.getxattr(f, n))
        # no other path, and no content, may have changed
        for p, b in self.content.items():
            if open(f'{self.w}/{p}', 'rb').read() != b:
                x[p]['k1'] = 'content changed'
        if os.listxattr(self.w) or sorted(os.listdir(self.w)) != sorted(['bl', 'd'] + ['a'] * here['a']):
            x['a']['k1'] = 'world changed'
        return dict(x=x, here=here)

    def is_init(self, pre):
        return all(pre['here'].values())

    def random_init(self, rng):
        x = {p: {k: 'none' for k in ('k1', 'k2', 'mark')} for p in PATHS}
        for p in PATHS:
            if rng.random() < .15:
                x[p]['mark'] = '1'
        return dict(x=x, here={p: True for p in PATHS})

    def random_op(self, rng, st):
        p = rng.choice(PATHS + ['bl', 'm'])
        o = rng.choice(['set', 'set', 'setmany', 'get', 'get', 'del', 'list', 'sparse', 'mark', 'clear', 'remove'])
        if o == 'remove' and (p not in ('a', 'd/f', 'd/e/g') or not st['here'][p] or rng.random() < .5):
            o = 'list'
        x = dict(op=o, p=p, k='', v='')
        if o in ('set', 'setmany', 'get', 'del'):
            x['k'] = 'k1' if o == 'setmany' else rng.choice(['k1', 'k2'])
        if o in ('set', 'setmany'):
            x['v'] = rng.choice(['v', 'w', 'e', 'text'])
        if o == 'del':
            x['v'] = rng.choice(['', 'fail'])
        return x


class Marker(Xattr):
    """caches that cannot rely on extended attributes mark a folder with a file in it"""
    def start(self, st, rng, root):
        super().start(dict(st, x={p: dict(k1='none', k2='none', mark='none') for p in PATHS}), rng, root)
        self.cls = ReflectiveCache
        for p, x in st['x'].items():
            if x['mark'] == '1':
                ReflectiveCache(f'{self.w}/{p}')._mark_sparse()

    def project(self):
        d = super().project()
        for p in ('d', 'd/e'):
            kids = set(os.listdir(f'{self.w}/{p}')) - {'f', 'e', 'g'}
            if kids:
                d['x'][p]['mark'] = '1' if len(kids) == 1 else str(kids)
        return d


def check(c):
    b, near = Xattr(), Xattr()
    near.spaces = True
    props = (['TypeOK', 'GoneHasNothing'], ['OnlyNamed', 'SetIsReadable', 'DeletedIsGone', 'RefusedChangesNothing', 'MarkedSubtree'])
    kv = dict(Live={'a', 'd'}, MarkOn=set(), Absent={'bl', 'm'}, Keys={'k1', 'k2'}, Values={'v', 'w', 'e'},
              StartMarks={'d/f'}, OpNames={'set', 'setmany', 'get', 'del', 'list', 'remove'})
    t = c.model('Xattr', kv, *props, expect=['set/ok', 'set/typeerror', 'set/oserror', 'setmany/ok', 'get/=', 'get/absent',
                                             'get/oserror', 'del/ok', 'del/oserror', 'list/k1=', 'list/oserror'])
    c.replay(near, t, limit=None if c.thorough else 6000, tag='store')
    c.walks(near, t, 1000 if c.thorough else 200, 12, tag='store')
    sp = dict(Live=set(PATHS), MarkOn=set(PATHS), Absent={'bl', 'm'}, Keys={'mark'}, Values={'v', '1'},
              StartMarks={'a', 'd', 'd/f', 'd/e', 'd/e/g'}, OpNames={'mark', 'clear', 'sparse', 'list'})
    t = c.model('Xattr', sp, *props, expect=['sparse/yes', 'sparse/no', 'mark/ok', 'clear/ok', 'clear/oserror', 'list/'])
    c.replay(b, t, tag='sparse')
    c.walks(b, t, 300, 10, tag='sparse')
    # the default way of marking, a file in the folder, which only folders can have
    mk = dict(sp, MarkOn={'d', 'd/e'}, StartMarks={'d', 'd/e'}, Absent=set(), OpNames={'mark', 'clear', 'sparse'})
    t = c.model('Xattr', mk, *props, expect=['sparse/yes', 'sparse/no', 'mark/ok', 'clear/ok'])
    c.replay(Marker(), t, reps=5, tag='marker file')
    c.walks(Marker(), t, 100, 10, tag='marker file')
    al = dict(kv, MarkOn=set(PATHS), Live=set(PATHS), StartMarks=set(PATHS), OpNames=kv['OpNames'] | sp['OpNames'])
    c.record(b, 2000 if c.thorough else 400, 25, al)
    c.assumptions += ['attributes in the user namespace of a file system that supports them']
