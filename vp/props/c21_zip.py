import os, contextlib, shutil, stat, warnings, zipfile
import lib
import augpathlib as aug
warnings.simplefilter('ignore')
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
KNOWN = ['d', 'd/f', 'd/g', 'd/g/i', 'd/g/i/h', 'de', 'top']
FILES = ['d/f', 'd/g/i/h', 'top']
MEMBERS = ['d/', 'de/'] + FILES
SIZES = {0: 0, 1: 9, 2: 4096, 3: 10000}


def content(p, n, v):
    """ the v-th data of the member n at place p: nothing else has it """
    head = f'{p}:{n}:{v}|'.encode()
    # one is a byte more than it is read at a time
    size = 0 if v == 0 else 8193 if v == 2 else SIZES[v] + 50 + len(head)
    return (head + bytes((i * 7 + v) % 251 for i in range(size)))[:size]


def decode(p, n, data):
    for v in SIZES:
        for q in (p, 3 - p):
            for m in [n] + FILES:
                if data == content(q, m, v):
                    return f'{q if v else p}:{m if v else n}:{v}'
    return 'not an archive' if data == b'text\n' else f'unknown data of {len(data)}'


@contextlib.contextmanager
def within(d):
    here = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(here)


class Zip(lib.Binding):
    module = 'Zip'

    def start(self, st, rng, root):
        self.rng = rng
        self.base = os.path.realpath(root)
        self.name = {1: rng.choice(['a.zip', 'a.zip', 'noext', 'a b.zip', 'sub/x.zip', 'a.ZIP', 'é.zip']),
                     2: rng.choice(['b.zip', 'other.zip', 'b.zip.zip', 'bare'])}
        # the same name in two folders, reached by the same relative path
        if rng.random() < .4:
            self.name = {1: 'p1/a.zip', 2: 'p2/a.zip'}
        self.inside = {}
        self.state = {}
        for p in (1, 2):
            os.makedirs(os.path.dirname(self.at(p)), exist_ok=True)
            self.put(p, st['z'][p - 1])

    def at(self, p):
        return f'{self.base}/{self.name[p]}'

    def put(self, p, x):
        w = self.at(p)
        if os.path.isdir(w):
            shutil.rmtree(w)
        elif os.path.lexists(w) and (x['k'] == 'none' or self.rng.random() < .5):
            os.unlink(w)
        if x['k'] == 'file':
            if os.path.lexists(w):
                os.unlink(w)
            with open(w, 'wb') as f:
                f.write(b'text\n')
        elif x['k'] == 'dir':
            if os.path.lexists(w):
                os.unlink(w)
            os.mkdir(w)
            for n in MEMBERS:
                if x['m'][n] >= 0:
                    if n.endswith('/'):
                        os.mkdir(f'{w}/{n}')
                    else:
                        os.makedirs(os.path.dirname(f'{w}/{n}'), exist_ok=True)
                        with open(f'{w}/{n}', 'wb') as f:
                            f.write(content(p, n, x['m'][n]))
        elif x['k'] == 'zip':
            names = [n for n in MEMBERS if x['m'][n] >= 0]
            self.rng.shuffle(names)
            comp = self.rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                # new file beside it, then in its place, or written over it
                tmp = w + '.new' if self.rng.random() < .5 else w
                if tmp == w and os.path.lexists(w):
                    os.unlink(w)
                with zipfile.ZipFile(tmp, 'w', comp) as z:
                    z.comment = self.rng.choice([b'', b'a comment'])
                    for n in names:
                        if n in FILES and self.rng.random() < .15:
                            # added before with other data: the last one counts
                            z.writestr(n, content(p, n, (x['m'][n] + 1) % 4))
                        z.writestr(n, b'' if n.endswith('/') else content(p, n, x['m'][n]))
                if tmp != w:
                    os.rename(tmp, w)
        self.state[p] = x
        self.memo = {}
        if x['k'] == 'zip':
            # the clock of the file system is coarse
            self.tick = getattr(self, 'tick', 1600000000000000000) + 1000
            os.utime(w, ns=(self.tick, self.tick))

    def path(self, p, n):
        w = self.at(p)
        how = self.rng.choice(['abs', 'abs', 'rel', 'near', 'div', 'link'])
        cwd = '.'
        if how == 'link' and os.path.exists(w):
            l = os.path.join(os.path.dirname(w), f'l{p}')
            if not os.path.lexists(l):
                os.symlink(os.path.basename(w), l)
            w = l
        elif how == 'rel':
            cwd, w = self.base, self.name[p]
        elif how == 'near':
            cwd, w = os.path.split(w)
        key = (cwd, w, n)
        if key not in self.memo or self.rng.random() < .4:
            if how == 'div':
                z = aug.ZipPath(w)
                for c in n.split('/') if n else []:
                    z = z / c
            else:
                z = aug.ZipPath(f'{w}/{n}' if n else w)
            self.memo[key] = z
        return cwd, w, self.memo[key]

    def listing(self, got, top, n, api):
        out = []
        for g in got:
            g = str(g)
            if api == 'out':
                if not g.startswith(top + '/'):
                    return f'leads elsewhere'
                g = g[len(top) + 1:]
            out.append(g)
        known = [k for k in KNOWN if k in out]
        other = sorted(o for o in out if o not in KNOWN)
        twice = sorted(o for o in set(out) if out.count(o) > 1)
        return ''.join(x + ' ' for x in known + [f'and {o}' for o in other] + [f'twice {o}' for o in twice])

    def do(self, op):
        if op['op'] == 'put':
            self.put(op['p'], op['x'])
            return 'ok'
        p, n, q = op['p'], op['n'], op['q']
        cwd, top, z = self.path(p, n)
        with within(cwd):
            if op['api'] == 'in':
                z = z.asInternal() if self.rng.random() < .5 else z.zip_relative_path
                if z is None:
                    return 'none'
            if q == 'exists':
                return {True: 'yes', False: 'no'}[z.exists()]
            elif q == 'isdir':
                return {True: 'yes', False: 'no'}[z.is_dir()]
            elif q == 'isfile':
                return {True: 'yes', False: 'no'}[z.is_file()]
            elif q in ('kids', 'all'):
                got = list(z.children if q == 'kids' else z.rchildren)
                # what is listed can be asked in turn
                if not all(g.exists() for g in got):
                    return 'listed but not there'
                return self.listing(got, top, n, op['api'])
            elif q == 'data':
                try:
                    if op['api'] == 'in' and self.rng.random() < .6:
                        d = b''.join(z.data)
                    elif z.zip_path is not None if op['api'] == 'out' else True:
                        with z.open() as f:
                            d = f.read()
                    else:
                        with z.open('rb') as f:
                            d = f.read()
                except Exception:
                    return 'refused'
                return decode(p, n, d)

    def project(self):
        return dict(z=[self.read(p) for p in (1, 2)])

    def read(self, p):
        """ what is at the place, by other means """
        w = self.at(p)
        m = {n: -1 for n in MEMBERS}
        if not os.path.lexists(w):
            return dict(k='none', m=m)
        if os.path.isdir(w):
            for n in MEMBERS:
                if os.path.lexists(f'{w}/{n}'):
                    m[n] = 0 if n.endswith('/') else self.value(p, n, open(f'{w}/{n}', 'rb').read())
            return dict(k='dir', m=m)
        if not zipfile.is_zipfile(w):
            return dict(k='file', m=m)
        with zipfile.ZipFile(w) as z:
            for n in z.namelist():
                m[n] = 0 if n.endswith('/') else self.value(p, n, z.read(n))
        return dict(k='zip', m=m)

    def value(self, p, n, d):
        for v in SIZES:
            if d == content(p, n, v):
                return v
        return 'changed'

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        return dict(z=[self.random_content(rng), self.random_content(rng)])

    def random_content(self, rng):
        k = rng.choice(['none', 'file', 'zip', 'zip', 'zip', 'dir'])
        m = {n: -1 for n in MEMBERS}
        if k in ('zip', 'dir'):
            for n in MEMBERS:
                if rng.random() < .5:
                    m[n] = 0 if n.endswith('/') else rng.choice([0, 1, 2, 3])
            if k == 'dir' and (m['d/f'] >= 0 or m['d/g/i/h'] >= 0):
                m['d/'] = 0
        return dict(k=k, m=m)

    def random_op(self, rng, st):
        if rng.random() < .12:
            return dict(op='put', p=rng.choice([1, 2]), x=self.random_content(rng))
        api = rng.choice(['in', 'out'])
        return dict(op='ask', p=rng.choice([1, 2]), n=rng.choice(ASKED), api=api,
                    q=rng.choice(['exists', 'isdir', 'kids' if api == 'in' else 'isfile', 'all', 'data']))


ASKED = ['', 'd', 'd/f', 'd/g', 'd/g/i', 'd/g/i/h', 'de', 'top', 'no', 'd/no', 'top/x', 'd/f/x']
INV = ['TypeOK', 'Exactly', 'FolderOrFile', 'KidsAreThere']


def check(c):
    b = Zip()
    t = c.model('Zip', dict(MaxOps=1, Datas={0, 1, 3} if c.thorough else {0, 3}, Places={1}), INV, ['AskingIsFree'],
                expect=['ask/yes', 'ask/no', 'ask/none', 'ask/d d/f', 'ask/refused', 'ask/1:', 'ask/not an archive'])
    c.replay(b, t, limit=None if c.thorough else 6000, tag='layouts')
    t = c.model('Zip', dict(MaxOps=2, Datas={1, 2}, Places={1, 2}), INV, ['AskingIsFree', 'OtherPlace'], expect=['put/ok', 'ask/2:'])
    c.walks(b, t, 2000 if c.thorough else 250, 30)
    c.record(b, 2000 if c.thorough else 300, 40, dict(MaxOps=1000000, Datas={0, 1, 2, 3}, Places={1, 2}))
    c.assumptions += ['member names are relative, without ".." and never both a file and a folder',
                      'an archive is replaced by one of another size, time or inode; a path object is made after that']
