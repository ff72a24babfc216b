import hashlib, os, stat, time
from datetime import datetime, timezone
import lib, mem
import augpathlib as aug
aug.utils.log.setLevel('CRITICAL')

MODES = 0o644, 0o600
TIMES = {1: 1500000000.25, 2: 1600000000.5}
OWNER = 0, 1234
_time = time.time
offset = 0
# time passes when the specification says so
time.time = lambda: _time() + offset
FIELDS = dict(id=lambda p, st: p.sysid + ':' + p.as_posix(), name=lambda p, st: p.name, file_id=lambda p, st: st.st_ino,
              user_id=lambda p, st: st.st_uid, gid=lambda p, st: st.st_gid, mode=lambda p, st: oct(st.st_mode),
              updated=lambda p, st: datetime.fromtimestamp(st.st_ctime, tz=timezone.utc),
              created=lambda p, st: datetime.fromtimestamp(st.st_mtime, tz=timezone.utc),
              size=lambda p, st: st.st_size, parent_id=lambda p, st: p.parent.sysid + ':' + p.parent.as_posix())


def text(x):
    if isinstance(x, (list, tuple)):
        return '<<' + ', '.join(text(y) for y in x) + '>>'
    return str(x)


def parts(n, c):
    return [c] * (n // c) + ([n % c] if n % c else [])


class Fresh(lib.Binding):
    module = 'Fresh'

    def start(self, st, rng, root):
        global offset
        offset = 0
        self.rng = rng
        self.root = os.path.realpath(str(root))
        self.unit = rng.choice([1, 3, 100, 5000])
        self.k, self.init = st['k'], st['init']
        self.trail = []
        self.alg = 'blake2b'
        os.chdir(self.root)
        if self.k == 'cached':
            os.mkdir('r')
            w = mem.World('r')
            Local, Cache, Remote = mem.make(w)
            Remote.init(w.root)
            Remote.dropAnchor(Local(self.root))
            self.name = self.root + '/r/f'
            self.alg = 'sha256'
            cls = Local
        else:
            cls = aug.LocalPath
            self.name = 'f' if self.k == 'relative' else self.root + '/f'
        self.other = self.root + '/other'
        self.setup(self.init)
        self.objs = {a: cls(self.name) for a in 'ab'}
        for op in st['trail']:
            self.do(op)

    def setup(self, i):
        if i == 'file':
            self.make(self.name)
        elif i == 'link':
            self.make(self.other)
            os.symlink(self.other, self.name)
        elif i == 'dangling':
            os.symlink(self.root + '/nowhere', self.name)
        elif i == 'dir':
            os.mkdir(self.name)

    def make(self, name, n=1, v=1):
        with open(name, 'wb') as f:
            f.write(self.content(n, v))
        os.chmod(name, MODES[0])
        self.settime(name, 1)

    def settime(self, name, t):
        os.utime(name, (_time(), TIMES[t]))

    def content(self, n, v):
        return b''.join(bytes([v * 16 + i % 16]) * self.unit for i in range(n))

    def what(self):
        """what is at the path"""
        no = dict(n=0, v=0, m=0, t=0, o=0)
        try:
            l = os.lstat(self.name)
        except FileNotFoundError:
            return dict(no, k='absent')
        try:
            st = os.stat(self.name)
        except FileNotFoundError:
            return dict(no, k='dangling')
        if stat.S_ISDIR(st.st_mode):
            return dict(no, k='dir')
        with open(self.name, 'rb') as f:
            data = f.read()
        n, v = self.which(data)
        t = {x: k for k, x in TIMES.items()}.get(st.st_mtime, 'other')
        m = {x: i for i, x in enumerate(MODES)}.get(stat.S_IMODE(st.st_mode), 'other')
        return dict(k='link' if stat.S_ISLNK(l.st_mode) else 'file', n=n, v=v, m=m, t=t, o=OWNER.index(st.st_uid))

    def which(self, data):
        n = len(data) // self.unit
        for v in range(1, 9):
            if self.content(n, v) == data:
                return n, v
        return -1, -1

    def ask(self, obj, form):
        p = self.objs[obj]
        kind = self.what()['k']
        if form == 'size':
            return text(p.size // self.unit if not p.size % self.unit else 'other')
        if form == 'created':
            c = p.created
            return text({x: k for k, x in TIMES.items()}.get(c.timestamp() if c else None, c))
        m = p.meta if form == 'meta' else p.meta_no_checksum if form == 'nosum' else \
            p._meta_maker(chunksize=int(form[3:]) * self.unit)
        if kind in ('absent', 'dangling'):
            d = {k: v for k, v in m.items() if v is not None and v != ()}
            if d.pop('id', None) != p.sysid + ':' + p.as_posix() or d.pop('name', None) != p.name:
                return 'another identity'
            return kind if not d else f'{kind} with {sorted(d)}'
        st = os.stat(self.name)
        for f, g in FIELDS.items():
            if getattr(m, f) != g(p, st):
                return f'{f} is not that of the {kind}'
        if kind == 'dir':
            return kind if m.checksum is None and m.etag is None else 'a directory with a digest'
        sums = {hashlib.new(self.alg, self.content(n, v)).digest(): (n, v) for n in range(9) for v in range(8, 0, -1)}
        s = () if m.checksum is None else sums.get(m.checksum, 'other')
        if m.checksum is not None and m.checksum_cypher != self.alg:
            return f'checksum said to be {m.checksum_cypher}'
        tag = ()
        if m.etag is not None:
            with open(self.name, 'rb') as f:
                data = f.read()
            n = len(data) // self.unit
            c = (m.chunksize or 0) // self.unit
            if not c:
                tag = 'a tag without part size'
            else:
                i, ds = 0, []
                for k in parts(n, c):
                    ds.append(hashlib.md5(data[i:i + k * self.unit]).digest())
                    i += k * self.unit
                tag = (c, parts(n, c)) if m.etag == (hashlib.md5(b''.join(ds)).digest(), len(ds)) else 'other tag'
        n = m.size // self.unit
        mode = [i for i, x in enumerate(MODES) if oct(stat.S_IFREG | x) == m.mode]
        t = [k for k, x in TIMES.items() if m.created == datetime.fromtimestamp(x, tz=timezone.utc)]
        o = [i for i, x in enumerate(OWNER) if m.user_id == x]
        return text((n, mode[0] if mode else m.mode, t[0] if t else m.created, o[0] if o else m.user_id, s, tag))

    def do(self, op):
        global offset
        self.trail.append(op)
        o = op['op']
        if o == 'ask':
            return self.ask(op['obj'], op['form'])
        if o == 'write':
            st = os.stat(self.name)
            with open(self.name, 'r+b' if self.rng.random() < .5 else 'wb') as f:
                f.write(self.content(op['n'], op['v']))
                f.truncate()
            if op['keep']:
                os.utime(self.name, ns=(st.st_atime_ns, st.st_mtime_ns))
            else:
                self.settime(self.name, 1)
        elif o == 'replace':
            st = os.stat(self.name)
            tmp = self.root + '/tmp'
            with open(tmp, 'wb') as f:
                f.write(self.content(op['n'], op['v']))
            os.chmod(tmp, stat.S_IMODE(st.st_mode))
            os.chown(tmp, st.st_uid, -1)
            os.utime(tmp, ns=(st.st_atime_ns, st.st_mtime_ns))
            os.rename(tmp, self.name)
        elif o == 'chmod':
            os.chmod(self.name, MODES[1 - MODES.index(stat.S_IMODE(os.stat(self.name).st_mode))])
        elif o == 'chown':
            os.chown(self.name, OWNER[1 - OWNER.index(os.stat(self.name).st_uid)], -1)
        elif o == 'touch':
            self.settime(self.name, 1 if os.stat(self.name).st_mtime == TIMES[2] else 2)
        elif o == 'unlink':
            os.unlink(self.name)
        elif o == 'create':
            self.make(self.name, op['n'], op['v'])
        elif o == 'wait':
            offset += 100
        else:
            raise lib.MachineryError(o)
        return 'done'

    def project(self):
        return dict(k=self.k, init=self.init, p=self.what(), trail=list(self.trail))

    def is_init(self, pre):
        return not pre['trail']

    def random_init(self, rng):
        i = rng.choice(['file', 'file', 'file', 'link', 'absent', 'dir', 'dangling'])
        p = dict(k=i, n=1, v=1, m=0, t=1, o=0) if i in ('file', 'link') else dict(k=i, n=0, v=0, m=0, t=0, o=0)
        return dict(k=rng.choice(['plain', 'cached', 'relative']), init=i, p=p, trail=[])

    def random_op(self, rng, st):
        no = dict(op='', obj='', form='', n=0, v=0, keep=False)
        p = st['p']
        f = p['k'] in ('file', 'link')
        if rng.random() < .5:
            return dict(no, op='ask', obj=rng.choice('aab'), form=rng.choice(
                ['meta', 'meta', 'nosum', 'tag1', 'tag2'] + (['size', 'created'] if f else [])))
        if st['trail'] and st['trail'][-1]['op'] != 'wait' and rng.random() < .3:
            return dict(no, op='wait')
        n = rng.randint(0, 5)
        v = rng.randint(1, 5) if n else 1
        if f:
            o = rng.choice(['write', 'write', 'replace', 'chmod', 'touch', 'unlink'] + (['chown'] if CHOWN else []))
            if o in ('write', 'replace'):
                if rng.random() < .5:
                    n = p['n']
                    v = v if n else 1
                return dict(no, op=o, n=n, v=v, keep=o == 'write' and rng.random() < .5)
            return dict(no, op=o)
        if p['k'] == 'absent':
            return dict(no, op='create', n=n, v=v)
        return dict(no, op='unlink') if p['k'] == 'dangling' else dict(no, op='ask', obj='a', form='meta')


def may_chown():
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        try:
            os.chown(d, OWNER[1], -1)
            os.chown(d, OWNER[0], -1)
        except OSError:
            return False
    return True


CHOWN = may_chown()


def check(c):
    b = Fresh()
    inv = ([], ['AskingKeeps', 'HistoryFree', 'AbsentOnlyIdentity'])
    changes = {'write', 'replace', 'chmod', 'touch', 'unlink', 'create', 'wait'} | ({'chown'} if CHOWN else set())
    base = dict(Inits={'file', 'absent'}, Objs={'a'}, Forms={'meta', 'nosum', 'tag2'}, Changes=changes, Lens={1, 2}, Variants={1, 2},
                MaxOps=3, KeepTrail=True)
    t = c.model('Fresh', base, *inv, expect=['ask/absent', 'ask/<<1, 0, 1, 0, <<1, 1>>, <<>>>>'])
    c.replay(b, t, limit=None if c.thorough else 16000, tag='histories')
    deep = dict(base, Inits={'file'}, Forms={'meta', 'nosum'}, Changes={'write', 'chmod', 'touch', 'wait'}, Lens={1}, Variants={1, 2},
                MaxOps=5 if c.thorough else 4)
    t = c.model('Fresh', deep, *inv)
    c.replay(b, t, limit=100000 if c.thorough else 9000, tag='longer histories')
    kinds = dict(base, Inits={'file', 'link', 'dir', 'dangling', 'absent'}, Objs={'a', 'b'},
                 Forms={'meta', 'nosum', 'tag1', 'tag2', 'size', 'created'}, Changes={'wait', 'unlink', 'create', 'write'}, MaxOps=2)
    t = c.model('Fresh', kinds, *inv, expect=['ask/dir', 'ask/dangling'])
    c.replay(b, t, limit=None if c.thorough else 6000, tag='kinds')
    c.record(b, 6000 if c.thorough else 1200, 14, dict(kinds, Inits=set(), Lens={0, 1, 2, 3, 4, 5}, Variants={1, 2, 3, 4, 5}, MaxOps=99))
    if not CHOWN:
        c.assumptions.append('the owner could not be changed in this environment')
