import os, ctypes, pathlib, struct, stat, warnings, tempfile
import lib
warnings.simplefilter('ignore')
import augpathlib as aug
aug.utils.log.setLevel('CRITICAL')
NOBODY = 65534
CLASSES = [aug.AugmentedPath, aug.EatPath, aug.LocalPath]
KINDS = ['file', 'secret', 'dir', 'full', 'link', 'dlink', 'xlink', 'broken', 'none']
FAULTS = ['none', 'mkdir', 'rename1', 'rename2', 'rename3', 'rename4', 'rmdir', 'crash1', 'crash2', 'crash3',
          'crash4', 'lasting1', 'lasting2', 'lasting3', 'lasting4', 'lasting5']
RENAMES = ('rename', 'replace', 'link', 'renames')


def deny_renameat2():
    """make the kernel's atomic exchange unavailable to this process (seccomp); only ever called in a child"""
    libc = ctypes.CDLL(None, use_errno=True)
    insn = [(0x20, 0, 0, 0),             # load the system call number
            (0x15, 0, 1, 316),           # renameat2 ?
            (0x06, 0, 0, 0x00050000 | 38),   # fail with ENOSYS
            (0x06, 0, 0, 0x7fff0000)]        # anything else is allowed
    prog = b''.join(struct.pack('HBBI', *i) for i in insn)
    buf = ctypes.create_string_buffer(prog)

    class Fprog(ctypes.Structure):
        _fields_ = [('len', ctypes.c_ushort), ('filter', ctypes.c_void_p)]
    f = Fprog(len(insn), ctypes.addressof(buf))
    if libc.prctl(38, 1, 0, 0, 0) or libc.prctl(22, 2, ctypes.byref(f), 0, 0):
        def none(self, target):
            raise NotImplementedError('no atomic swap')
        aug.AugmentedPath._swap = none


class Faulty:
    def __init__(self, fault):
        self.kind = fault.rstrip('0123456789')
        self.n = int(fault[len(self.kind):] or 1)
        self.seen = 0

    def wrap(self, name, f):
        groups = dict(rename=RENAMES, mkdir=('mkdir',), rmdir=('rmdir',), crash=RENAMES + ('mkdir', 'rmdir', 'unlink'),
                      lasting=RENAMES + ('mkdir', 'rmdir', 'unlink'))[self.kind]
        if name not in groups:
            return f

        def g(*a, **k):
            self.seen += 1
            if self.kind == 'crash':
                if self.seen == self.n:
                    self.report('crash')
            elif self.seen == self.n or (self.kind == 'lasting' and self.seen > self.n):
                raise OSError(5, 'planted failure')
            return f(*a, **k)
        return g

    def install(self, report):
        self.report = report
        for name in ('rename', 'replace', 'link', 'mkdir', 'rmdir', 'unlink', 'remove'):
            setattr(os, name, self.wrap('unlink' if name == 'remove' else name, getattr(os, name)))


class Swap(lib.Binding):
    module = 'Swap'

    def make(self, p, k, tag):
        if k == 'none':
            return
        if k in ('file', 'secret'):
            with open(p, 'wb') as f:
                f.write(tag.encode() * self.rng.choice([0, 1, 5000]) + tag.encode())
            os.chmod(p, 0 if k == 'secret' else self.rng.choice([0o600, 0o644, 0o755]))
        elif k in ('dir', 'full'):
            os.mkdir(p)
            if k == 'full':
                open(p + '/inner-' + tag, 'w').write('in ' + tag)
                os.mkdir(p + '/sub-' + tag)
        else:
            dest = dict(link=self.w + '/o/file', dlink=self.w + '/o', xlink=self.x, broken=self.w + '/nowhere')[k]
            os.symlink(dest, p)
            self.links[tag] = dest

    def mark(self, p):
        """what is at the path, independent of where"""
        try:
            st = os.lstat(p)
        except FileNotFoundError:
            return None
        if stat.S_ISLNK(st.st_mode):
            return ('link', os.readlink(p), st.st_ino)
        if stat.S_ISDIR(st.st_mode):
            return ('dir', tuple(sorted(os.listdir(p))), st.st_mode)
        with open(p, 'rb') as f:
            return ('file', f.read(), st.st_mode)

    def start(self, st, rng, root):
        self.rng = rng
        self.st = st
        self.base = os.path.realpath(root)
        shm = '/dev/shm' if os.path.isdir('/dev/shm') and os.stat('/dev/shm').st_dev != os.stat(self.base).st_dev else None
        self.other = None
        if shm and ('xlink' in st['k'].values() or rng.random() < .2):
            self.other = tempfile.mkdtemp(prefix='vp-', dir=shm)
            os.chmod(self.other, 0o755)
            if rng.random() < .5:     # the other way around
                self.base, self.away = self.other, self.base
            else:
                self.away = self.other
        self.w = self.base + '/w'
        self.links = {}
        os.makedirs(self.w + '/o')
        open(self.w + '/o/file', 'w').write('outside')
        self.x = self.away + '/x' if self.other else self.w + '/o/file'
        if self.other:
            open(self.x, 'w').write('x')
        self.sub = rng.random() < .3     # the two paths are in different folders
        os.mkdir(self.w + '/q')
        self.p = {'a': self.w + '/' + rng.choice(['a', 'ä b', '.a'])}
        if st['nest']:
            self.p['b'] = self.p['a'] + '/b'
        else:
            self.p['b'] = (self.w + '/q/' if self.sub else self.w + '/') + 'b'
        for n in 'ab':
            self.make(self.p[st['at'][n]], st['k'][n], n.upper())
        for dp, dn, fn in os.walk(self.base):
            for x in [dp] + [os.path.join(dp, f) for f in fn + dn]:
                os.lchown(x, NOBODY, NOBODY)
        if st['k']['a'] == st['k']['b'] == 'dir':
            os.chmod(self.p[st['at']['b']], 0o700)     # so that they can be told apart
        self.items = {n: self.mark(self.p[st['at'][n]]) for n in 'ab'}
        self.home = st['at']
        self.before = self.entries()

    def stop(self):
        if getattr(self, 'other', None):
            lib.real_rmtree(self.other)

    def entries(self):
        return sorted(os.path.relpath(os.path.join(dp, x), self.w) for dp, dn, fn in os.walk(self.w) for x in dn + fn)

    def do(self, op):
        cls = self.rng.choice(CLASSES)
        names = []
        cwd = self.rng.choice([self.w, self.w + '/o', self.w + '/q'])
        for sp, n in zip(op['sp'], op['who']):
            p = self.p[n]
            names.append(dict(a=p, r=os.path.relpath(p, cwd), d=os.path.dirname(p) + '/../' + os.path.relpath(p, os.path.dirname(os.path.dirname(p))))[sp])
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)

            def report(msg):
                os.write(wfd, msg.encode()[:2000])
                os._exit(0)
            try:
                os.setgroups([])
                os.setresgid(NOBODY, NOBODY, NOBODY)
                os.setresuid(NOBODY, NOBODY, NOBODY)
                os.chdir(cwd)
                a, b = cls(names[0]), cls(names[1])
                if op['atomic'] == 'no':
                    deny_renameat2()
                if op['fault'] != 'none':
                    Faulty(op['fault']).install(report)
                try:
                    (a.swap if op['op'] == 'swap' else a.swap_carefree)(b)
                except (OSError, ValueError, NotImplementedError):
                    report('error')
                except BaseException as e:
                    report(lib.describe(e))
                report('ok')
            except BaseException as e:
                report('harness: ' + lib.describe(e))
        os.close(wfd)
        data = b''
        while True:
            d = os.read(r, 4096)
            if not d:
                break
            data += d
        os.close(r)
        os.waitpid(pid, 0)
        out = data.decode() or 'process ended without an answer'
        if out.startswith('harness:'):
            raise lib.MachineryError(out)
        return out

    def project(self):
        at = {}
        now = {n: self.mark(self.p[n]) for n in 'ab'}
        k = dict(self.st['k'])
        missing = [n for n in 'ab' if self.items[n] is None]
        for n in 'ab':
            if self.items[n] is None:
                continue
            here = [m for m in 'ab' if now[m] == self.items[n]]
            if here:
                at[n] = here[0]
            else:
                for rel in self.entries():
                    if self.mark(os.path.join(self.w, rel)) == self.items[n]:
                        at[n] = 'other'
                if n not in at:
                    at[n] = 'lost'
        for n in missing:
            at[n] = self.home[n] if now[self.home[n]] is None else 'appeared'
        ent = self.entries()
        if not self.st['nest'] and k['a'] in ('full', 'dir') or k['b'] in ('full', 'dir'):
            top = {os.path.relpath(p, self.w) for p in self.p.values()}
            keep = lambda e: not any(e.startswith(t + '/') for t in top)
            left = sorted(set(filter(keep, ent)) - set(self.before) - top) != []
        else:
            left = set(ent) - set(self.before) != set()
        if not os.path.exists(self.w + '/o/file') or open(self.w + '/o/file').read() != 'outside':
            at['a'] = 'outside changed'
        return dict(k=k, at=at, nest=self.st['nest'], left=left)


    def is_init(self, pre):
        return pre['at'] == dict(a='a', b='b')

    def random_init(self, rng):
        k = dict(a=rng.choice(KINDS), b=rng.choice(KINDS))
        return dict(k=k, at=dict(a='a', b='b'), left=False,
                    nest=k['a'] == 'full' and k['b'] in ('file', 'dir') and rng.random() < .5)

    def random_op(self, rng, st):
        if st['left'] or sorted(st['at'].values()) != ['a', 'b']:
            return None
        whole = not st['nest'] and not {'none', 'broken'} & set(st['k'].values())
        at = rng.choice(['yes', 'no'])
        o = rng.choice(['swap', 'carefree'])
        return dict(op=o, who=rng.choice(['ab', 'ba']), sp=rng.choice(['aa', 'ar', 'ra', 'rr', 'dd']), atomic=at,
                    fault=rng.choice(FAULTS) if o == 'carefree' and at == 'no' and whole else 'none')


def check(c):
    b = Swap()
    consts = dict(Kinds=set(KINDS), Nests={False, True}, Spells={'aa', 'ar', 'ra', 'rr', 'dd'},
                  Faults=set(FAULTS))
    t = c.model('Swap', consts, ['NothingLost'], ['AllOrNothing', 'NoLeftovers', 'MissingIsRefused'],
                expect=['swap/ok', 'swap/error', 'carefree/ok', 'carefree/error', 'carefree/crash'])
    faulty = [x for x in t if x['op']['fault'] != 'none']
    plain = [x for x in t if x['op']['fault'] == 'none']
    c.replay(b, plain, limit=None if c.thorough else 4000, tag='plain')
    n = c.cov['replayed_transitions']
    c.replay(b, faulty, limit=None if c.thorough else 4000, reps=3 if c.thorough else 1, tag='faults')
    c.cov['fault_runs'] = c.cov['replayed_transitions'] - n
    c.walks(b, t, 1500 if c.thorough else 300, 10)
    c.record(b, 1500 if c.thorough else 300, 10, consts)
    c.assumptions += ['the atomic exchange is made unavailable with a seccomp filter on renameat2 (by replacing the primitive where '
                      'filters cannot be installed)', 'faults are injected at rename, link, mkdir, rmdir and unlink calls']
