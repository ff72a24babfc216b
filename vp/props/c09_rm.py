import os, json, random, stat, warnings, pathlib
import lib
warnings.simplefilter('ignore')
import git        # loaded lazily by RepoPath otherwise
import augpathlib as aug
from augpathlib import exceptions as exc
from augpathlib.caches import ReflectiveCache
aug.utils.log.setLevel('CRITICAL')

NOBODY = 65534
NODES = ['t', 't/x', 't/x/y', 't/z', 't/z/u']
CLASSES = [aug.AugmentedPath, aug.EatPath, aug.LocalPath, aug.RepoPath, ReflectiveCache]


class Guard:
    """replaces everything that can delete or rename; a call outside the scratch directory ends the
    (forked, unprivileged) process at once and is reported"""
    def __init__(self, base, report):
        self.base, self.report = base, report

    def where(self, p, dir_fd):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if dir_fd is not None:
            p = os.path.join(os.readlink(f'/proc/self/fd/{dir_fd}'), p)
        p = os.path.abspath(p) if '..' not in p.split('/') else p
        head, tail = os.path.split(p.rstrip('/'))
        if tail in ('..', '.', ''):
            return os.path.realpath(p)
        return os.path.join(os.path.realpath(head), tail)

    def wrap(self, f):
        def guarded(path, *a, dir_fd=None, **k):
            w = self.where(path, dir_fd)
            if not w.startswith(self.base + '/'):
                self.report(f'ESCAPE {f.__name__} {w}')
            return f(path, *a, dir_fd=dir_fd, **k)
        return guarded

    def wrap2(self, f):
        def guarded(a, b, *args, **k):
            for p in (a, b):
                w = self.where(p, None)
                if not w.startswith(self.base + '/'):
                    self.report(f'ESCAPE {f.__name__} {w}')
            return f(a, b, *args, **k)
        return guarded

    def install(self):
        os.unlink = self.wrap(os.unlink)
        os.remove = self.wrap(os.remove)
        os.rmdir = self.wrap(os.rmdir)
        os.rename = self.wrap2(os.rename)
        os.replace = self.wrap2(os.replace)


class TreeRm(lib.Binding):
    module = 'TreeRm'
    case_timeout = 20

    def start(self, st, rng, root):
        self.rng = rng
        self.base = os.path.realpath(root)
        os.chmod(self.base, 0o777)
        self.w = self.base + '/w'
        os.mkdir(self.w)
        os.mkdir(self.w + '/o')
        open(self.w + '/o/f', 'w').write('outside')
        self.cwd = st['cwd']
        y, u = rng.choice(['y', 'x', 'z', 't', '.y', '.git']), rng.choice(['u', 'y', 'z', 'x', 't'])
        x = rng.choice(['x', 'x', '.git'])
        self.real = {'t': 't', 't/x': 't/' + x, 't/x/y': f't/{x}/{y}', 't/z': 't/z', 't/z/u': 't/z/' + u}
        dirs = []
        for n in NODES:
            k = st['k'][n]
            p = self.full(n)
            if k == 'none':
                continue
            if k == 'file':
                open(p, 'w').write(rng.choice(['', 'data']))
            elif k in ('dir', 'ldir'):
                os.mkdir(p)
                dirs.append((p, k))
            else:
                dest = {'l:o': self.w + '/o', 'l:of': self.w + '/o/f', 'l:loop': p, 'l:gone': self.w + '/nowhere',
                        'l:up': '..'}[k]
                if rng.random() < .5 and k in ('l:o', 'l:of', 'l:loop'):
                    dest = os.path.relpath(dest, os.path.dirname(p))
                os.symlink(dest, p)
        os.symlink('/', self.base + '/rootlink')
        for dp, dn, fn in os.walk(self.base):
            for x in [dp] + [os.path.join(dp, f) for f in fn + dn]:
                os.lchown(x, NOBODY, NOBODY)
        for p, k in dirs:
            os.chmod(p, 0o555 if k == 'ldir' else 0o755)

    def full(self, n):
        return self.w if n == 'w' else f'{self.w}/{self.real[n]}'

    def special(self, which):
        home = '/home'
        return {'root': '/', 'top': '/tmp', 'home': '/home/nobody-vp', 'homes': home, 'rel': 't', 'dot': '.',
                'updir': 't/..', 'rootdots': self.base + '/' + '/'.join(['..'] * (len(self.base.split('/')) - 1)),
                'topdots': '/tmp/../tmp', 'toplink': self.base + '/rootlink/tmp',
                'homelink': self.base + '/rootlink/home/nobody-vp'}[which]

    def target(self, op):
        p = self.full(op['p'])
        if op['sp'] == 'abs':
            return p
        if op['sp'] == 'rel':
            cwd = self.full(self.cwd)
            return os.path.relpath(p, cwd)
        if op['sp'] == 'dots':      # through the outside directory and back
            return f"{self.w}/o/../{self.real[op['p']]}"
        if op['sp'] == 'selfdots':  # through one of its own subdirectories and back, when there is one
            kids = [e.path for e in os.scandir(p) if e.is_dir(follow_symlinks=False)] if (
                os.path.isdir(p) and not os.path.islink(p)) else []
            return kids[0] + '/..' if kids else p
        if op['sp'] == 'link':      # the parent directory is reached through a link
            os.symlink(os.path.dirname(p), self.base + '/via')
            return self.base + '/via/' + os.path.basename(p)
        raise KeyError(op['sp'])

    def do(self, op):
        r, wfd = os.pipe()
        path = self.special(op['which']) if op['op'] == 'special' else (
            self.target(op) if op['op'] == 'rmtree' else self.full(op['p']))
        cls = self.rng.choice(CLASSES[:-1] if op['op'] == 'rmdirtree' else CLASSES)
        pid = os.fork()
        if pid == 0:
            os.close(r)

            def report(msg):
                os.write(wfd, msg.encode()[:2000])
                os._exit(0)
            try:
                os.setgroups([])
                os.setresgid(NOBODY, NOBODY, NOBODY)
                os.setresuid(NOBODY, NOBODY, NOBODY)
            except OSError as e:
                report(f'cannot drop privileges {e}')
            try:
                os.chdir(self.full(self.cwd))
                Guard(self.base, report).install()
                p = cls(path)
                handled = []
                kw = {}
                if op['op'] in ('rmtree', 'special'):
                    if op['mode'] == 'ignore':
                        kw['ignore_errors'] = True
                    elif op['mode'] == 'onerror':
                        kw['onerror'] = lambda *a: handled.append(a)
                    if op['dz'] == 'truthy':
                        kw['DANGERZONE'] = self.rng.choice([1, 'yes'])
                    elif op['dz'] == 'yes':
                        kw['DANGERZONE'] = True
                try:
                    if op['op'] == 'rmdirtree':
                        p.rmdirtree()
                    else:
                        p.rmtree(**kw)
                    out = 'handled' if handled else 'ok'
                    for func, at, info in handled:
                        # what shutil says: what failed, on what, and how
                        at = os.path.abspath(at)
                        want = 'rmdir' if os.path.isdir(at) and not os.path.islink(at) else 'unlink'
                        if getattr(func, '__name__', '') not in (want, 'scandir', 'iterdir') or not isinstance(info[1], BaseException):
                            out = f'told {func} {at} {info}'
                except exc.WillNotRemovePathError:
                    out = 'refused'
                except FileNotFoundError:
                    out = 'missing'
                except NotADirectoryError:
                    out = 'notdir'
                except PermissionError:
                    out = 'denied'
                except OSError as e:
                    out = 'islink' if e.errno is None else f'OSError {e.errno}'
                except BaseException as e:
                    out = lib.describe(e)
                report(out)
            except BaseException as e:
                report('harness: ' + lib.describe(e))
        os.close(wfd)
        data = b''
        while True:
            b = os.read(r, 4096)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        out = data.decode() or 'process ended without an answer'
        if out.startswith(('harness:', 'cannot drop')):
            raise lib.MachineryError(out)
        return out

    def project(self):
        k = {}
        for n in NODES:
            p = self.full(n)
            try:
                st = os.lstat(p)
            except (FileNotFoundError, NotADirectoryError, OSError):
                k[n] = 'none'
                continue
            if os.path.dirname(n) and os.path.islink(self.full(os.path.dirname(n))):
                k[n] = 'none'     # seen through a link: not an entry of the tree
                continue
            if stat.S_ISLNK(st.st_mode):
                d = os.readlink(p)
                full = os.path.normpath(os.path.join(os.path.dirname(p), d))
                k[n] = {self.w + '/o': 'l:o', self.w + '/o/f': 'l:of', p: 'l:loop',
                        self.w + '/nowhere': 'l:gone'}.get(full, 'l:up' if d == '..' else 'l:?')
            elif stat.S_ISDIR(st.st_mode):
                k[n] = 'dir' if st.st_mode & 0o200 else 'ldir'
            else:
                k[n] = 'file'
        # everything the model does not mention must be as it was
        left = sorted(os.listdir(self.w))
        extra = [x for x in left if x not in ('o', 't')] + [
            x for d in ('t', 't/x', 't/z') if k.get(d) in ('dir', 'ldir')
            for x in os.listdir(self.full(d))
            if x not in [os.path.basename(r) for n, r in self.real.items() if os.path.dirname(n) == d]]
        if extra or sorted(os.listdir(self.w + '/o')) != ['f'] or open(self.w + '/o/f').read() != 'outside':
            k['t'] = 'outside changed'
        return dict(k=k, cwd=self.cwd)

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        while True:
            links = ['l:o', 'l:of', 'l:loop', 'l:gone', 'l:up']
            kinds = ['none', 'file', 'dir', 'dir', 'dir', 'ldir'] + [rng.choice(links)]
            k = {n: rng.choice(kinds) for n in NODES}
            if k['t'] == 'l:up' or k['t'] == 'none':
                k['t'] = 'dir'
            if k['t'] not in ('dir', 'ldir'):
                k['t/x'] = k['t/z'] = 'none'
            for a, b in (('t/x', 't/x/y'), ('t/z', 't/z/u')):
                if k[a] not in ('dir', 'ldir'):
                    k[b] = 'none'
            cwd = rng.choice(['w', 'w', 't', 't/x'])
            if cwd == 'w' or k[cwd] in ('dir', 'ldir'):
                return dict(k=k, cwd=cwd)

    def random_op(self, rng, st):
        if self.cwd != 'w' and st['k'][self.cwd] not in ('dir', 'ldir'):
            return None
        ok = [n for n in NODES if n == 't' or st['k'][os.path.dirname(n)] in ('dir', 'ldir')]
        n = rng.choice(ok[::-1] + ok[1:])
        if rng.random() < .3:
            return dict(op='rmdirtree', p=n)
        x = dict(op='rmtree', p=n, sp=rng.choice(['abs', 'abs', 'dots', 'rel', 'link', 'selfdots']),
                 mode=rng.choice(['raise', 'raise', 'ignore', 'onerror']), dz=rng.choice(['no', 'no', 'truthy', 'yes']))
        if os.path.lexists(self.base + '/via'):
            os.unlink(self.base + '/via')
        return x


def check(c):
    b = TreeRm()
    links = {'l:o', 'l:of', 'l:loop', 'l:gone', 'l:up'}
    consts = dict(KT={'none', 'file', 'dir', 'ldir'} | (links - {'l:up'}),
                  KX={'none', 'file', 'dir', 'ldir', 'l:o', 'l:loop', 'l:up'},
                  KY={'none', 'file', 'dir', 'l:of', 'l:gone', 'l:o'},
                  KZ={'none', 'file', 'dir', 'ldir', 'l:o', 'l:gone'}, KU={'none', 'file', 'dir', 'l:o', 'l:gone'},
                  Modes={'raise', 'ignore', 'onerror'}, Spells={'abs', 'rel', 'dots', 'link', 'selfdots'},
                  Zones={'no', 'truthy', 'yes'},
                  Specials={'root', 'top', 'home', 'homes', 'rel', 'dot', 'updir', 'rootdots', 'topdots', 'toplink', 'homelink'})
    if not c.thorough:
        consts['KX'] -= {'l:loop'}
        consts['KY'] -= {'l:gone'}
        consts['KU'] -= {'l:gone'}
    t = c.model('TreeRm', consts, ['TypeOK'],
                ['Contained', 'RefusedChangesNothing', 'OnlyHollowDirsPruned', 'CwdSurvives', 'SuccessIsComplete'],
                expect=['rmtree/ok', 'rmtree/refused', 'rmtree/missing', 'rmtree/islink', 'rmtree/denied', 'rmtree/handled',
                        'rmdirtree/ok', 'rmdirtree/notdir', 'rmdirtree/denied', 'special/refused'])
    spec = [x for x in t if x['op']['op'] == 'special']
    rest = [x for x in t if x['op']['op'] != 'special']
    c.replay(b, spec, tag='refusals')
    c.replay(b, rest, limit=None if c.thorough else 9000, tag='trees')
    links = sorted(links)
    consts.update({x: {'none', 'file', 'dir', 'ldir', *links} for x in ('KT', 'KX', 'KY', 'KZ', 'KU')})
    c.record(b, 1500 if c.thorough else 500, 4, consts)
    c.assumptions += ['every execution runs in an unprivileged child with deletion calls confined to the scratch directory',
                      'no other process changes the tree during the call']
