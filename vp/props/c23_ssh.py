import os, stat, types, subprocess, pathlib, random, hashlib, warnings
import lib
warnings.simplefilter('ignore')
from pexpect import pxssh
import augpathlib as aug
from augpathlib import LocalPath, remotes
from augpathlib.caches import SshCache
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True

ME, SECOND, THEM = 65534, 65533, 65532
UID = dict(me=ME, them=THEM)
GID = dict(mine=ME, second=SECOND, theirs=THEM)
TIMES = [0, -1_500_000_000, 1_600_000_000_123_456_789]
NAMES = ['f', 'file.txt', 'with space', 'two  spaces', ' lead', 'trail ', '$HOME', '$(id)', '`id`', '"q"', "it's", "''", '\\', 'a\\b', 'n\\n',
         '-rf', '--', '--help', '*', '?', '[a]', '{a,b}', '~', '!', '!!', 'a!b', ';', 'a;b', '&', '#c', 'é', '日本 語', 'None', 'cat',
         'Permission denied', 'No such file or directory', 'Is a directory', 'x: Permission denied', 'directory', '----', '.hid', '.hid den',
         '%n', '%', '=', 'a  b  c', "it's a \"test\" $x", '$', '"', "'", '(', '<x>', '|', 'a:b', 'hosty:x', '0', '1  2  3', 'L' * 60, 'L' * 200, 'é' * 90]
BASES = ['b', 'base dir', "b's", 'q"q', '$b', 'L' * 180, 'b;c', 'ü']
CONTENTS = [[b''],
            [b'x', b'one line\n', b'\r\n', bytes(range(256)), b'a  b', b'\x04\x03\x00', b'[PEXPECT]$ '],
            [b'two' * 30000, b'other line\n', b'\r', bytes(range(255, -1, -1)) * 40, b'# \n# \n']]


def drop():
    os.setgroups([SECOND])
    os.setresgid(ME, ME, ME)
    os.setresuid(ME, ME, ME)


class Host(pxssh.pxssh):
    """a login shell of an unprivileged user on this machine in place of one behind sshd"""
    env_of = None

    def login(self, server, *args, **kwargs):
        if server != 'hosty':
            raise pxssh.ExceptionPxssh(f'no such host {server!r}')
        self.delaybeforesend = None
        self.env = dict(Host.env_of)
        self._spawn('/bin/bash', ['--norc', '--noprofile'], preexec_fn=drop)
        if not self.set_unique_prompt():
            raise lib.MachineryError('no prompt from bash')
        return True

    ended = False

    def end(self):
        """ without the delays of close """
        if not self.ended:
            self.ended = True
            os.kill(self.pid, 9)
            os.waitpid(self.pid, 0)
            self.ptyproc.fileobj.close()
            self.ptyproc.closed = self.closed = self.terminated = self.ptyproc.terminated = True

    def sendeof(self):
        if not self.ended:
            super().sendeof()

    def close(self, *args, **kwargs):
        if not self.ended:
            super().close(*args, **kwargs)


remotes.pxssh = types.SimpleNamespace(pxssh=Host, ExceptionPxssh=pxssh.ExceptionPxssh)

SSH = '''#!/bin/bash
if [ "${@: -2:1}" != hosty ]; then echo "no such host" >&2; exit 255; fi
cd /
if [ -e "$0.lost" ]; then
    # the connection does not last
    read -r n words < "$0.lost"
    setpriv --reuid=65534 --regid=65534 --groups=65533 env PATH="$HOST_PATH" bash -c "${@: -1}" | head -c "$n"
    if [ "$words" ]; then echo "$words" >&2; fi
    exit 255
fi
exec setpriv --reuid=65534 --regid=65534 --groups=65533 env PATH="$HOST_PATH" bash -c "${@: -1}"
'''
ID = '''#!/bin/bash
case "$*" in
    -u) echo %s ;;
    -G) echo %s ;;
    *) exec /usr/bin/id "$@" ;;
esac
'''
SLOW = '''#!/bin/bash
sleep .12
exec %s "$@"
'''


def same(a, b):
    return a is not None and abs(a - b) < 1e-6


class Ssh(lib.Binding):
    module = 'Ssh'
    case_timeout = 25
    slow = root = False

    def start(self, st, rng, root):
        self.rng = rng
        root = os.path.realpath(root)
        os.chmod(root, 0o755)
        self.bin = root + '/bin'
        os.mkdir(self.bin)
        self.script('ssh', SSH)
        path = '/usr/bin:/bin'
        if self.slow:
            os.mkdir(root + '/slow')
            for n in ('stat', 'cat', 'b2sum', 'sha256sum', 'ls', 'find'):
                self.script('../slow/' + n, SLOW % ('/usr/bin/' + n))
            path = root + '/slow:' + path
        if self.root or rng.random() < .3:
            # another account, or one that is in the group of root as well
            os.mkdir(root + '/ids')
            self.script('../ids/id', ID % ((0, 0) if self.root else (ME, f'{ME} {SECOND} 0')))
            path = root + '/ids:' + path
        env = dict(PATH=path, TERM='ansi', LC_ALL=rng.choice(['C.UTF-8', 'C.UTF-8', 'C']), HOME='/', HOST_PATH=path)
        Host.env_of = env
        os.environ['PATH'] = self.bin + ':/usr/bin:/bin'
        os.environ['HOST_PATH'] = path
        b = rng.choice(BASES)
        self.base = root + '/' + b
        os.mkdir(self.base)
        pool = NAMES if env['LC_ALL'] != 'C' else [n for n in NAMES if n.isascii()]
        if not b.isascii():
            env['LC_ALL'] = 'C.UTF-8'
        a, d = rng.sample(pool, 2)
        x, y, zz, top = rng.sample(pool, 4)
        while top in (a, d):
            top = rng.choice(pool)
        self.names = dict(a=a, d=d, x=x, y=y)
        self.z = dict(top=top, sub=zz)
        self.bytes = [rng.choice(c) for c in CONTENTS]
        if rng.random() < .5:
            self.bytes[1] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 7, 4096, 4097])))
        self.cypher = rng.choice([hashlib.sha256, hashlib.blake2b])

        class Path(LocalPath):
            pass
        Path._bind_flavours()

        class Cache(SshCache):
            cypher = self.cypher
        Cache._bind_flavours()
        self.R = remotes.SshRemote._new(Path, Cache)
        loc = Path(root + '/loc')
        loc.mkdir()
        self.anchor = rng.choice([self.base, self.base, root, '/'])
        loc.cache_init('hosty:' + self.anchor, anchor=True)
        if self.slow and isinstance(getattr(self.R, 'session', None), Host):
            self.R.session.timeout = .04
        self.memo = {}
        self.k = {n: 'n' for n in 'adxy'}
        for n in 'adxy':
            if st['k'][n] != 'n':
                self.put(n, st['k'][n], st['c'][n], st['t'][n], st['m'][n])

    def stop(self):
        session = getattr(getattr(self, 'R', None), 'session', None)
        if session is not None:
            session.end()

    def script(self, name, text):
        p = self.bin + '/' + name
        open(p, 'w').write(text)
        os.chmod(p, 0o755)

    # ---- the host, as root and without the code
    def full(self, n):
        return f'{self.base}/{self.names[n]}' if n in 'ad' else f"{self.base}/{self.names['d']}/{self.names[n]}"

    def put(self, n, k, c, t, m):
        p = self.full(n)
        old = self.k[n]
        if old == 'd' and k != 'd':
            os.rmdir(p)
        elif old != 'n' and (old != k or k not in 'fd' or self.rng.random() < .5 and k == 'f'):
            os.unlink(p)
        if k == 'f':
            with open(p, 'wb') as f:
                f.write(self.bytes[c])
        elif k == 'd' and old != 'd':
            os.mkdir(p)
        elif k == 'p':
            os.mkfifo(p)
        elif k.startswith('l:'):
            to = {'gone': self.base + '/nowhere', 'loop': p}.get(k[2:]) or self.full(k[2:])
            os.symlink(self.rng.choice([to, os.path.relpath(to, os.path.dirname(p))]), p)
        self.k[n] = k
        if k in ('f', 'd', 'p'):
            os.chown(p, UID[m['own']], GID[m['grp']])
            os.chmod(p, m['u'] << 6 | m['g'] << 3 | m['o'])
        elif k.startswith('l:'):
            os.lchown(p, ME, ME)
        if k == 'f':
            os.utime(p, ns=(TIMES[(t + 1) % 3], TIMES[t]))

    def look(self, p):
        """ (kind, content, time, meta) of one entry, from lstat """
        try:
            st = os.lstat(p)
        except (FileNotFoundError, NotADirectoryError):
            return None
        return st

    def meta(self, st):
        own = {v: k for k, v in UID.items()}
        grp = {v: k for k, v in GID.items()}
        m = stat.S_IMODE(st.st_mode)
        return dict(u=m >> 6 & 7, g=m >> 3 & 7, o=m & 7, own=own.get(st.st_uid, str(st.st_uid)), grp=grp.get(st.st_gid, str(st.st_gid)))

    def content(self, b):
        return self.bytes.index(b) if b in self.bytes else 'other contents'

    def project(self):
        plain = dict(u=7, g=7, o=7, own='me', grp='mine')
        out = dict(k={}, c={}, t={}, m={})
        for n in 'adxy':
            st = self.look(self.full(n)) if n in 'ad' or self.k['d'] == 'd' else None
            k, c, t, m = 'n', 0, 0, plain
            if st is not None:
                f = stat.S_IFMT(st.st_mode)
                k = {stat.S_IFREG: 'f', stat.S_IFDIR: 'd', stat.S_IFIFO: 'p', stat.S_IFLNK: self.k[n]}.get(f, 'other')
                if k == 'f':
                    c = self.content(open(self.full(n), 'rb').read())
                    t = TIMES.index(st.st_mtime_ns) if st.st_mtime_ns in TIMES else 'other time'
                if k in ('f', 'd', 'p'):
                    m = self.meta(st)
            out['k'][n], out['c'][n], out['t'][n], out['m'][n] = k, c, t, m
        have = set(os.listdir(self.base))
        if not have <= {self.names['a'], self.names['d']}:
            out['k']['a'] = f'new entries {sorted(have)}'
        return out

    # ---- queries
    def parts(self, q):
        out = []
        for i, c in enumerate(q):
            out.append(self.z['top' if i == 0 else 'sub'] if c == 'z' else self.names[c])
        return out

    def remote(self, q):
        key = tuple(q)
        if key in self.memo and self.rng.random() < .5:
            return self.memo[key]
        parts = self.parts(q)
        p = '/'.join([self.base] + parts)
        how = self.rng.choice(['str', 'str', 'host', 'join', 'path', 'parent', 'relative', 'args'])
        if how == 'host':
            r = self.R('hosty:' + p)
        elif how == 'join':
            r = self.R(self.base)
            for c in parts:
                r = r / c
        elif how == 'path':
            r = self.R(pathlib.PurePosixPath(p))
        elif how == 'args':
            r = self.R(self.base, *parts)
        elif how == 'parent':
            r = self.R(p + '/' + self.z['sub']).parent
        elif how == 'relative' and not '/'.join(parts).startswith('hosty:'):
            r = self.R(os.path.relpath(p, self.anchor))
        else:
            r = self.R(p)
        self.memo[key] = r
        return r

    def status(self, sr, p, follow=True):
        """ compares a reported status with the real one """
        st = os.stat(p) if follow else os.lstat(p)
        for k in ('st_mode', 'st_size', 'st_uid', 'st_gid', 'st_ino', 'st_blksize'):
            if getattr(sr, k) != getattr(st, k):
                return f'{k} is {getattr(sr, k)} not {getattr(st, k)}'
        # the checksums of a listing are read after its status
        for k in ('st_mtime', 'st_ctime', *(['st_atime'] if follow else [])):
            if not same(getattr(sr, k), getattr(st, k)):
                return f'{k} is {getattr(sr, k)} not {getattr(st, k)}'
        if not follow and sr.name != os.path.basename(p):
            return f'name is {sr.name!r}'
        return self.describe(st, p)

    def describe(self, st, p):
        if stat.S_ISLNK(st.st_mode):
            return 'link'
        m = self.meta(st)
        k = {stat.S_IFREG: 'f', stat.S_IFDIR: 'd', stat.S_IFIFO: 'p'}[stat.S_IFMT(st.st_mode)]
        out = f"{k} {m['u']}{m['g']}{m['o']} {m['own']} {m['grp']}"
        if k == 'f':
            out += f" c{self.content(open(p, 'rb').read())} t{TIMES.index(st.st_mtime_ns)}"
        return out

    def sum(self, digest, cypher):
        for i, b in enumerate(self.bytes):
            if digest == cypher(b).digest():
                return f'c{i}'
        return f'{digest!r}'

    def do(self, op):
        k = op['op']
        if k == 'put':
            self.put(op['n'], op['k'], op['c'], op['t'], op['m'])
            return 'ok'
        p = '/'.join([self.base] + self.parts(op['q']))
        try:
            r = self.remote(op['q'])
            return self.ask(k, r, p)
        except PermissionError:
            return 'denied'
        except FileNotFoundError:
            return 'missing'
        except NotADirectoryError:
            return 'notdir'
        except IsADirectoryError:
            return 'isdir'
        except lib.MachineryError:
            raise
        except OSError as e:
            return 'loop' if e.errno == 40 else lib.describe(e)
        except Exception as e:
            return lib.describe(e)

    def ask(self, k, r, p):
        yes = lambda v: 'yes' if v else 'no'
        if k == 'exists':
            return yes(r.exists())
        if k == 'isdir':
            return yes(r.is_dir())
        if k == 'isfile':
            return yes(r.is_file())
        if k == 'stat':
            return self.status(r.stat(), p)
        if k == 'checksum':
            cypher = self.rng.choice([None, hashlib.sha256, hashlib.blake2b])
            got = r.checksum() if cypher is None and self.rng.random() < .7 else r.checksum(cypher)
            return 'none' if got is None else self.sum(got, cypher or self.cypher)
        if k == 'lostdata':
            size = os.path.getsize(p) if os.path.isfile(p) else 0
            n = self.rng.choice([0, size // 2, 4096, max(0, size - 1), size])
            with open(self.bin + '/ssh.lost', 'wt') as f:
                f.write(f'{n} {self.rng.choice(["", "", "Connection to hosty closed by remote host.", "client_loop: send disconnect: Broken pipe"])}\n')
            try:
                b''.join(r.data)
                return 'data of a lost connection'
            except Exception:
                return 'failed'
            finally:
                os.unlink(self.bin + '/ssh.lost')
        if k == 'data':
            got = b''.join(r.data)
            return f'c{self.bytes.index(got)}' if got in self.bytes else f'other data of size {len(got)}'
        if k in ('read', 'write', 'execute'):
            return yes(r.access(self.rng.choice([k, dict(read=os.R_OK, write=os.W_OK, execute=os.X_OK)[k]])))
        if k == 'list':
            got = r.children
            if got is None:
                return 'none'
            stats, checks = got
            slot = {v: n for n, v in self.names.items() if n in 'xy'}
            out = ''
            for name in sorted(set(stats) | set(checks), key=lambda n: slot.get(n, n)):
                if name in ('.', '..'):
                    continue
                f = f'{p}/{name}'
                s = self.status(stats[name], f, follow=False) if name in stats else 'no status'
                if name in checks:
                    s += '=' + self.sum(checks[name], self.cypher)
                out += f'[{slot.get(name, repr(name))} {s}]'
            return out
        if k == 'meta':
            m = r.meta
            if m.size is None and m.updated is None:
                return 'absent' if m.name == os.path.basename(p) else f'absent {m.name!r}'
            st = os.stat(p)
            for k, v, w in (('size', m.size, st.st_size), ('name', m.name, os.path.basename(p)), ('user', m.user_id, st.st_uid),
                            ('gid', m.gid, st.st_gid), ('mode', m.mode, oct(st.st_mode)), ('file_id', m.file_id, st.st_ino),
                            ('id', m.id, 'hosty:' + p), ('parent_id', m.parent_id, 'hosty:' + os.path.dirname(p))):
                if v != w:
                    return f'{k} is {v!r} not {w!r}'
            if abs(m.created.timestamp() - st.st_mtime) > 2e-6 or abs(m.updated.timestamp() - st.st_ctime) > 2e-6:
                return f'times are {m.created} {m.updated}'
            return self.describe(st, p) + ('' if m.checksum is None else '=' + self.sum(m.checksum, self.cypher))
        raise KeyError(k)

    # ---- recording
    def random_init(self, rng):
        plain = dict(u=7, g=7, o=7, own='me', grp='mine')
        return dict(k={n: 'n' for n in 'adxy'}, c={n: 0 for n in 'adxy'}, t={n: 0 for n in 'adxy'}, m={n: plain for n in 'adxy'})

    def random_op(self, rng, st):
        kinds = dict(a=['n', 'f', 'f', 'd', 'l:d', 'l:x', 'l:gone', 'l:loop'], d=['n', 'f', 'd', 'd', 'd', 'd'],
                     x=['n', 'f', 'f', 'f', 'd', 'p', 'l:a', 'l:y', 'l:gone'], y=['n', 'f', 'f'])
        for _ in range(50):
            if rng.random() < .4:
                n = rng.choice('adxy')
                k = rng.choice(kinds[n])
                if n in 'xy' and st['k']['d'] != 'd':
                    n, k = 'd', 'd'
                if n == 'd' and st['k']['d'] == 'd' and k != 'd' and (st['k']['x'] != 'n' or st['k']['y'] != 'n'):
                    continue
                m = dict(u=7, g=7, o=7, own='me', grp='mine')
                if k in 'fd':
                    bits = lambda: rng.choice([0, 4, 5, 6, 7, 7] if k == 'd' else [0, 4, 6, 6, rng.randrange(8)])
                    m = dict(u=bits(), g=bits(), o=bits(), own=rng.choice(['me', 'them']), grp=rng.choice(['mine', 'second', 'theirs']))
                elif k == 'p':
                    m = dict(u=6, g=4, o=4, own='me', grp='mine')
                f = k == 'f'
                return dict(op='put', n=n, k=k, c=rng.randrange(3) if f else 0, t=rng.randrange(3) if f else 0, m=m)
            q = rng.choice([['a'], ['d'], ['d', 'x'], ['d', 'x'], ['d', 'y'], ['a', 'x'], ['a', 'z'], ['d', 'z'], ['d', 'x', 'z']])
            k = rng.choice(['exists', 'isdir', 'isfile', 'stat', 'stat', 'checksum', 'data', 'lostdata', 'read', 'write', 'execute', 'list', 'list', 'meta'])
            if k in ('checksum', 'data', 'lostdata', 'meta') and (st['k']['x'] == 'p' or st['k']['a'] == 'p'):
                continue
            return dict(op=k, q=q)
        return dict(op='exists', q=['a'])


class SlowSsh(Ssh):
    slow = True


class RootSsh(Ssh):
    root = True


def check(c):
    b = Ssh()
    inv = ['TypeOK', 'Agree', 'ListedExists', 'MostSpecific']
    w = c.thorough
    t = c.model('Ssh', dict(Mode='tree', Wide=w, MaxOps=1, Account='me'), inv, ['AskingIsFree'],
                expect=['exists/yes', 'exists/no', 'exists/denied', 'stat/missing', 'stat/denied', 'stat/notdir', 'stat/loop', 'checksum/c0',
                        'checksum/c2', 'checksum/none', 'checksum/denied', 'data/c1', 'data/isdir', 'data/denied', 'list/none', 'list/denied',
                        'list/', 'meta/absent', 'meta/denied', 'read/yes', 'read/no'])
    c.replay(b, t, limit=20000 if w else 1800, tag='tree')
    c.replay(SlowSsh(), t, limit=600 if w else 60, tag='slow host')
    t = c.model('Ssh', dict(Mode='bits', Wide=w, MaxOps=1, Account='me'), inv, ['AskingIsFree'], expect=['execute/yes', 'write/no', 'list/denied'])
    c.replay(b, t, limit=12000 if w else 1200, tag='bits')
    t = c.model('Ssh', dict(Mode='bits', Wide=w, MaxOps=1, Account='root'), inv, ['AskingIsFree'], expect=['execute/yes', 'execute/no', 'write/yes'])
    c.replay(RootSsh(), [x for x in t if x['op']['op'] in ('read', 'write', 'execute')], limit=3000 if w else 300, tag='root')
    c.record(b, 800 if w else 110, 60, dict(Mode='any', Wide=True, MaxOps=1000000, Account='me'))
    c.assumptions += ['the host is this machine: a bash of an unprivileged account in a terminal of its own takes the place of the one behind sshd, '
                      'and a command named ssh that runs its argument as that account takes the place of ssh',
                      'names hold no control characters, and not the prompt that pxssh sets', 'what root may do is only asked where an account that is not root can look']
