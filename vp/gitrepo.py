"""small repositories made of files: snapshots, histories and indexes are made once per process and shared"""
import os, shutil, stat
import gitenv
from gitenv import git

# what a number stands for: bytes, and whether it can be executed
TABLES = [
    {1: (b'one\n\n', False), 2: (b'\xfftwo', False), 3: (b'', False), 4: (b'one\n\n', True)},
    {1: (b'', False), 2: (b'one\r\n', False), 3: (b'a\0b\n', False), 4: (b'', True)},
    {1: (b'x' * 20000 + b'\n', False), 2: (b'x' * 20000 + b'\ny\n', False), 3: (b'y', False), 4: (b'x' * 20000 + b'\n', True)},
]
NAMES = [
    {'a': 'a', 'd': 'd', 'd/b': 'd/b', 'd/c': 'd/c'},
    {'a': '*', 'd': 'd d', 'd/b': 'd d/bx', 'd/c': 'd d/b[x]'},
    {'a': 'd d', 'd': 'd', 'd/b': 'd/b', 'd/c': 'd/b c'},
    {'a': '-x', 'd': '?u', 'd/b': '?u/\u00fc', 'd/c': '?u/?'},
]
DATE = '1000000000 +0000'


class Store:
    """ objects, shared by way of alternates """
    def __init__(self):
        self.dir = gitenv.setup() + '/store'
        os.mkdir(self.dir)
        git(self.dir, 'init', '-q')
        self.blobs, self.trees, self.commits, self.indexes, self.shots = {}, {}, {}, {}, {}
        self.numbers = {}

    def blob(self, data):
        if data not in self.blobs:
            self.blobs[data] = git(self.dir, 'hash-object', '-w', '--stdin', input=data).decode().strip()
        return self.blobs[data]

    def lines(self, snap):
        return b''.join(b'%s %s\t%s\0' % (b'100755' if x else b'100644', self.blob(data).encode(), os.fsencode(name))
                        for name, (data, x) in sorted(snap.items()))

    def index(self, snap):
        """ path of an index file with what is in snap {name: (data, executable)} """
        k = self.lines(snap)
        if k not in self.indexes:
            f = f'{self.dir}/index-{len(self.indexes)}'
            env = os.environ.get('GIT_INDEX_FILE')
            os.environ['GIT_INDEX_FILE'] = f
            try:
                git(self.dir, 'read-tree', '--empty')
                git(self.dir, 'update-index', '-z', '--index-info', input=k)
                self.trees[k] = git(self.dir, 'write-tree').decode().strip()
            finally:
                del os.environ['GIT_INDEX_FILE']
            self.indexes[k] = f
        return self.indexes[k]

    def tree(self, snap):
        self.index(snap)
        return self.trees[self.lines(snap)]

    def commit(self, snap, parents=(), message='outside'):
        k = self.tree(snap), tuple(parents), message
        if k not in self.commits:
            a = [x for p in parents for x in ('-p', p)]
            old = {n: os.environ.get(n) for n in ('GIT_AUTHOR_DATE', 'GIT_COMMITTER_DATE')}
            os.environ.update(GIT_AUTHOR_DATE=DATE, GIT_COMMITTER_DATE=DATE)
            try:
                self.commits[k] = git(self.dir, 'commit-tree', k[0], *a, '-m', message).decode().strip()
            finally:
                for n, v in old.items():
                    if v is None:
                        del os.environ[n]
        return self.commits[k]

    def chain(self, snaps):
        c = []
        for x in snaps:
            c.append(self.commit(x, c[-1:]))
        return c


_store = [None]


def store():
    if _store[0] is None or _store[0][0] != os.getpid():
        h = gitenv.setup()
        _store[0] = (os.getpid(), Store())
    return _store[0][1]


def make(d, branches, head, index, files, stashes=(), tags=None):
    """ branches {name: commit or None}, head a branch (or a commit), index and files snapshots """
    st = store()
    g = d + '/.git'
    for x in ('objects/info', 'refs/heads', 'refs/tags', 'logs/refs', 'info'):
        os.makedirs(f'{g}/{x}')
    def w(n, t):
        os.makedirs(os.path.dirname(f'{g}/{n}'), exist_ok=True)
        with open(f'{g}/{n}', 'wt') as f:
            f.write(t)
    w('objects/info/alternates', st.dir + '/.git/objects\n')
    w('HEAD', f'ref: refs/heads/{head}\n' if head in branches else head + '\n')
    w('config', '[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n\tlogallrefupdates = true\n')
    for n, c in branches.items():
        if c:
            w('refs/heads/' + n, c + '\n')
    for n, c in (tags or {}).items():
        w('refs/tags/' + n, c + '\n')
    if stashes:
        w('refs/stash', stashes[-1][0] + '\n')
        old = '0' * 40
        t = ''
        for c, msg in stashes:
            t += f'{old} {c} n <e@e> {DATE}\t{msg}\n'
            old = c
        w('logs/refs/stash', t)
    if index is not None:
        shutil.copyfile(st.index(index), g + '/index')
    for n, x in files.items():
        write(d, n, x)


def write(d, n, x):
    p = f'{d}/{n}'
    if x is None:
        if os.path.lexists(p):
            os.unlink(p)
        e = os.path.dirname(p)
        while e != d and os.path.isdir(e) and not os.listdir(e):
            os.rmdir(e)
            e = os.path.dirname(e)
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.lexists(p):
        os.unlink(p)
    with open(p, 'wb') as f:
        f.write(x[0])
    os.chmod(p, 0o755 if x[1] else 0o644)


def worktree(d):
    got = {}
    for t, ds, fs in os.walk(d):
        if t == d:
            ds.remove('.git')
        for f in fs:
            p = os.path.join(t, f)
            with open(p, 'rb') as o:
                got[os.path.relpath(p, d)] = (o.read(), bool(os.stat(p).st_mode & stat.S_IXUSR))
    return got


_data = {}


def blob_data(d, sha):
    if sha not in _data:
        _data[sha] = git(d, 'cat-file', 'blob', sha)
    return _data[sha]


def index(d):
    got = {}
    for l in git(d, 'ls-files', '-s', '-z').split(b'\0')[:-1]:
        m, sha, stage = l.split(b'\t')[0].split()
        assert stage == b'0', l
        got[os.fsdecode(l.split(b'\t', 1)[1])] = (blob_data(d, sha.decode()), m == b'100755')
    return got


_shots = {}


def snapshot(d, commit):
    t = commit if len(commit) == 40 else git(d, 'rev-parse', commit).decode().strip()
    if t not in _shots:
        got = {}
        for l in git(d, 'ls-tree', '-r', '-z', t).split(b'\0')[:-1]:
            m, k, sha = l.split(b'\t')[0].split()
            got[os.fsdecode(l.split(b'\t', 1)[1])] = (blob_data(d, sha.decode()), m == b'100755')
        _shots[t] = got
    return _shots[t]


def history(d, ref='HEAD'):
    """ commits, oldest first """
    r = git(d, 'rev-list', '--reverse', '--topo-order', ref, '--', check=False)
    return r.decode().split()


def stashes(d):
    """ oldest first """
    try:
        with open(d + '/.git/logs/refs/stash') as f:
            ls = f.read().splitlines()
    except FileNotFoundError:
        return []
    top = open(d + '/.git/refs/stash').read().strip() if ls else None
    assert not ls or ls[-1].split()[1] == top
    return [(l.split()[1], l.split('\t', 1)[1]) for l in ls]


def drop_stashes(d):
    for n in ('refs/stash', 'logs/refs/stash'):
        if os.path.exists(f'{d}/.git/{n}'):
            os.unlink(f'{d}/.git/{n}')
