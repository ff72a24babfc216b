import os, contextlib, shutil, warnings
import lib, gitenv
from gitenv import git
warnings.simplefilter('ignore')
gitenv.setup()
import augpathlib as aug
from augpathlib import RepoPath, exceptions as exc
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
F = ['', 'a', 'a/b', 'a/b/c', 'd']
PATHS = F + ['a/f', 'a/b/c/f/g', 'd/.x/y', 'no']


@contextlib.contextmanager
def within(d):
    here = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(here)


def source():
    """ a repository to clone from, and ones to copy from: made once per process """
    h = gitenv.setup() + '/made'
    if not os.path.isdir(h):
        for k in ('0', '1'):
            os.makedirs(f'{h}/{k}')
            git(f'{h}/{k}', 'init', '-q')
        commit(f'{h}/1', 1)
        os.makedirs(f'{h}/b')
        git(f'{h}/b', 'init', '-q')
        commit(f'{h}/b', 1)
        commit(f'{h}/b', 9, '-p', 'main')
        git(h, 'clone', '-q', '--bare', 'b', 'b.git')
        git(h, 'clone', '-q', 'b', '9')
        git(h, 'clone', '-q', '--depth', '1', f'file://{h}/b', '8')
    return h


def commit(d, n, *args):
    tree = git(d, 'write-tree').strip().decode()
    c = git(d, 'commit-tree', tree, *args, '-m', f'commit {n}').strip().decode()
    git(d, 'update-ref', 'refs/heads/main', c)


def known(d, n):
    """ n is 8 when only the last commit of the source is there """
    return 8 if int(n) == 9 and int(git(d, 'rev-list', '--count', 'HEAD')) == 1 else int(n)


class Repos(lib.Binding):
    module = 'Repos'

    def start(self, st, rng, root):
        self.rng = rng
        self.src = source()
        self.root = os.path.realpath(root)
        self.base = self.root + '/base'
        self.memo = {}
        self.n = 0
        os.mkdir(self.base)
        os.symlink('base', self.root + '/alias')
        for n in F:
            if st['f'][n]:
                os.makedirs(self.at(n), exist_ok=True)
            if st['f'][n] == 2:
                h = st['head'][n]
                to = self.separate() if rng.random() < .3 else self.at(n) + '/.git'
                shutil.copytree(f'{self.src}/{h if h != 2 else 1}/.git', to)
                if not to.endswith('/.git'):
                    with open(self.at(n) + '/.git', 'wt') as f:
                        f.write(f'gitdir: {to}\n')
                if h == 2:
                    commit(self.at(n), 2)

    def separate(self):
        """ somewhere else to keep what belongs to a repository """
        self.n += 1
        return f'{self.root}/kept-{self.n}'

    def at(self, n):
        return f'{self.base}/{n}' if n else self.base

    def spell(self, n, asking):
        """ (working directory, path) """
        p = self.at(n)
        how = self.rng.choice(['abs', 'abs', 'rel', 'dots', 'here', 'absdots'] + ['alias', 'home', 'same', 'same'] * asking)
        if how == 'abs':
            return '.', p
        elif how == 'alias':
            return '.', p.replace('/base', '/alias')
        elif how == 'rel':
            return self.root, os.path.relpath(p, self.root)
        elif how in ('dots', 'here'):
            # from a folder that is there, up and down again
            ds = [m for m in F if os.path.isdir(self.at(m))]
            if how == 'here':
                ds = [m for m in ds if n == m or n.startswith(m + '/') or not m] or ds
            d = self.at(self.rng.choice(ds))
            return d, os.path.relpath(p, d)
        elif how == 'absdots':
            ds = [m for m in F if os.path.isdir(self.at(m))]
            d = self.at(self.rng.choice(ds))
            return '.', d + '/' + os.path.relpath(p, d)
        elif how == 'home':
            return '.', os.path.join('~', os.path.relpath(p, self.root))
        elif how == 'same':
            return '.', p

    def obj(self, n, asking):
        cwd, p = self.spell(n, asking)
        self.note = f'cwd {cwd} path {p}'
        if (cwd, p) in self.memo and self.rng.random() < .5:
            return cwd, self.memo[cwd, p]
        o = RepoPath(p)
        self.memo[cwd, p] = o
        return cwd, o

    def ask(self, p):
        home = os.environ['HOME']
        os.environ['HOME'] = self.root
        try:
            cwd, o = self.obj(p, True)
            with within(cwd):
                wd = o.working_dir
                try:
                    repo = o.repo
                except exc.NotInRepoError:
                    repo = None
                try:
                    rel = o.repo_relative_path if self.rng.random() < .5 else o.path_relative_repo
                except exc.NotInRepoError:
                    rel = None
                if wd is None or repo is None or rel is None:
                    return 'not in one' if (wd, repo, rel) == (None, None, None) else f'answers differ'
                if not wd.is_absolute() or type(wd) is not RepoPath:
                    return 'the root is not an absolute path'
                root = os.path.realpath(wd)
                if os.path.realpath(repo.working_dir) != root:
                    return 'the repository is another one'
                if rel.is_absolute() or os.path.realpath(wd / rel) != os.path.realpath(self.at(p)):
                    return 'relative path leads elsewhere'
                if root != self.base and not root.startswith(self.base + '/'):
                    return 'outside'
            name = '' if root == self.base else root[len(self.base) + 1:]
            head = repo.head
            n = known(repo.working_dir, head.commit.message.split()[1]) if head.is_valid() else '0'
            return f'[{name}] {n}'
        finally:
            os.environ['HOME'] = home

    def do(self, op):
        k, p = op['op'], op['p']
        if k == 'ask':
            r = self.ask(p)
            if os.environ.get('DBG'): print(r, p, self.note, file=__import__('sys').stderr)
            return r
        if k == 'outside':
            d, what = self.at(p), op['what']
            if what == 'rm':
                shutil.rmtree(d)
            elif what == 'unrepo':
                if os.path.isdir(d + '/.git'):
                    shutil.rmtree(d + '/.git')
                else:
                    os.unlink(d + '/.git')
                if os.path.lexists(d + '/x'):
                    os.unlink(d + '/x')
            elif what == 'init':
                os.makedirs(d, exist_ok=True)
                git(d, 'init', '-q', *(['--separate-git-dir', self.separate()] if self.rng.random() < .3 else []))
            elif what == 'mkdir':
                os.makedirs(d)
            elif what == 'commit':
                h = self.head(d)
                commit(d, 2 if h == 1 else 1)
            return 'ok'
        try:
            if k == 'init':
                cwd, o = self.obj(p, False)
                with within(cwd):
                    r = o.init()
                    return 'ok' if os.path.realpath(o.repo.working_dir) == os.path.realpath(r.working_dir) == self.at(p) else 'another repository'
            elif k == 'clone':
                cwd, o = self.obj(p, False)
                src = self.src + '/' + ('nothing' if op['bad'] else self.rng.choice(['b', 'b.git']))
                depth = op['depth'] or None
                if depth:       # git takes no notice of it for a folder
                    src = 'file://' + src
                elif self.rng.random() < .3:
                    src = aug.LocalPath(src)
                with within(cwd):
                    r = o.init(src, depth=depth) if depth or self.rng.random() < .5 else o.init(src)
                    return 'ok' if os.path.realpath(o.repo.working_dir) == os.path.realpath(r.working_dir) == self.at(p) else 'another repository'
            elif k == 'clonefrom':
                cwd, o = self.obj('a', False)
                with within(cwd):
                    src = self.src + '/' + self.rng.choice(['b', 'b.git'])
                    c = o.clone_from('file://' + src, depth=op['depth']) if op['depth'] else o.clone_from(src)
                    return 'ok' if os.path.realpath(c) == self.at(p) == os.path.realpath(c.repo.working_dir) else 'another path'
            elif k == 'rm':
                RepoPath(self.at(p)).rmtree()
                return 'ok'
        except Exception as e:
            return 'refused'

    def head(self, d):
        r = git(d, 'log', '-1', '--format=%s', check=False)
        return known(d, r.split()[1]) if r else 0

    def project(self):
        f, head = {}, {}
        for n in F:
            d = self.at(n)
            f[n] = 2 if os.path.lexists(d + '/.git') else 1 if os.path.isdir(d) else 0
            head[n] = self.head(d) if f[n] == 2 else 0
        for p in PATHS:
            if p not in F and os.path.lexists(self.at(p)):
                f[''] = f'made {p}'
        return dict(f=f, head=head)

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        return dict(f={n: 1 if n in ('', 'a') else 0 for n in F}, head={n: 0 for n in F})

    def random_op(self, rng, st):
        f = st['f']
        while True:
            r, p = rng.random(), rng.choice(F)
            if r < .5:
                return dict(op='ask', p=rng.choice(PATHS))
            if r < .6:
                return dict(op='init', p=rng.choice(F[1:]) if rng.random() < .9 else '')
            if r < .68 and p:
                return dict(op='clone', p=p, **rng.choice([dict(bad=True, depth=0)] + [dict(bad=False, depth=d) for d in (0, 0, 1)]))
            if r < .72 and f['a']:
                return dict(op='clonefrom', p='a/b', depth=rng.choice([0, 0, 1]))
            if r < .8 and p and f[p]:
                return dict(op='rm', p=p)
            if r >= .8:
                w = rng.choice(['rm', 'unrepo', 'unrepo', 'init', 'mkdir', 'commit', 'commit'])
                if w == 'rm' and p and f[p] or w == 'unrepo' and f[p] == 2 or w == 'init' and f[p] != 2 and (p or rng.random() < .2) \
                        or w == 'mkdir' and not f[p] or w == 'commit' and f[p] == 2:
                    return dict(op='outside', what=w, p=p)


INV = ['TypeOK', 'NearestIsNearest']
PROPS = ['NeverNests', 'RefusalsAreNoOps', 'OthersStay']


def check(c):
    b = Repos()
    t = c.model('Repos', dict(MaxOps=3 if c.thorough else 2, Base=True), INV, PROPS,
                expect=['ask/[a/b]', 'ask/not in one', 'init/ok', 'init/refused', 'clone/ok', 'clone/refused', 'clonefrom/ok',
                        'clonefrom/refused', 'rm/ok'])
    asks = [x for x in t if x['op']['op'] == 'ask']
    acts = [x for x in t if x['op']['op'] in ('init', 'clone', 'clonefrom', 'rm')]
    c.replay(b, asks, limit=None if c.thorough else 1200, tag='queries')
    c.replay(b, acts, limit=None if c.thorough else 1000, tag='changes')
    c.walks(b, t, 800 if c.thorough else 80, 25)
    c.record(b, 800 if c.thorough else 120, 40, dict(MaxOps=1000000, Base=True))
    c.assumptions += ['a .git entry is a repository', 'links inside of a repository do not lead out of it']
