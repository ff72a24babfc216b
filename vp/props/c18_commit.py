import os, contextlib, datetime, warnings
import lib, gitenv, gitrepo as g
from gitenv import git
warnings.simplefilter('ignore')
gitenv.setup()
import augpathlib as aug
from augpathlib import RepoPath, exceptions as exc
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
FILES = ['a', 'd/b', 'd/c']
REFS = ['work', 'index', 'HEAD', 'HEAD~1', 'HEAD~2']
NAMED = {'work': None, 'index': '', 'HEAD': 'HEAD', 'HEAD~1': 'HEAD~1', 'HEAD~2': 'HEAD~2'}


@contextlib.contextmanager
def within(d):
    here = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(here)


def forget():
    """ close what is left of repositories that are gone """
    for k in list(RepoPath._repos):
        RepoPath._repos.pop(k).close()


class Commit(lib.Binding):
    module = 'Commit'
    files = FILES

    def snap(self, m):
        return {self.names[f]: self.table[n] for f, n in m.items() if n}

    def numbers(self, snap):
        back = {v: k for k, v in self.names.items()}
        nums = {v: k for k, v in self.table.items()}
        got = {f: 0 for f in self.fs}
        for n, x in snap.items():
            if back.get(n) not in got or x not in nums:
                got['what is ' + n] = repr(x)[:60]
            else:
                got[back[n]] = nums[x]
        return got

    def start(self, st, rng, root):
        forget()
        self.rng = rng
        self.d = os.path.realpath(root) + '/r'
        self.fs = sorted(st['wt'])
        self.table = rng.choice(g.TABLES)
        self.names = rng.choice(g.NAMES)
        self.first = None
        s = g.store()
        # the user's stashes: of something that has nothing to do with anything here
        c = s.commit({'base': (b'base', False)}, message='base')
        i = s.commit({'base': (b'index', False)}, (c,), message='index on main')
        self.kept = [(s.commit({'base': (b'%d' % k, False)}, (c, i), message=f'On main: s{k}'), f'On main: s{k}') for k in range(2)]
        chain = s.chain([self.snap(h) for h in st['hist']])
        os.mkdir(self.d)
        g.make(self.d, {'main': chain[-1] if chain else None}, 'main', self.snap(st['idx']) if chain or any(st['idx'].values()) else None,
               self.snap(st['wt']), self.kept[:st['st']])
        os.symlink('r', self.d + '-alias')
        os.symlink('r/' + self.names['d'], self.d + '-sub')
        if rng.random() < .3:       # what is ignored is committed all the same when it is asked for
            os.makedirs(self.d + '/.git/info', exist_ok=True)
            with open(self.d + '/.git/info/exclude', 'w') as f:
                f.write('*')

    def project(self):
        d = self.d
        if os.path.exists(d + '/.git/index.lock'):
            raise lib.Mismatch('the index is locked')
        with open(d + '/.git/HEAD') as f:
            if f.read() != 'ref: refs/heads/main\n':
                raise lib.Mismatch('another branch')
        st = g.stashes(d)
        if st != self.kept[:len(st)]:
            raise lib.Mismatch('stashes')
        if os.path.exists(d + '/.git/refs/heads') and sorted(os.listdir(d + '/.git/refs/heads')) not in ([], ['main']):
            raise lib.Mismatch('branches')
        hist = g.history(d) if os.path.exists(d + '/.git/refs/heads/main') else []
        return dict(hist=[self.numbers(g.snapshot(d, c)) for c in hist], idx=self.numbers(g.index(d)),
                    wt=self.numbers(g.worktree(d)), st=len(st))

    def path(self, p):
        """ (working directory, path) """
        t = self.d if p == '.' else f'{self.d}/{self.names[p]}'
        r = self.rng.random()
        if r < .5:
            return '.', RepoPath(t)
        elif r < .57:
            return '.', RepoPath(t.replace(self.d, self.d + '-alias', 1))
        elif r < .63 and p != '.' and os.path.isdir(self.d + '-sub'):
            return '.', RepoPath(f'{self.d}-sub/../{self.names[p]}')
        elif r < .8:
            return self.d, RepoPath(os.path.relpath(t, self.d))
        else:
            return os.path.dirname(self.d), RepoPath(os.path.relpath(t, os.path.dirname(self.d)))

    def do(self, op):
        k = op['op']
        if k == 'outside':
            return self.outside(op)
        cwd, p = self.path(op['p'])
        with within(cwd):
            if k == 'ask':
                return self.ask(p, op)
            if k == 'add':
                try:
                    p.add_index()
                except Exception:
                    return 'refused'
                return 'ok'
            before = g.history(self.d)
            message = self.rng.choice(['m', 'some\nlines\n', 'm\u00fc', '#x'])
            date = self.rng.choice([None, None, '2001-02-03T04:05:06'])
            a = (message,) if date is None and self.rng.random() < .5 else None
            kw = {} if a else dict(message=message, date=date)
            f = p.commit if k == 'commit' else p.commit_from_working_tree
            try:
                c = f(*a) if a else f(**kw)
            except Exception:
                return 'refused'
        now = g.history(self.d)
        if now != before + [c.hexsha]:
            return 'another commit'
        got = git(self.d, 'log', '-1', '--format=%B%x00%ai%x00').split(b'\0')
        if got[0].decode().strip() != message.strip():
            return f'message {got[0]}'
        if date and not got[1].startswith(b'2001-02-03 04:05:06'):
            return f'date {got[1]}'
        return 'ok'

    def ask(self, p, op):
        q = op['q']
        try:
            if q == 'show':
                r = p.show(NAMED[op['a']]) if op['a'] != 'index' or self.rng.random() < .5 else p.show()
                return next((str(n) for n, (b, x) in self.table.items() if b == r), repr(r)[:60])
            if q == 'latest':
                return self.number(p.latest_commit())
            if q == 'commits':
                return ''.join(self.number(c) + ' ' for c in p.commits())
            if q == 'diff':
                r = p.diff(NAMED[op['b']], NAMED[op['a']], create_patch=self.rng.random() < .3)
            else:
                r = {'modified': p.modified, 'indexed': p.indexed, 'uncommitted': p.has_uncommitted_changes}[q]()
        except Exception as e:
            if os.environ.get('DBG'):
                import traceback; traceback.print_exc()
            return 'refused'
        if not r:
            return 'no'
        # what is reported is about the path
        name = '.' if op['p'] == '.' else self.names[op['p']]
        for x in (r.a_path, r.b_path):
            if x is not None and name != '.' and x != name and not x.startswith(name + '/'):
                return f'it is about {x}'
        if op['p'] in FILES and (q == 'indexed' or q == 'diff' and 'work' not in (op['a'], op['b'])):
            return f'{self.side(r.a_blob, r.a_mode)}>{self.side(r.b_blob, r.b_mode)}'
        return 'yes'

    def side(self, blob, mode):
        if blob is None:
            return 0
        x = blob.data_stream.read(), (mode or blob.mode) == 0o100755
        return next((n for n, y in self.table.items() if y == x), repr(x)[:60])

    def number(self, c):
        h = g.history(self.d)
        return str(h.index(c.hexsha) + 1) if c.hexsha in h else 'unknown'

    def outside(self, op):
        w, d = op['what'], self.d
        if w == 'write':
            g.write(d, self.names[op['p']], self.table[op['n']] if op['n'] else None)
        elif w == 'stage':
            n = self.names[op['p']]
            if op['n']:
                b, x = self.table[op['n']]
                git(d, 'update-index', '--add', '--cacheinfo', f'{"100755" if x else "100644"},{g.store().blob(b)},{n}')
            else:
                git(d, 'update-index', '--force-remove', '--', n)
        elif w == 'stash':
            g.drop_stashes(d)
            for c, m in self.kept[:op['n']]:
                git(d, 'stash', 'store', '-m', m, c)
        elif w == 'commit':
            git(d, 'commit', '-q', '--allow-empty', '-m', 'outside')
        elif w == 'reset':
            git(d, 'reset', '-q', '--soft', 'HEAD~1')
        return 'ok'

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        r = lambda: {f: rng.choice([0, 0, 1, 2, 3, 4]) for f in FILES}
        hist = [r() for _ in range(rng.randrange(3))]
        idx = r() if not hist or rng.random() < .3 else dict(hist[-1])
        wt = r() if rng.random() < .3 else dict(idx)
        return dict(hist=hist, idx=idx, wt=wt, st=rng.randrange(3) if hist else 0)

    def random_op(self, rng, st):
        while True:
            r, p = rng.random(), rng.choice(FILES + ['.', 'd'])
            if r < .12 and len(st['hist']) < 8:
                return dict(op=rng.choice(['commit', 'committree']), p=p)
            if r < .16:
                return dict(op='add', p=p)
            if r < .3:
                return dict(op='ask', q=rng.choice(['modified', 'indexed', 'uncommitted', 'latest', 'commits']), p=p)
            if r < .4:
                return dict(op='ask', q='show', a=rng.choice(REFS), p=rng.choice(FILES))
            if r < .5:
                return dict(op='ask', q='diff', a=rng.choice(REFS), b=rng.choice(REFS), p=p)
            if r < .85:
                return dict(op='outside', what=rng.choice(['write', 'write', 'stage']), p=rng.choice(FILES), n=rng.randrange(5))
            if r < .9 and st['hist']:
                return dict(op='outside', what='stash', n=rng.randrange(3))
            if r < .95 and len(st['hist']) < 8:
                return dict(op='outside', what='commit')
            if r >= .95 and len(st['hist']) > 1:
                return dict(op='outside', what='reset')


INV = ['TypeOK']
PROPS = ['OnlyThatPath', 'TheRestStays', 'AsksChangeNothing', 'CleanAfterwards']


def check(c):
    b = Commit()
    k = dict(MaxOps=1, Contents={1, 2}, Files={'a', 'd/b'}, MaxHist=5, Wide=False)
    t = c.model('Commit', k, INV, PROPS, expect=['commit/ok', 'commit/refused', 'committree/ok', 'committree/refused', 'add/ok',
                                                 'ask/yes', 'ask/no', 'ask/refused', 'ask/1'])
    asks = [x for x in t if x['op']['op'] == 'ask']
    acts = [x for x in t if x['op']['op'] != 'ask']
    c.replay(b, acts, limit=None if c.thorough else 1500, tag='commits')
    c.replay(b, asks, limit=None if c.thorough else 1500, tag='queries')
    w = c.model('Commit', dict(k, Contents={1}, Wide=True), INV, PROPS, expect=['ask/2'])
    c.replay(b, w, limit=20000 if c.thorough else 800, tag='two commits')
    c.walks(b, t + w, 400 if c.thorough else 50, 20)
    c.record(b, 600 if c.thorough else 100, 40, dict(k, MaxOps=1000000, Contents={1, 2, 3, 4}, Files=set(FILES), MaxHist=1000))
    c.assumptions += ['nothing else uses the repository meanwhile', 'no conflicts are being resolved', 'no attributes, filters or hooks']
