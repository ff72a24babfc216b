import os, shutil, warnings
import lib, gitenv, gitrepo as g
from gitenv import git
warnings.simplefilter('ignore')
gitenv.setup()
import augpathlib as aug
from augpathlib import RepoPath, exceptions as exc
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
FILES = ['a', 'b', 'i']
BRANCHES = ['main', 'oth']
REFS = BRANCHES + ['t', 'r']
# files which are named like refs, or like patterns
NAMES = [{'a': 'a', 'b': 'd/b', 'i': 'x.ign'}, {'a': 'oth', 'b': 'main', 'i': 'd/x.ign'}, {'a': 'd/*', 'b': '-t', 'i': 'n/n/x.ign'},
         {'a': 't/a', 'b': 'origin/r', 'i': 'd d.ign/y'}]


# what the refs are called, and others whose names look like them
CALLED = [{'main': 'main', 'oth': 'oth', 't': 't', 'r': 'r'}, {'main': 'x/main', 'oth': 'f/x/main', 't': 'v/oth', 'r': 'oth'},
          {'main': 'main', 'oth': 'v/t', 't': 't', 'r': 'main'}]
OTHERS = ['a/oth', 'not-main', 'zt', 'origin/t', 'b/f/x/main']


class Visit(lib.Binding):
    module = 'Visit'

    def snap(self, m):
        return {self.names[f]: self.table[n] for f, n in m.items() if n}

    def numbers(self, snap):
        back = {v: k for k, v in self.names.items()}
        nums = {v: k for k, v in self.table.items()}
        got = {f: 0 for f in FILES}
        for n, x in snap.items():
            if n not in back or x not in nums:
                got['what is ' + n] = repr(x)[:60]
            else:
                got[back[n]] = nums[x]
        return got

    def start(self, st, rng, root):
        for k in list(RepoPath._repos):
            RepoPath._repos.pop(k).close()
        self.rng = rng
        self.d = d = os.path.realpath(root) + '/r'
        self.table = rng.choice(g.TABLES)
        self.names = rng.choice(NAMES)
        self.called = rng.choice(CALLED)
        full = {'t': 'refs/tags/', 'r': 'refs/remotes/origin/'}
        self.full = {r: full.get(r, 'refs/heads/') + n for r, n in self.called.items()}
        self.stack, self.saved, self.refs = [], [], {}
        s = self.store = g.store()
        stack = st['stack']
        now = stack[0] if stack else st
        base = s.commit({'base': (b'base', False)}, message='base')
        index = s.commit({'base': (b'index', False)}, (base,), message='index on main')
        self.mine = [(s.commit({'base': (b'%d' % k, False)}, (base, index), message=f'On main: s{k}'), f'On main: s{k}') for k in range(6)]
        self.left = s.commit({'base': (b'left', False)}, (base, index), message='On oth: left')
        self.tips = {}
        for r, m in st['tip'].items():
            self.tips[r] = s.commit(self.snap(m), message=r)
        self.tips['lost0'] = base
        os.mkdir(d)
        at = now['at']
        g.make(d, {self.called[b]: self.tips[b] for b in BRANCHES}, self.called[at] if at in BRANCHES else self.tips[at], self.snap(now['idx']), self.snap(now['wt']),
               self.mine[:st['mine']])
        self.n = st['mine']
        for n, c in [(self.full[r], self.tips[r]) for r in ('t', 'r')] + [('refs/heads/' + n, self.tips['lost0']) for n in OTHERS]:
            os.makedirs(os.path.dirname(f'{d}/.git/{n}'), exist_ok=True)
            with open(f'{d}/.git/{n}', 'wt') as f:
                f.write(c + '\n')
        if rng.random() < .5:
            # a commit of a remote comes after the one that no ref leads to
            os.makedirs(d + '/.git/refs/remotes/up')
            with open(d + '/.git/refs/remotes/up/later', 'wt') as f:
                f.write(s.commit({'base': (b'later', False)}, (self.tips['lost'],), message='later') + '\n')
        with open(d + '/.git/info/exclude', 'wt') as f:
            f.write('*.ign\n')
        # a branch that is checked out somewhere else
        os.makedirs(d + '/.git/worktrees/h')
        os.mkdir(d + '-h')
        for n, t in (('worktrees/h/HEAD', 'ref: refs/heads/held\n'), ('worktrees/h/commondir', '../..\n'),
                     ('worktrees/h/gitdir', d + '-h/.git\n'), ('refs/heads/held', self.tips['main'] + '\n')):
            with open(f'{d}/.git/{n}', 'wt') as f:
                f.write(t)
        with open(d + '-h/.git', 'wt') as f:
            f.write(f'gitdir: {d}/.git/worktrees/h\n')
        self.p = RepoPath(d)
        self.repo = self.p.repo
        self.extra = 0
        for k, v in enumerate(stack):
            if self.enter(v['ref']) != 'ok':
                raise lib.Mismatch(f'no way into {v["ref"]}')
            self.set(stack[k + 1] if k + 1 < len(stack) else st)
        self.saved = list(stack)
        dirty = sum(v['idx'] != st['tip'][v['at']] or v['wt'] != st['tip'][v['at']] for v in stack)
        for _ in range(st['extra'] - dirty):
            self.leftover()

    def leftover(self):
        """ a stash that an earlier visit left behind: under all the others """
        l = self.d + '/.git/logs/refs/stash'
        c = self.left
        t = open(l).read() if os.path.exists(l) else ''
        with open(l, 'wt') as f:
            f.write(f'{"0" * 40} {c} n <e@e> {g.DATE}\tOn oth: left\n')
            f.write(t.replace('0' * 40, c, 1))
        if not t:
            with open(self.d + '/.git/refs/stash', 'wt') as f:
                f.write(c + '\n')

    def set(self, st):
        for f, n in self.names.items():
            g.write(self.d, n, None)
        for n, x in self.snap(st['wt']).items():
            g.write(self.d, n, x)
        shutil.copyfile(self.store.index(self.snap(st['idx'])), self.d + '/.git/index')

    def project(self):
        d = self.d
        if os.path.exists(d + '/.git/index.lock'):
            raise lib.Mismatch('the index is locked')
        tip = {}
        back = {v: k for k, v in self.full.items()}
        for l in git(d, 'for-each-ref', '--format=%(refname) %(objectname)').decode().splitlines():
            n, c = l.split()
            if n in ('refs/heads/held', 'refs/remotes/up/later') or n[11:] in OTHERS and c == self.tips['lost0']:
                continue
            if n != 'refs/stash':
                k = back.get(n, n)
                tip[k] = self.numbers(g.snapshot(d, c))
                self.tips[k] = c
        tip['lost'] = self.numbers(g.snapshot(d, self.tips['lost']))
        with open(d + '/.git/HEAD') as f:
            h = f.read().strip()
        if h.startswith('ref: refs/heads/'):
            at = back.get(h[5:], h)
        else:
            at = next((r for r in ('t', 'r', 'lost') if self.tips[r] == h), h)
            if at == h:
                # a branch and nothing else is there by name
                at = 'detached ' + next((r for r in BRANCHES if self.tips[r] == h), h)
        st = g.stashes(d)
        mine = [x for x in st if x in self.mine]
        if mine != self.mine[:len(mine)]:
            raise lib.Mismatch(f'stashes {mine}')
        return dict(tip=tip, at=at, idx=self.numbers(g.index(d)), wt=self.numbers(g.worktree(d)), stack=self.saved, mine=len(mine),
                    extra=len(st) - len(mine))

    def ref(self, name):
        if name in self.refs and self.rng.random() < .5:
            return self.refs[name]
        repo = self.repo if self.rng.random() < .5 else self.p.repo
        git_ = RepoPath._git
        if name == 'none':
            k, n = self.rng.choice([(git_.Head, 'heads/none'), (git_.TagReference, 'tags/none'), (git_.RemoteReference, 'remotes/origin/none')])
            r = k(repo, 'refs/' + n)
        elif self.rng.random() < .5:
            n = self.called.get(name, name)
            r = repo.getRef('origin/' + n if name == 'r' else n)
        else:
            k = git_.TagReference if name == 't' else git_.RemoteReference if name == 'r' else git_.Head
            r = k(repo, self.full.get(name, 'refs/heads/' + name))
        self.refs[name] = r
        return r

    def enter(self, name):
        r = self.ref(name)
        try:
            got = r.__enter__()
        except Exception as e:
            if os.environ.get('DBG'):
                import traceback; traceback.print_exc()
            return 'refused'
        if got is not r:
            return 'another object'
        self.stack.append(r)
        return 'ok'

    def do(self, op):
        k = op['op']
        if k == 'enter':
            st = self.project()
            res = self.enter(op['ref'])
            if res == 'ok':
                self.saved = self.saved + [dict(ref=op['ref'], at=st['at'], idx=st['idx'], wt=st['wt'])]
            return res
        elif k == 'leave':
            r = self.stack.pop()
            self.saved = self.saved[:-1]
            try:
                if op['exc']:
                    e = self.rng.choice([ValueError, KeyboardInterrupt, SystemExit, GeneratorExit, OSError])('x')
                    got = r.__exit__(type(e), e, None)
                else:
                    got = r.__exit__(None, None, None)
            except Exception as e:
                if os.environ.get('DBG'):
                    import traceback; traceback.print_exc()
                return f'failed {type(e).__name__}'
            return 'the exception is lost' if got and op['exc'] else 'ok'
        elif k == 'name':
            r = self.p.repo.currentRefName()
            if r is None:
                return 'none'
            if self.project()['at'] == 'r':
                # some name of it
                return 'r' if git(self.d, 'rev-parse', r).decode().strip() == self.tips['r'] else f'{r} is something else'
            r = str(r)
            return next((k for k, n in self.called.items() if k != 'r' and n == r), r)
        w, d = op['what'], self.d
        if w == 'write':
            g.write(d, self.names[op['f']], self.table[op['n']] if op['n'] else None)
        elif w == 'stage':
            n = self.names[op['f']]
            if op['n']:
                b, x = self.table[op['n']]
                git(d, 'update-index', '--add', '--cacheinfo', f'{"100755" if x else "100644"},{self.store.blob(b)},{n}')
            else:
                git(d, 'update-index', '--force-remove', '--', n)
        elif w == 'commit':
            git(d, 'commit', '-q', '--allow-empty', '-m', 'outside')
        elif w == 'stash':
            c, m = self.mine[self.n]
            git(d, 'stash', 'store', '-m', m, c)
            self.n += 1
        return 'ok'

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        r = lambda: dict(a=rng.randrange(5), b=rng.randrange(5), i=0)
        while True:
            tip = {x: r() for x in REFS + ['lost']}
            if len({str(x) for x in tip.values()}) == 5:
                break
        at = rng.choice(['main', 'main', 'oth', 'lost'])
        idx = r() if rng.random() < .4 else dict(tip[at])
        wt = r() if rng.random() < .4 else dict(idx)
        wt['i'] = rng.choice([0, 0, 1, 2])
        return dict(tip=tip, at=at, idx=idx, wt=wt, stack=[], mine=rng.randrange(3), extra=0)

    def random_op(self, rng, st):
        while True:
            r = rng.random()
            if r < .2 and len(st['stack']) < 4:
                return dict(op='enter', ref=rng.choice(REFS * 4 + ['none', 'held']))
            if r < .4 and st['stack']:
                return dict(op='leave', exc=rng.random() < .3)
            if r < .45:
                return dict(op='name')
            if r < .65:
                return dict(op='outside', what='write', f=rng.choice(FILES), n=rng.randrange(5))
            if r < .85:
                return dict(op='outside', what='stage', f=rng.choice(FILES[:2]), n=rng.randrange(5))
            if r < .95 and st['at'] in BRANCHES and all(v['at'] != st['at'] for v in st['stack']):
                # what the refs are stays different
                if st['idx'] not in st['tip'].values():
                    return dict(op='outside', what='commit')
            if r >= .95 and st['mine'] < 6:
                return dict(op='outside', what='stash')


INV = ['TypeOK', 'Kept']
PROPS = ['CleanOnEntering', 'BackOnLeaving', 'StashesStay', 'RefusalsAreNoOps', 'Unwinds']


def check(c):
    b = Visit()
    k = dict(MaxOps=2, Contents={1, 2}, Few=False)
    t = c.model('Visit', k, INV, PROPS, expect=['enter/ok', 'enter/refused', 'leave/ok', 'name/t'])
    c.replay(b, [x for x in t if x['op']['op'] == 'enter'], limit=None if c.thorough else 500, tag='entering')
    c.replay(b, [x for x in t if x['op']['op'] == 'leave'], limit=None if c.thorough else 500, tag='leaving')
    w = c.model('Visit', dict(k, MaxOps=4 if c.thorough else 3, Few=True), INV, PROPS, expect=['leave/ok'])
    c.replay(b, [x for x in w if x['op']['op'] != 'outside'], limit=20000 if c.thorough else 500, tag='nested')
    c.walks(b, w, 300 if c.thorough else 40, 20)
    c.record(b, 600 if c.thorough else 50, 40, dict(k, MaxOps=1000000, Contents={1, 2, 3, 4}, Few=False))
    c.assumptions += ['nothing else uses the repository meanwhile', 'the branch that was left does not move during the visit',
                      'no conflicts are being resolved', 'no attributes, filters or hooks']
