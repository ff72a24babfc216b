import os, contextlib, warnings, logging, io
import lib, gitenv, gitrepo
from gitenv import git
warnings.simplefilter('ignore')
gitenv.setup()
import augpathlib as aug
from augpathlib import PackagePath
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
P = ['r', 's', 'st']
FOLDER = dict(r='', s='s/', st='other/st/')
NAME = dict(r='rr', s='s', st='s-t')
MODULE = dict(r='rr', s='s', st='s_t')
FILES = ['r/code', 'r/notes', 's/code', 's/notes', 'st/code', 'st/notes']
TAGS = ['1.0', '1.10', '2nd', 'v3.0', 's-1.0', 's-1.10', 's-old', 's-t-1.0', 's-t-x', 'xs-2.0']
VERS = ['1.9.0', '1.10.0rc2', '1.10.0', '1.10.1rc1']
NOTES = ['notes', 'TODO.org', 'doc/a b.txt']


TEXTS = ['commit {}', "commit {} it's 'x'", 'commit {} "y" \u00fc', "commit {} '", 'commit {} x\n\n commit 0 more']


class Answer:
    def __init__(self, x):
        self.ok = x is not None
        self.status_code = 200 if self.ok else 404
        self.x = x
        self.url = 'no'

    def json(self):
        return self.x


class Web:
    """ in the place of the network """
    def __init__(self, b):
        self.b = b
        self.headers = {}

    def Session(self):
        return self

    def get(self, url, *a, **k):
        b = self.b
        for p in P:
            if url == f'https://pypi.org/pypi/{NAME[p]}/json':
                if not b.pub:
                    return Answer(None)
                key = lambda v: VERS.index(v)
                finals = [v for v in b.pub if 'rc' not in v] or b.pub
                rs = list(b.pub)
                b.rng.shuffle(rs)
                return Answer(dict(info=dict(version=max(finals, key=key), name=NAME[p]), releases={v: [{}] for v in rs}))
        if url == 'https://api.github.com/repos/o/n/releases':
            return Answer([dict(tag_name=t, name='x') for t in b.gh])
        raise lib.Mismatch(f'asked for {url}')


class Release(lib.Binding):
    module = 'Release'

    def start(self, st, rng, root):
        self.rng = rng
        self.root = os.path.realpath(root)
        self.d = self.root + '/' + rng.choice(['repo', 'repo', 's', 'st', 'other'])
        os.mkdir(self.d)
        self.texts = rng.randrange(9)
        self.notes = rng.choice(NOTES)
        self.graft = rng.random() < .4
        self.subs = rng.choice([[], [], ['.sub'], ['.a', '.sub']])
        # every commit merges something that is not there any more
        self.merging = rng.random() < .3
        self.ver, self.man = dict(st['ver']), dict(st['man'])
        self.pub, self.gh = [v for v in VERS if st['pub'][v]], list(st['gh'])
        self.hist, self.at, self.tags = [], 1, {}
        self.store = gitrepo.store()
        snap = {self.file(f): (b'0\n', False) for f in FILES}
        for p in P:
            snap[FOLDER[p] + 'setup.py'] = (b'x\n', False)
            self.setup(p)
            self.write(self.file(p + '/code'), '')
            self.write(self.file(p + '/notes'), '')
            self.manifest(p)
        self.snaps = [snap]
        self.commits = [self.store.commit(snap, (), 'commit 1')]
        for f in st['hist']:
            self.extend(f)
        at = st['at']
        tags = {t: self.commits[i - 1] for t, i in st['tags'].items() if i}
        self.at = at
        self.tags = {t: i for t, i in st['tags'].items()}
        gitrepo.make(self.d, {'main': self.commits[at - 1]}, 'main' if rng.random() < .5 else self.commits[at - 1], None, {}, tags=tags)
        # names of other things that read like tags
        if rng.random() < .3:
            with open(self.d + '/.git/refs/heads/' + rng.choice(['9.9', 's-9.9', 's-t-9.9', '1.0', 's-1.0']), 'wt') as f:
                f.write(self.commits[-1] + '\n')
        with open(self.d + '/.git/config', 'at') as f:
            f.write('[remote "origin"]\n\turl = https://github.com/o/n.git\n')
        self.annotated = rng.random() < .3
        PackagePath._requests = Web(self)

    def stop(self):
        del PackagePath._requests

    def file(self, f):
        p, k = f.split('/')
        return FOLDER[p] + (f'{MODULE[p]}/m.py' if k == 'code' else self.notes)

    def write(self, n, t):
        os.makedirs(os.path.dirname(f'{self.d}/{n}'), exist_ok=True)
        with open(f'{self.d}/{n}', 'wt') as f:
            f.write(t)

    def setup(self, p):
        n, v, m = NAME[p], self.ver[p], MODULE[p]
        self.write(FOLDER[p] + 'setup.py', f'from setuptools import setup\nsetup(name={n!r}, version={v!r}, packages={[m + x for x in self.subs] + [m]!r})\n')
        for x in self.subs:
            self.write(FOLDER[p] + f'{m}/{x[1:]}/__init__.py', '')
        self.write(FOLDER[p] + f'{m}/setup.cfg', '')
        self.write(FOLDER[p] + f'{m}/setup.python', '')
        self.write(FOLDER[p] + f'{m}/__init__.py', '')

    def manifest(self, p):
        f = self.d + '/' + FOLDER[p] + 'MANIFEST.in'
        if self.man[p]:
            with open(f, 'wt') as o:
                o.write('include nothing.txt\n' + (f'recursive-include {MODULE[p]} *.py\n' if self.graft else ''))
        elif os.path.exists(f):
            os.unlink(f)

    def extend(self, f):
        snap = dict(self.snaps[-1])
        i = len(self.commits) + 1
        snap[self.file(f)] = (b'%d\n' % i, False)
        self.snaps.append(snap)
        side = [self.store.commit({}, (), 'commit 0 nothing')] if self.merging else []
        self.commits.append(self.store.commit(snap, (*side, self.commits[-1]), TEXTS[(i + self.texts) % len(TEXTS)].format(i)))
        self.hist.append(f)

    def obj(self, p):
        f = FOLDER[p] + self.rng.choice(['setup.py', f'{MODULE[p]}/m.py', MODULE[p], '', 'nothing/here.txt', self.notes])
        f = os.path.normpath(f'{self.d}/{f}')
        how = self.rng.choice(['abs', 'abs', 'rel', 'dots'])
        if how == 'rel':
            return PackagePath(os.path.relpath(f, self.here))
        if how == 'dots':
            return PackagePath(self.d + '/other/st/' + os.path.relpath(f, self.d + '/other/st'))
        return PackagePath(f)

    def do(self, op):
        k = op['op']
        g = self.d + '/.git'
        if k == 'commit':
            gone = self.commits[self.at:]
            del self.commits[self.at:], self.snaps[self.at:], self.hist[self.at - 1:]
            for t, i in list(self.tags.items()):
                if i > self.at:
                    os.unlink(f'{g}/refs/tags/{t}')
                    self.tags[t] = 0
            self.extend(op['f'])
            self.at += 1
            self.head()
            return 'ok'
        if k == 'checkout':
            self.at = op['i']
            self.head()
            return 'ok'
        if k in ('settag', 'deltag'):
            t = op['t']
            self.tags[t] = self.at if k == 'settag' else 0
            if k == 'settag' and self.annotated:
                git(self.d, 'tag', '-f', '-a', '-m', 'x', t, self.commits[self.at - 1])
            elif k == 'settag':
                with open(f'{g}/refs/tags/{t}', 'wt') as f:
                    f.write(self.commits[self.at - 1] + '\n')
            elif os.path.exists(f'{g}/refs/tags/{t}'):
                os.unlink(f'{g}/refs/tags/{t}')
            return 'ok'
        if k == 'manifest':
            self.man[op['p']] = not self.man[op['p']]
            self.manifest(op['p'])
            return 'ok'
        if k == 'setversion':
            self.ver[op['p']] = op['v']
            self.setup(op['p'])
            return 'ok'
        if k == 'publish':
            if op['v'] not in self.pub:
                self.pub.append(op['v'])
            return 'ok'
        if k == 'ghrelease':
            self.gh.insert(0, op['t'])
            return 'ok'
        self.here = self.rng.choice(['/', self.root, self.d, self.d + '/s'])
        back = os.getcwd()
        os.chdir(self.here)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                return self.ask(k, op, self.obj(op['p']))
        except lib.Mismatch:
            raise
        except Exception as e:
            if os.environ.get('DBG'):
                __import__('traceback').print_exc()
            return 'refused' if k in ('next', 'command') else f'raised {type(e).__name__}'
        finally:
            if os.getcwd() != self.here:
                raise lib.Mismatch('the working directory is another one')
            os.chdir(back)

    def head(self):
        c = self.commits[self.at - 1]
        if self.rng.random() < .5:
            with open(self.d + '/.git/refs/heads/main', 'wt') as f:
                f.write(c + '\n')
            c = 'ref: refs/heads/main'
        with open(self.d + '/.git/HEAD', 'wt') as f:
            f.write(c + '\n')

    def ask(self, k, op, o):
        if k == 'folder':
            fs = [o.folder, o.setup_file.parent, o.working_dir / o.arg_folder.relative_to(os.path.basename(self.d))]
            ds = {os.path.realpath(x) for x in fs}
            if len(ds) != 1:
                return f'not one folder {ds}'
            d = os.path.relpath(ds.pop(), self.d)
            return {'.': 'r', 's': 's', 'other/st': 'st'}.get(d, f'another folder {d}')
        if k == 'tag':
            t = o.tag
        elif k == 'tagversion':
            t = o.version_tag
        elif k == 'version':
            t = o.version_repo
        elif k == 'published':
            t = o.version_latest_released
        elif k == 'next':
            t = o.version_next(op['ph'])
        elif k == 'command':
            c = o.command(op['ph'], 'release') if self.rng.random() < .5 else o.command(next_phase=op['ph'])
            at = {(os.path.basename(self.d) + '/' + f).rstrip('/'): q for q, f in FOLDER.items()}
            c = c.split(' ')
            if c[:3] != ['build-release', 'o', 'n'] or len(c) != 6 or c[4] != NAME[op['p']]:
                return f'another command {c}'
            return at.get(c[3], f'another folder {c[3]}') + ' ' + c[5]
        elif k == 'module':
            try:
                m, i = o.module, o.module_init_file
            except NotImplementedError:
                return 'refused'
            at = {os.path.realpath(f'{self.d}/{FOLDER[q]}{MODULE[q]}'): q for q in P}
            if os.path.realpath(i) != os.path.realpath(m) + '/__init__.py':
                return f'{i} is not the file of {m}'
            return at.get(os.path.realpath(m), f'another module {m}')
        elif k == 'github':
            t = o.tag_latest_github
        elif k == 'githubversion':
            t = o.version_latest_github
        elif k == 'since':
            got = []
            for e in o.commits_since_last_release():
                when, who, h, text = e.split(' ', 3)
                n = int(text.split()[1])
                if n > 1 and text != TEXTS[(n + self.texts) % len(TEXTS)].format(n).split('\n')[0]:
                    return f'another text {text!r}'
                if not self.commits[n - 1].startswith(h) or who != 'n' or not when.startswith('2001-09-09T01:46:40'):
                    return f'another entry {e!r}'
                got.append(n)
            return 'commits' + ''.join(f' {n}' for n in got)
        return 'none' if t is None else str(t)

    def project(self):
        tags = {t: 0 for t in TAGS}
        for t in os.listdir(self.d + '/.git/refs/tags'):
            tags[t] = self.tags[t]
        head = git(self.d, 'rev-parse', 'HEAD').decode().strip() if self.rng.random() < .05 else self.commits[self.at - 1]
        if head != self.commits[self.at - 1]:
            raise lib.Mismatch('another commit is checked out')
        want = {'.git', 'setup.py', 'rr', 's', 'other', self.notes.split('/')[0]}
        if set(os.listdir(self.d)) - {'MANIFEST.in'} != want:
            raise lib.Mismatch(f'left behind: {set(os.listdir(self.d)) - want}')
        return dict(hist=list(self.hist), at=self.at, tags=tags,
                    man={p: os.path.exists(f'{self.d}/{FOLDER[p]}MANIFEST.in') for p in P},
                    ver=dict(self.ver), pub={v: v in self.pub for v in VERS}, gh=list(self.gh))

    def is_init(self, pre):
        return True

    def random_init(self, rng):
        return dict(hist=['s/code'], at=2, tags={t: 0 for t in TAGS}, man={p: True for p in P}, ver={p: '0.9' for p in P}, pub={v: False for v in VERS}, gh=[])

    def random_op(self, rng, st):
        x, p = rng.random(), rng.choice(P)
        n = len(st['hist'])
        if x < .2 and n < 5:
            return dict(op='commit', f=rng.choice(FILES))
        if x < .25:
            return dict(op='checkout', i=rng.randint(1, n + 1))
        if x < .4:
            return dict(op='settag', t=rng.choice(TAGS))
        if x < .43:
            return dict(op='deltag', t=rng.choice(TAGS))
        if x < .46:
            return dict(op='manifest', p=p)
        if x < .48:
            return dict(op='setversion', p=p, v=rng.choice(['0.9', '1.10.0']))
        if x < .5:
            return dict(op='publish', v=rng.choice(VERS))
        if x < .53 and len(st['gh']) < 3:
            return dict(op='ghrelease', t=rng.choice(TAGS))
        if x < .75:
            return dict(op='since', p=p)
        if x < .88:
            return dict(op=rng.choice(['tag', 'tagversion']), p=p)
        if x < .91:
            return dict(op=rng.choice(['next', 'command']), p=p, ph=rng.choice(['micro', 'minor', 'dev']))
        return dict(op=rng.choice(['folder', 'version', 'published', 'module', 'github', 'githubversion']), p=p)


INV = ['TypeOK', 'OneOwner', 'Nearest', 'NothingMissed', 'NothingOfOthers']
PROPS = ['ReleasedIsEmpty', 'OthersTagsDoNotCount', 'AskingChangesNothing']


def check(c):
    b = Release()
    t = c.model('Release', dict(MaxOps=1, MaxHist=3, Few=False), INV, PROPS,
                expect=['tag/s-1.10', 'tag/none', 'since/commits 3', 'tagversion/1.0', 'version/1.10.0', 'published/1.10.1rc1', 'next/refused',
                        'next/1.9.1', 'github/s-t-1.0', 'githubversion/none', 'folder/st', 'module/s', 'module/refused', 'command/s 1.9.1'])
    c.model('Release', dict(MaxOps=3 if c.thorough else 2, MaxHist=3, Few=True), INV, PROPS, emit=False, workers=8)
    asks = [x for x in t if x['op']['op'] in ('tag', 'tagversion', 'since')]
    rest = [x for x in t if x['op']['op'] not in ('tag', 'tagversion', 'since', 'commit', 'checkout', 'settag', 'deltag')]
    c.replay(b, asks, limit=None if c.thorough else 1500, tag='tags')
    c.replay(b, rest, limit=None if c.thorough else 500, tag='versions')
    c.record(b, 600 if c.thorough else 100, 50, dict(MaxOps=1000000, MaxHist=5, Few=True))
    c.assumptions += ['merges only of what changes nothing', 'MANIFEST.in lists what is in a release that setup() does not', 'the package index and GitHub are stand-ins']
