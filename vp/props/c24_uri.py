import os, contextlib, shutil, warnings, random, pathlib, subprocess
from urllib.parse import urlsplit, unquote_to_bytes
import lib, gitenv
from gitenv import git
warnings.simplefilter('ignore')
gitenv.setup()
import augpathlib as aug
from augpathlib import RepoPath
aug.utils.log.setLevel('CRITICAL')
aug.utils.log.disabled = True
NAMES = ['repo', 'my.repo', 'site.js', '.github', 'a_b-c.git.x', 'Repo']
FORMS = dict(zip(
    "https https.git https/ https.git/ http.git https-user.git https-token https-port.git https-caps.git scp scp.git scp-abs.git "
    "scp-nouser.git scp-other.git ssh ssh.git ssh-port.git git.git".split(),
    "https://H/o/N https://H/o/N.git https://H/o/N/ https://H/o/N.git/ http://H/o/N.git https://me@H/o/N.git https://x:ghp_1@H/o/N "
    "https://H:443/o/N.git HTTPS://C/o/N.git git@H:o/N git@H:o/N.git git@H:/o/N.git H:o/N.git org-12@H:o/N.git ssh://git@H/o/N "
    "ssh://git@H/o/N.git ssh://git@H:22/o/N.git git://H/o/N.git".split()))
HOSTS = ['github.com', 'github.company.com', 'gitlab.com', 'notgithub.com', 'github.com.example.org']
LOCAL = ['path', 'path/', 'path/.git', 'link']
NOWHERE = ['none', 'bare', 'within', 'gone', 'relative', 'file']
HEADS = ['main', 'f/x', 'detached']
REFS = ['', 'HEAD', 'main', 'f/x', 'tag', 'v/1', 'sha', 'short', 'commit', 'nope']
PATHS = ['.', 'a', 'a/b', 'odd', 'd/odd', 'gone']
ODD = ['x y', 'n#1.txt', 'what?', '100%', '%41', '\u00fcber', 'a+b&c=d', "q'q", 'w:x', '\udcff', ';p', '-x', 'a@b', 'x~t', 'tab\tnew\nline', '[x]', '\\']


def made():
    h = gitenv.setup() + '/uri'
    if not os.path.isdir(h):
        os.makedirs(h + '/t')
        git(h + '/t', 'init', '-q')
        tree = git(h + '/t', 'write-tree').strip().decode()
        c = git(h + '/t', 'commit-tree', tree, '-m', 'x').strip().decode()
        for r in ('refs/heads/main', 'refs/heads/f/x', 'refs/tags/tag', 'refs/tags/v/1'):
            git(h + '/t', 'update-ref', r, c)
        with open(h + '/sha', 'wt') as f:
            f.write(c)
    with open(h + '/sha') as f:
        return h + '/t', f.read()


class Uri(lib.Binding):
    module = 'Uri'

    def start(self, st, rng, root):
        self.rng = rng
        self.root = os.path.realpath(root)
        self.src, self.sha = made()
        self.oddname = rng.choice(ODD)
        self.base = self.root + rng.choice(['/base', '/b.git', '/b a#'])
        self.url, self.head, self.memo = {}, {}, {}
        os.mkdir(self.base)
        for r in 'glm':
            shutil.copytree(self.src, self.at(r))
            os.symlink(self.at(r), self.at(r) + '-link')
            d = self.at(r)
            os.mkdir(d + '/d')
            os.mkdir(d + '/a')
            for n in ('a/b', self.oddname, 'd/' + self.oddname):
                with open(f'{d}/{n}', 'wb'):
                    pass
        for r in 'glm':
            self.set(r, st['url'][r])
            self.checkout(r, st['head'][r])

    def at(self, r):
        return f'{self.base}/{r}'

    def text(self, u):
        f, n = u['form'], u['name']
        if f in FORMS:
            c = ''.join(x.upper() if i % 2 else x for i, x in enumerate(u['host']))
            return ''.join(dict(H=u['host'], C=c, N=n).get(x, x) for x in FORMS[f].replace('HTTPS', '\0')).replace('\0', 'HTTPS')
        return {'path': self.at(n), 'path/': self.at(n) + '/', 'path/.git': self.at(n) + '/.git', 'link': self.at(n) + '-link',
                'within': self.at('m') + '/d', 'bare': self.root + '/bare.git', 'gone': self.root + '/gone',
                'relative': f'../{n}', 'file': f'file://{self.at(n)}'}[f]

    def set(self, r, u):
        """ git keeps it in a file: written as git writes it """
        lines = []
        with open(self.at(r) + '/.git/config') as f:
            keep = True
            for x in f:
                if x.startswith('['):
                    keep = not x.startswith('[remote')
                if keep:
                    lines.append(x)
        if self.rng.random() < .4:
            lines.append('[remote "aside"]\n\turl = https://github.com/else/where.git\n')
        if u['form'] != 'none':
            t = self.text(u)
            if t.endswith('/bare.git') and not os.path.isdir(t):
                shutil.copytree(self.src + '/.git', t)
                with open(t + '/config', 'at') as f:
                    f.write('\tbare = true\n')
            lines.append('[remote "origin"]\n\turl = "%s"\n' % t.replace('\\', '\\\\'))
            if self.rng.random() < .3:
                lines.append('\tpushurl = git@github.com:push/to.git\n')
            if self.rng.random() < .2:
                lines.append('\turl = https://github.com/second/one.git\n')
        if self.rng.random() < .4:
            lines.append('[remote "zz"]\n\turl = git@github.com:z/z.git\n')
        with open(self.at(r) + '/.git/config', 'wt') as f:
            f.writelines(lines)
        self.url[r] = u

    def checkout(self, r, h):
        with open(self.at(r) + '/.git/HEAD', 'wt') as f:
            f.write((self.sha if h == 'detached' else f'ref: refs/heads/{h}') + '\n')
        self.head[r] = h

    def real(self, p):
        return p.replace('odd', self.oddname)

    def obj(self, r, p):
        rng = self.rng
        f = os.path.normpath(f'{self.at(r)}/{self.real(p)}')
        how = rng.choice(['abs', 'abs', 'rel', 'dots', 'here'])
        cwd = '/'
        if how == 'rel':
            cwd = self.root
            f = os.path.relpath(f, cwd)
        elif how == 'here':
            cwd = self.at(r)
            f = os.path.relpath(f, cwd)
        elif how == 'dots':
            f = f'{self.at("m")}/d/' + os.path.relpath(f, f'{self.at("m")}/d')
        if (cwd, f) in self.memo and rng.random() < .5:
            return cwd, self.memo[cwd, f]
        self.memo[cwd, f] = o = RepoPath(f)
        return cwd, o

    def read(self, what, a):
        """ the other way around: what an address says """
        if not isinstance(a, str):
            return f'not an address: {a!r}'
        u = urlsplit(a)
        host = {'human': 'github.com', 'machine': 'raw.githubusercontent.com', 'api': 'api.github.com'}[what]
        if (u.scheme, u.netloc) != ('https', host) or u.query or u.fragment:
            return f'another address {a!r}'
        parts = u.path.split('/')
        if parts[0] or '' in parts[1:]:
            return f'another address {a!r}'
        parts = [os.fsdecode(unquote_to_bytes(x)) for x in parts[1:]]
        if what == 'api':
            return f'api {"/".join(parts[1:])}' if parts[0] == 'repos' else f'another address {a!r}'
        if what == 'human':
            if parts[2] != 'blob':
                return f'another address {a!r}'
            del parts[2]
        rest = parts[2:]
        for ref, real in [('sha', self.sha), ('short', self.sha[:8])] + [(x, x) for x in ('main', 'f/x', 'tag', 'v/1', 'nope')]:
            q = real.split('/')
            if rest[:len(q)] == q:
                p = '/'.join(rest[len(q):]) or '.'
                for x in PATHS:
                    if p == self.real(x):
                        return f'{what} {parts[0]}/{parts[1]} {ref} {x}'
                return f'{what} {parts[0]}/{parts[1]} {ref} another path {p!r}'
        return f'another ref {rest!r}'

    def do(self, op):
        k = op['op']
        if k == 'url':
            self.set(op['r'], op['u'])
            return 'ok'
        if k == 'checkout':
            self.checkout(op['r'], op['h'])
            return 'ok'
        if k == 'clonepath':
            return self.clonepath(op['u'])
        cwd, o = self.obj(op['r'], op['p'])
        here = os.getcwd()
        os.chdir(cwd)
        try:
            if op['what'] == 'api':
                end = self.rng.choice(['', '', '/releases', '/git/refs'])
                a = o.remote_uri_api(end) if end or self.rng.random() < .5 else o.remote_uri_api()
                if end and a.endswith(end):
                    a = a[:-len(end)]
                elif end:
                    return f'no end {a!r}'
            else:
                f = o.remote_uri_human if op['what'] == 'human' else o.remote_uri_machine
                ref = op['ref']
                if ref == 'commit':
                    ref = o.repo.commit(self.rng.choice(['HEAD', self.sha, 'tag', 'f/x']))
                elif ref == 'sha':
                    ref = self.sha
                elif ref == 'short':
                    ref = self.sha[:8]
                a = self.rng.choice([f, lambda: f(None), lambda: f(ref=None)])() if ref == '' and self.rng.random() < .7 else \
                    f(ref) if self.rng.random() < .5 else f(ref=ref)
        except Exception as e:
            if os.environ.get('DBG'):
                __import__('traceback').print_exc()
            return 'refused'
        finally:
            os.chdir(here)
        return self.read(op['what'], a)

    def clonepath(self, u):
        f, n = u['form'], u['name']
        if u['host'] == 'local':
            d = f'{self.root}/from{len(os.listdir(self.root))}'
            d += self.rng.choice(['', '.git', ' x'])
            p = f'{d}/{n}' + ('.git' if f == 'path.git' else '')
            os.mkdir(d)
            shutil.copytree(self.src + '/.git', p if f == 'path.git' else p + '/.git')
            t = {'path': p, 'path/': p + '/', 'path/.git': p + '/.git', 'path.git': p, 'file': 'file://' + p}[f]
            os.mkdir(d + '/to')
            to = RepoPath(d + '/to')
            if self.rng.random() < .5 and f != 'file':
                t = aug.LocalPath(t)
            c = to.clone_path(t)
            try:
                r = to.clone_from(t)
            except Exception as e:
                return 'refused'
            e = os.listdir(d + '/to')
            if c != r or e != [c.name] or c.parent != to or git(str(c), 'rev-parse', 'HEAD').decode().strip() != self.sha:
                return f'{c.name!r} cloned to {r} {e}'
            return c.name
        to = RepoPath(self.root + self.rng.choice(['', '/a b', '/x.git']))
        c = to.clone_path(self.text(u))
        return c.name if c.parent == to and type(c) is RepoPath else f'elsewhere {c}'

    def project(self):
        u, h = {}, {}
        for r in 'glm':
            if os.path.isdir(self.at(r)):
                with open(self.at(r) + '/.git/HEAD') as f:
                    x = f.read().strip()
                h[r] = 'detached' if x == self.sha else x.replace('ref: refs/heads/', '')
                got = git(self.at(r), 'config', '--get-all', 'remote.origin.url', check=False).decode().split('\n')[0] \
                    if self.rng.random() < .1 else None
                u[r] = self.url[r] if got is None or got == ('' if self.url[r]['form'] == 'none' else self.text(self.url[r])) else f'changed {got}'
        return dict(url=u, head=h)

    def is_init(self, pre):
        return True

    def random_url(self, rng, r):
        x = rng.random()
        if x < .6:
            return dict(form=rng.choice(list(FORMS)), host='github.com' if rng.random() < .6 else rng.choice(HOSTS), name=rng.choice(NAMES))
        if x < .85 and r != 'g':   # none in circles
            return dict(form=rng.choice(LOCAL), host='local', name=rng.choice(dict(l='g', m='gl')[r]))
        return dict(form=rng.choice(NOWHERE), host='local', name='g')

    def random_init(self, rng):
        return dict(url=dict(g=dict(form='https.git', host='github.com', name='my.repo'), l=dict(form='path', host='local', name='g'),
                             m=dict(form='path', host='local', name='l')), head=dict(g='main', l='main', m='main'))

    def random_op(self, rng, st):
        x = rng.random()
        if x < .15:
            r = rng.choice('glm')
            return dict(op='url', r=r, u=self.random_url(rng, r))
        if x < .3:
            return dict(op='checkout', r=rng.choice('glm'), h=rng.choice(HEADS))
        if x < .4:
            return dict(op='ask', what='api', r=rng.choice('glm'), p=rng.choice(['.', 'a/b']), ref='')
        if x < .45:
            if rng.random() < .5:
                return dict(op='clonepath', u=dict(form=rng.choice(['path', 'path/', 'path/.git', 'path.git', 'file']), host='local', name=rng.choice(NAMES)))
            return dict(op='clonepath', u=dict(form=rng.choice(list(FORMS)), host=rng.choice(['github.com', 'gitlab.com']), name=rng.choice(NAMES)))
        return dict(op='ask', what=rng.choice(['human', 'machine']), r=rng.choice('glm'), p=rng.choice(PATHS), ref=rng.choice(REFS))


INV = ['TypeOK', 'FormFree', 'CloneAgrees', 'Distinct']
PROPS = ['OnlyThere', 'AskingChangesNothing']


def check(c):
    b = Uri()
    names = set(NAMES)
    t = c.model('Uri', dict(MaxOps=1, Names=names, Wide=False), INV, PROPS,
                expect=['ask/refused', 'ask/human o/my.repo main a/b', 'ask/machine o/site.js f/x d/odd', 'ask/api o/.github',
                        'ask/human o/Repo sha odd', 'clonepath/my.repo'])
    asks = [x for x in t if x['op']['op'] == 'ask' and x['op']['what'] != 'api']
    api = [x for x in t if x['op'].get('what') == 'api']
    cp = [x for x in t if x['op']['op'] == 'clonepath']
    c.replay(b, asks, limit=None if c.thorough else 2000, tag='addresses')
    c.replay(b, api, limit=None if c.thorough else 700, tag='api')
    c.replay(b, cp, limit=None if c.thorough else 400, tag='clone paths')
    c.record(b, 600 if c.thorough else 80, 40, dict(MaxOps=1000000, Names=names, Wide=True))
    c.assumptions += ['the first address of the remote called origin is the one that counts', 'names of repositories are those GitHub allows']
