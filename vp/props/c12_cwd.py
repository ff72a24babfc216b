import os, io, sys, random, contextlib, warnings
import lib
warnings.simplefilter('ignore')
import augpathlib as aug
from augpathlib.caches import ReflectiveCache
aug.utils.log.setLevel('CRITICAL')

CLASSES = [aug.AugmentedPath, aug.EatPath, aug.LocalPath, aug.RepoPath, ReflectiveCache]
SUB = {'b': '', 'a': 'a', 'c': 'c', 's': 'a/s'}


NOBODY = 65534


class Boom(Exception):
    pass


class Cwd(lib.Binding):
    module = 'Cwd'

    def start(self, st, rng, root):
        self.rng = rng
        self.base = os.path.realpath(root) + '/b'
        os.mkdir(self.base)
        for d in ('a', 'c', 'a/s'):
            os.mkdir(f'{self.base}/{d}')
        open(f'{self.base}/f', 'w').close()
        os.symlink(rng.choice(['c', f'{self.base}/c']), f'{self.base}/l')
        self.open = True
        self.path = {k: os.path.normpath(f'{self.base}/{v}') for k, v in SUB.items()}
        self.name = {v: k for k, v in self.path.items()}
        spell = {'A': self.path['a'], 'B': self.path['b'], 'C': self.path['c'], 'S': self.path['s'], 'R': 's',
                 'DOT': '.', 'UP': '..', 'F': self.base + '/f', 'L': self.base + '/l'}
        self.objs = {}
        for o, p in spell.items():
            cls = rng.choice(CLASSES[:4] if o in ('R', 'DOT', 'UP') else CLASSES)
            self.objs[o] = cls(p)
        aug.AugmentedPath._stack[:] = []
        # recreate the state: stack from the oldest entry on, then the frames
        os.chdir(self.base)
        for d in st['stack']:
            os.chdir(self.path[d])
            self.do(dict(op='push', o='B'))
        self.frames = []
        for f in st['frames']:
            os.chdir(self.path[f['from']])
            if self.do(dict(op='enter', o=f['o'])) != 'in':
                raise lib.Mismatch(f'no way into {f}')
        self.alive = True
        os.chdir(self.path[st['cwd']])
        if not st['alive']:
            self.do(dict(op='vanish'))
        if not st['open']:
            self.do(dict(op='close'))

    def do(self, op):
        if op['op'] == 'close':
            self.open = not self.open
            os.chmod(self.path['c'], 0o755 if self.open else 0)
            return 'ok'
        if op['op'] == 'vanish':
            os.rmdir(self.path['s'])
            self.alive = False
            return 'ok'
        os.seteuid(NOBODY)      # there is nothing that root may not enter
        try:
            return self._do(op)
        except PermissionError:
            return 'denied'
        finally:
            os.seteuid(0)

    def _do(self, op):
        k = op['op']
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if k == 'enter':
                p = self.objs[op['o']]
                r = p.__enter__()
                if r is None:
                    # entering a non directory does nothing; a with statement would exit it again
                    p.__exit__(None, None, None)
                    return 'notdir'
                if r is not p:
                    return 'other object'
                self.frames.append([op['o'], None])
                return 'in'
            elif k == 'exit':
                p = self.objs[op['o']]
                if op['exc']:
                    try:
                        raise Boom()
                    except Boom:
                        sup = p.__exit__(*sys.exc_info())
                else:
                    sup = p.__exit__(None, None, None)
                i = max(i for i, f in enumerate(self.frames) if f[0] == op['o'])
                self.frames.pop(i)
                return 'swallowed the exception' if sup else 'out'
            elif k == 'push':
                try:
                    self.objs[op['o']].pushd()
                except NotADirectoryError:
                    return 'refused'
                return 'pushed'
            elif k == 'pop':
                n = op['n']
                how = self.rng.choice([aug.AugmentedPath, aug.LocalPath, self.objs['A']])
                try:
                    r = how.popd() if n == 0 and self.rng.random() < .5 else how.popd(n)
                except IndexError:
                    return 'range'
                except FileNotFoundError:
                    return 'missing'
                return 'empty' if r is None else self.name.get(str(r), f'unknown path')
            elif k == 'chdir':
                if self.rng.random() < .5:
                    os.chdir(self.path[op['d']])
                else:
                    aug.AugmentedPath(self.path[op['d']]).chdir()
                return 'ok'

    def cwd(self):
        try:
            return self.name.get(os.getcwd(), 'elsewhere')
        except FileNotFoundError:
            return 's'

    def project(self):
        # which directory each open entry leads back to is only visible by leaving it: do that on a fork
        # of the bookkeeping, newest first, and report what was seen
        stack = [self.name.get(str(p), 'elsewhere') for p in aug.AugmentedPath._stack]
        cwd = self.cwd()
        return dict(cwd=cwd, stack=stack, frames=self._frames(cwd), alive=self.alive, open=self.open)

    def _frames(self, cwd):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                out = []
                os.close(r)
                for o, _ in reversed(self.frames):
                    try:
                        self.objs[o].__exit__(None, None, None)
                        out.append([o, self.cwd()])
                    except FileNotFoundError:
                        out.append([o, 's'])
                import json
                os.write(w, json.dumps(out[::-1]).encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        import json
        return [dict(o=o, **{'from': d}) for o, d in json.loads(data)]

    def is_init(self, pre):
        return not pre['stack'] and not pre['frames'] and pre['alive'] and pre['open']

    # random driver
    def random_init(self, rng):
        return dict(cwd=rng.choice('bacs'), stack=[], frames=[], alive=True, open=True)

    def random_op(self, rng, st):
        gone = st['cwd'] == 's' and not st['alive']
        live = lambda d: d != 's' or st['alive']
        reach = lambda d: live(d) and (d != 'c' or st['open'])
        objs = ['A', 'B', 'C', 'S', 'R', 'DOT', 'UP', 'F', 'L']
        for _ in range(50):
            k = rng.choice(['enter'] * 4 + ['exit'] * 4 + ['push', 'push', 'pop', 'pop', 'chdir', 'vanish', 'close'])
            if k == 'enter' and not gone and len(st['frames']) < 6:
                return dict(op=k, o=rng.choice(objs if not (st['cwd'] == 'b') else [o for o in objs if o != 'UP']))
            if k == 'exit' and st['frames']:
                o = rng.choice([st['frames'][-1]['o'], rng.choice(st['frames'])['o']])
                f = [f for f in st['frames'] if f['o'] == o][-1]
                if reach(f['from']):
                    return dict(op=k, o=o, exc=rng.random() < .5)
            if k == 'push' and not gone and len(st['stack']) < 6:
                return dict(op=k, o=rng.choice([o for o in objs if o != 'UP' or st['cwd'] != 'b']))
            if k == 'pop':
                return dict(op=k, n=rng.choice([0, 0, 1, 2, 3]))
            if k == 'close' and rng.random() < .5:
                return dict(op=k)
            if k == 'chdir':
                d = rng.choice('bacs')
                if reach(d):
                    return dict(op=k, d=d)
            if k == 'vanish' and st['alive'] and rng.random() < .15:
                return dict(op=k)
        return None


BIG = dict(Objs={'A', 'B', 'C', 'S', 'R', 'DOT', 'UP', 'F', 'L'}, MaxFrames=6, MaxStack=6, MaxPop=3, Vanish=True, Closing=True)
INV = ['TypeOK', 'Restores']
PROPS = ['FramesOnlyByContext', 'StackOnlyByPushPop', 'RefusalsAreNoOps']


def check(c):
    b = Cwd()
    # exhaustive: contexts, with two independently re-enterable objects and relative spellings
    t1 = c.model('Cwd', dict(Objs={'A', 'S', 'R', 'F'}, MaxFrames=3, MaxStack=0, MaxPop=0, Vanish=True, Closing=False), INV, PROPS,
                 expect=['enter/in', 'enter/notdir', 'exit/out', 'vanish/ok', 'pop/empty'])
    t2 = c.model('Cwd', dict(Objs={'A', 'C', 'DOT', 'F'}, MaxFrames=1, MaxStack=3, MaxPop=3, Vanish=False, Closing=False), INV, PROPS,
                 expect=['push/pushed', 'push/refused', 'pop/a', 'pop/range', 'pop/empty'])
    t3 = c.model('Cwd', dict(Objs={'A', 'L', 'S'}, MaxFrames=1, MaxStack=2, MaxPop=1, Vanish=True, Closing=True), INV, PROPS,
                 expect=['push/denied', 'enter/denied', 'pop/denied', 'pop/missing'])
    lim = None if c.thorough else 1500
    c.replay(b, [t for t in t1 if t['pre']['alive'] or not any(f['o'] in 'SR' for f in t['pre']['frames'])],
             limit=lim, tag='contexts')
    c.replay(b, t2, limit=lim, tag='stack')
    c.replay(b, [t for t in t3 if t['pre']['alive'] or not any(f['o'] == 'S' for f in t['pre']['frames'])], limit=lim, tag='closed')
    c.walks(b, t1, 400 if c.thorough else 120, 60)
    c.walks(b, t2, 400 if c.thorough else 80, 60)
    c.record(b, 400 if c.thorough else 120, 60, BIG)
    c.assumptions += ['one thread: the working directory is process state',
                      'directories other than one leaf are not removed while entered']
