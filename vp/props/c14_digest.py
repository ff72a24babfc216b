import hashlib, logging, os
import lib, mem
import augpathlib as aug
from augpathlib import exceptions as exc
from augpathlib.utils import etag
log = aug.utils.log
log.setLevel('CRITICAL')


class Seen(logging.Handler):
    def __init__(self):
        super().__init__()
        self.n = 0

    def emit(self, record):
        self.n += record.levelno >= logging.CRITICAL


seen = Seen()
log.addHandler(seen)
for h in list(log.handlers):
    if h is not seen:
        log.removeHandler(h)
log.propagate = False

ALGS = ['md5', 'sha1', 'sha256', 'sha512', 'blake2b', 'sha3_256']


class Own(aug.LocalPath):
    cypher = hashlib.sha256


Own._bind_flavours()


def text(seq):
    return '<<' + ', '.join(f'"{x}"' if isinstance(x, str) else str(x) for x in seq) + '>>'


def compositions(n):
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield [k] + rest


class Digest(lib.Binding):
    module = 'Digest'

    def start(self, st, rng, root):
        self.rng = rng
        self.root = os.path.realpath(str(root))
        self.unit = rng.choice([1, 1, 3, 64, 1000, 4096, 5000])
        self.seed = rng.randrange(10 ** 6)
        self.rec = st['rec']
        self.k = st['k']
        self.h = None
        self.hs = dict(st['h'])
        if st['h']['p']:
            self.h = etag(st['h']['p'] * self.unit)
            self.feed(0, st['h']['n'])
        name = self.root + '/r/f' if self.k == 'cached' else self.root + '/f'
        self.name = name
        if self.k == 'cached':
            os.mkdir(self.root + '/r')
            w = mem.World('r')
            Local, Cache, Remote = mem.make(w)
            w.add('f1', 'f', 'r0', 'f')
            w.o['f1']['data'] = self.content(self.rec['n'], self.rec['v'])
            Remote.init(w.root)
            Remote.dropAnchor(Local(self.root))
        if st['f']['there']:
            with open(name, 'wb') as f:
                f.write(self.content(st['f']['n'], st['f']['v']))
        if self.k == 'cached':
            if not st['f']['there']:
                open(name, 'wb').close()
            data = self.content(self.rec['n'], self.rec['v'])
            kw = dict(id='f1', name='f', file_id=1, created=mem.when(1), updated=mem.when(1))
            if self.rec['etag']:
                kw['chunksize'] = self.rec['p'] * self.unit
                kw['etag'] = self.reference_etag(data, self.rec['p'] * self.unit)
            if self.rec['sum']:
                alg = self.rec['alg']
                kw['checksum'] = hashlib.new('sha256' if alg == 'none' else alg, data).digest()
                if alg != 'none':
                    kw['checksum_cypher'] = alg
            if self.rec['size']:
                kw['size'] = len(data)
            self.path = Local(name)
            self.path.cache_init(aug.PathMeta(**kw))
            if not st['f']['there']:
                os.unlink(name)
            self.path = Local(name)
        else:
            self.path = {'plain': aug.LocalPath, 'own': Own}[self.k](name)

    def reference_etag(self, data, size):
        parts = [hashlib.md5(data[i:i + size]).digest() for i in range(0, len(data), size)]
        return hashlib.md5(b''.join(parts)).digest(), len(parts)

    def content(self, n, v):
        b = bytearray((self.seed + i * 31 + (i // 251) * 7) % 256 for i in range(n * self.unit))
        if v == 1:
            b[-1] ^= 1
        elif v == 2:
            b[0] ^= 0x80
        elif v == 3:
            b[len(b) // 2] ^= 0xff
        return bytes(b)

    def feed(self, at, n):
        """feed n symbols in chunks of any size, with or without digests in between"""
        rng = self.rng
        data = self.content(at + n, 0)[at * self.unit:]
        early = rng.random() < .5
        most = rng.choice([1, 2, self.unit, self.unit + 1, 3 * self.unit, len(data) + 1])
        most = max(most, len(data) // 200)
        if not data:
            self.h.update(b'')
        while data:
            k = rng.randint(0 if rng.random() < .1 else 1, most)
            self.h.update(data[:k])
            data = data[k:]
            if early and rng.random() < .5:
                self.h.digest()

    def parts(self, got, n):
        if got is None:
            return 'none'
        digest, count = got
        data = self.data
        u = self.unit
        for c in compositions(n):
            if len(c) != count:
                continue
            ds, i = [], 0
            for k in c:
                ds.append(hashlib.md5(data[i:i + k * u]).digest())
                i += k * u
            if hashlib.md5(b''.join(ds)).digest() == digest:
                return text(c)
        return f'no division of the bytes into {count} parts has this tag'

    def now(self):
        with open(self.name, 'rb') as f:
            return f.read()

    def do(self, op):
        o = op['op']
        rng = self.rng
        if o == 'new':
            self.h = etag(op['p'] * self.unit)
            self.hs = dict(p=op['p'], n=0)
            return 'new'
        if o == 'update':
            self.feed(self.hs['n'], op['n'])
            self.hs['n'] += op['n']
            return 'fed'
        if o == 'digest':
            self.data = self.content(self.hs['n'], 0)
            got = self.h.digest()
            hexed = self.h.hexdigest()
            if hexed != f'{got[0].hex()}-{got[1]}' or self.h.digest() != got:
                return f'taken again it is another: {got} {hexed}'
            return self.parts(got, self.hs['n'])
        if o == 'etag':
            if rng.random() < .5:
                self.path.chunksize = rng.choice([1 if self.unit < 10 else 50, self.unit, self.unit + 1, 4096])
            got = self.path.etag(op['p'] * self.unit)
            if got is not None:
                self.data = self.now()
            return self.parts(got, 0 if got is None else len(self.data) // self.unit)
        if o == 'checksum':
            algs = op['algs']
            first, *more = [None if a == 'default' else getattr(hashlib, a) for a in algs]
            many = [rng.choice(ALGS) for _ in range(rng.choice([0, 1, 4]))] if more else []
            more += [getattr(hashlib, a) for a in many]
            if rng.random() < .5:
                self.path.chunksize = rng.choice([7, self.unit, 4096])
            kw = {}
            if first is not None:
                kw['cypher'] = first
            if more:
                kw['extra_cyphers'] = rng.choice([tuple, list])(more)
            got = self.path.checksum(**kw)
            if got is None:
                return 'none'
            got = got if more else (got,)
            data = self.now()
            if many:
                if tuple(got[len(algs):]) != tuple(hashlib.new(a, data).digest() for a in many):
                    return f'for {many} also: {[g.hex() for g in got[len(algs):]]}'
                got = got[:len(algs)]
            known = {hashlib.new(a, data).digest(): a for a in ALGS}
            return text([known.get(g, 'other') for g in got])
        if o == 'write':
            with open(self.name, 'wb') as f:
                f.write(self.content(op['n'], op['v']))
            return 'written'
        if o == 'unlink':
            os.unlink(self.name)
            return 'gone'
        if o == 'validate':
            cache = self.path.cache
            was = cache.meta
            n = seen.n
            try:
                cache.validate_file()
                bad = seen.n > n
            except exc.SizeError:
                bad = True
            now = self.path.cache.meta
            if tuple(now.errors or ()) != tuple(was.errors or ()):
                bad = True
                d = {k: v for k, v in was.items() if k != 'errors'}
                if d != {k: v for k, v in now.items() if k != 'errors'}:
                    return 'changed what was recorded'
                self.path.setxattr('mem.errors', b'')
                self.path.delxattr('mem.errors')
            elif now != was:
                return 'changed what was recorded'
            return 'reported' if bad else 'silent'
        if o == 'different':
            return 'yes' if self.path.content_different() else 'no'
        raise lib.MachineryError(o)

    def project(self):
        f = dict(there=False, n=0, v=0)
        if os.path.lexists(self.name):
            data = self.now()
            for v in range(4):
                n = len(data) // self.unit
                if (n or not v) and self.content(n, v) == data:
                    f = dict(there=True, n=n, v=v)
                    break
            else:
                f = dict(there=True, n=-1, v=-1)
        return dict(h=dict(self.hs), f=f, rec=self.rec, k=self.k)

    def random_init(self, rng):
        k = rng.choice(['plain', 'own', 'cached'])
        n = rng.randint(0, 7)
        f = dict(there=True, n=n, v=rng.randint(0, 3) if n else 0)
        if k != 'cached' and rng.random() < .2:
            f = dict(there=False, n=0, v=0)
        n = rng.choice([n, rng.randint(0, 7)])
        rec = dict(etag=False, sum=False, size=False, n=0, v=0, p=1, alg='none')
        if k == 'cached':
            rec = dict(etag=rng.random() < .4, sum=rng.random() < .5, size=rng.random() < .7, n=n, v=rng.randint(0, 3) if n else 0,
                       p=1, alg='none')
            if rec['etag']:
                rec['p'] = rng.randint(1, 5)
            if rec['sum']:
                rec['alg'] = rng.choice(['none'] + ALGS)
            if not (rec['etag'] or rec['sum'] or rec['size']):
                rec['n'] = rec['v'] = 0
        return dict(h=dict(p=0, n=0), f=f, rec=rec, k=k)

    def random_op(self, rng, st):
        no = dict(op='', p=0, n=0, v=0, algs=[])
        r = rng.random()
        h = st['h']
        if r < .4:
            if not h['p'] or rng.random() < .15:
                return dict(no, op='new', p=rng.randint(1, 5))
            if rng.random() < .4:
                return dict(no, op='digest')
            n = rng.choice([0, 1, 1, 2, 3, 5])
            return dict(no, op='update', n=n) if h['n'] + n <= 12 else dict(no, op='digest')
        if r < .5:
            return dict(no, op='etag', p=rng.randint(1, 5))
        if r < .65:
            return dict(no, op='checksum', algs=[rng.choice(ALGS + ['default'])] + ([rng.choice(ALGS)] if rng.random() < .5 else []))
        if r < .8:
            n = rng.randint(0, 7)
            return dict(no, op='write', n=n, v=rng.randint(0, 3) if n else 0)
        if st['k'] != 'cached':
            return dict(no, op='unlink') if st['f']['there'] else None
        if r < .95 or not st['rec']['size'] or (st['rec']['sum'] and st['rec']['alg'] not in ('none', 'sha256')):
            return dict(no, op='validate')
        return dict(no, op='different')


def check(c):
    b = Digest()
    inv = (['PartsCover'], ['ReadsKeep', 'AgreeingSilent', 'DifferentSizeReported'])
    base = dict(MaxFed=8, PartSizes={1, 2, 3, 4, 5}, FileLens={1}, Variants={0}, Algs={'md5'}, Kinds={'plain'}, Recs=False,
                OpNames={'new', 'update', 'digest'}, MaxOps=3)
    t = c.model('Digest', base, *inv, expect=['digest/<<>>', 'digest/<<3, 3, 2>>', 'update/fed', 'digest/<<4, 4>>'])
    c.replay(b, t, reps=20 if c.thorough else 4, tag='hasher')
    c.walks(b, t, 3000 if c.thorough else 500, 12, tag='hasher')
    files = dict(base, FileLens={0, 1, 2, 3, 4, 6, 8}, Variants={0}, Algs=set(ALGS) if c.thorough else {'md5', 'sha256', 'blake2b'},
                 Kinds={'plain', 'own', 'cached'}, OpNames={'etag', 'checksum', 'write', 'unlink'}, MaxOps=1)
    t = c.model('Digest', files, *inv, expect=['etag/none', 'etag/<<2, 2, 2>>', 'checksum/<<"sha256">>', 'checksum/<<"blake2b", "md5">>'])
    c.replay(b, t, reps=4 if c.thorough else 1, tag='files')
    valid = dict(base, FileLens={0, 2, 3}, Variants={0, 1, 2, 3} if c.thorough else {0, 1}, PartSizes={1, 2, 3} if c.thorough else {1, 2},
                 Algs={'md5', 'sha256', 'blake2b'}, Kinds={'cached'}, Recs=True, OpNames={'validate', 'different'}, MaxOps=1)
    t = c.model('Digest', valid, *inv, expect=['validate/reported', 'validate/silent', 'different/yes', 'different/no'])
    c.replay(b, t, reps=2, limit=None if c.thorough else 1500, tag='validation')
    c.record(b, 4000 if c.thorough else 700, 14, dict(valid, MaxFed=12, Algs=set(ALGS), MaxOps=99, PartSizes={1, 2, 3, 4, 5},
                                                      FileLens={0, 1}, Recs=False, OpNames=set()))
    c.assumptions += ['the tag of no bytes at all has no parts', 'the recorded tag, checksum and size belong to one content']
