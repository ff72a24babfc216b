import os, tempfile
import lib
import augpathlib as aug
aug.utils.log.setLevel('CRITICAL')
NONE = 99


class StreamFailed(Exception):
    pass


def text(seq):
    return '<<' + ', '.join(text(x) if isinstance(x, (list, tuple)) else str(x) for x in seq) + '>>'


class Data(lib.Binding):
    module = 'Data'

    def start(self, st, rng, root):
        self.rng = rng
        self.root = str(root)
        self.unit = rng.choice([1, 1, 2, 7, 1000, 4096])
        kind = rng.choice(['local', 'local', 'relative'])
        self.files = {}
        os.chdir(self.root)
        for w in 'fg':
            p = self.root + '/' + w
            if st[w]['there']:
                with open(p, 'wb') as f:
                    f.write(self.bytes(st[w]['c']))
            self.files[w] = aug.LocalPath(p if kind == 'local' else w)

    def block(self, v):
        return (b'%d/' % v * (self.unit // 2 + 1))[:self.unit] if self.unit > 3 else bytes([v, 255 - v, v, 7][:self.unit])

    def bytes(self, seq):
        return b''.join(self.block(v) for v in seq)

    def symbols(self, data, known):
        out = []
        blocks = {self.block(v): v for v in known}
        if len(blocks) != len(set(known)):
            raise lib.MachineryError('blocks are not distinct')
        for i in range(0, len(data), self.unit):
            b = data[i:i + self.unit]
            if b not in blocks:
                return f'other bytes: {data[:60]!r} of {len(data)}'
            out.append(blocks[b])
        return out

    def known(self):
        return range(1, 90)

    def result(self, data):
        x = self.symbols(data, self.known())
        return x if isinstance(x, str) else text(x)

    def size(self, n):
        k = n * self.unit
        if self.rng.random() < .3:
            k = max(1, k + self.rng.choice([-1, 1, self.unit // 2, 3]))
        return k

    def stream(self, chunks, fail):
        bs = [self.bytes(c) for c in chunks]
        kind = self.rng.choice([bytes, bytes, bytearray, memoryview]) if not fail else bytes
        for i, b in enumerate(bs):
            if fail == i + 1:
                raise StreamFailed
            yield kind(b)
        if fail == len(bs) + 1:
            raise StreamFailed

    def chunks(self, op):
        out, n = [], 10 * op['tag']
        for k in op['lens']:
            out.append(list(range(n + 1, n + k + 1)))
            n += k
        return out

    def pieces(self, it, size):
        out = []
        for x in it:
            if size is not None and len(x) > size:
                raise lib.Mismatch(f'a chunk of {len(x)} bytes with a chunk size of {size}')
            out.append(bytes(x))
        return b''.join(out)

    def do(self, op):
        o, w = op['op'], op['w']
        p = self.files[w]
        other = self.files['g' if w == 'f' else 'f']
        try:
            if o == 'read':
                size = self.size(op['cs'])
                how = self.rng.choice(['data', 'data', '_data', 'attr'])
                if how == 'data':
                    p.chunksize = size
                    it = p.data
                elif how == 'attr':
                    p.chunksize = size
                    it = p._data()
                else:
                    it = p._data(chunksize=size)
                return self.result(self.pieces(it, size))
            if o == 'ranges':
                size = self.size(op['cs'])
                u = self.unit
                rs = [(a * u, None if b == NONE else b * u) for a, b in op['ranges']]
                rs = self.rng.choice([tuple, list])(rs)
                if self.rng.random() < .3:
                    p.chunksize = size
                    it = p._data(rs)
                else:
                    it = p._data(rs, size)
                return self.result(self.pieces(it, size))
            if o == 'write':
                gen = self.stream(self.chunks(op), op['fail'])
                if self.rng.random() < .2:
                    p._write_chunks_ntfs(gen)      # the variant for other file systems has the same result
                else:
                    p.data = gen
                return 'written'
            if o == 'tee':
                gen = self.stream(self.chunks(op), op['fail'])
                it = p._data_setter(gen, append=True) if op['append'] else p._data_setter(gen)
                got = []
                if op['stop']:
                    for _ in range(op['stop']):
                        got.append(next(it))
                    it.close()
                else:
                    got = list(it)
                got = [self.symbols(bytes(x), self.known()) for x in got if len(x)]
                return str(got) if any(isinstance(x, str) for x in got) else text(got)
            if o == 'pipe':
                other.chunksize = self.size(op['cs'])
                if op['append']:
                    for _ in p._data_setter(other.data, append=True):
                        pass
                elif self.rng.random() < .5:
                    p.data = other.data
                else:
                    third = aug.LocalPath(self.root, 'third')
                    third.data = p._data_setter(other.data)
                    a, b = open(third, 'rb').read(), open(other, 'rb').read()
                    if a != b:
                        raise lib.Mismatch(f'{len(a)} bytes forwarded of {len(b)}')
                return 'written'
            if o == 'unlink':
                p.unlink()
                return 'gone'
        except StreamFailed:
            return 'failed'
        except OSError:
            return 'failed' if o == 'pipe' else 'refused'
        raise lib.MachineryError(o)

    def project(self):
        out = {}
        for w in 'fg':
            try:
                with open(self.root + '/' + w, 'rb') as f:
                    out[w] = dict(there=True, c=self.symbols(f.read(), self.known()))
            except FileNotFoundError:
                out[w] = dict(there=False, c=[])
        return out

    def random_init(self, rng):
        def one():
            return dict(there=False, c=[]) if rng.random() < .2 else dict(there=True, c=list(range(1, 1 + rng.randint(0, 8))))
        return dict(f=one(), g=one())

    def random_op(self, rng, st):
        o = dict(op=rng.choice(['read', 'ranges', 'ranges', 'write', 'tee', 'tee', 'pipe', 'unlink', 'write']), w=rng.choice('fg'),
                 cs=rng.randint(1, 9), ranges=[], lens=[], tag=rng.randint(1, 5), fail=0, stop=0, append=False)
        n = len(st[o['w']]['c'])
        if o['op'] == 'ranges':
            for _ in range(rng.randint(0, 4)):
                if rng.random() < .25:
                    a = -rng.randint(1, n + 1)
                    b = rng.choice([NONE, rng.randint(a, -1)])
                else:
                    a = rng.randint(0, n + 1)
                    b = rng.choice([NONE, a + rng.randint(0, n + 2)])
                o['ranges'].append([a, b])
        if o['op'] in ('write', 'tee'):
            o['lens'] = [rng.choice([0, 1, 1, 2, 3]) for _ in range(rng.randint(0, 3))]
            if rng.random() < .3:
                o['fail'] = rng.randint(1, len(o['lens']) + 1)
            elif o['op'] == 'tee' and o['lens'] and rng.random() < .3:
                o['stop'] = rng.randint(1, len(o['lens']))
        if o['op'] in ('tee', 'pipe'):
            o['append'] = rng.random() < .5 and n < 20
        return o


def check(c):
    b = Data()
    inv = (['TypeOK', 'Adjoining'], ['ReadsKeep', 'EarlyFailureKeeps', 'AppendKeeps', 'OnlyTarget'])
    reads = dict(MaxLen=4 if c.thorough else 3, ChunkSizes={1, 2, 3, 4} if c.thorough else {1, 2, 3}, MaxRanges=2, MaxChunks=0,
                 ChunkLens={1}, OpNames={'read', 'ranges'}, MaxOps=1)
    t = c.model('Data', reads, *inv, expect=['read/refused', 'ranges/refused', 'ranges/<<1, 2>>', 'ranges/<<>>'])
    c.replay(b, t, limit=200000 if c.thorough else 12000, tag='ranges')
    writes = dict(MaxLen=2, ChunkSizes={1, 2}, MaxRanges=1, MaxChunks=3 if c.thorough else 2, ChunkLens={0, 1, 2},
                  OpNames={'write', 'tee', 'pipe', 'unlink', 'read'}, MaxOps=1)
    t = c.model('Data', writes, *inv, expect=['write/written', 'write/failed', 'tee/failed', 'tee/<<>>', 'pipe/failed',
                                              'pipe/written', 'unlink/gone'])
    c.replay(b, t, reps=4 if c.thorough else 2, tag='writes')
    both = dict(writes, MaxOps=2, MaxLen=1, MaxChunks=1, ChunkSizes={1}, OpNames={'write', 'tee', 'pipe', 'unlink', 'read', 'ranges'})
    t = c.model('Data', both, *inv)
    c.walks(b, t, 3000 if c.thorough else 500, 8)
    c.record(b, 8000 if c.thorough else 1500, 12, dict(reads, MaxOps=99))
    c.assumptions += ['a range that ends before it starts is not asked for', 'streams are iterators of bytes-like chunks']
