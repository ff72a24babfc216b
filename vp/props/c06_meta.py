import copy, os, pickle, pathlib, warnings
from datetime import datetime, timezone, timedelta
import lib
warnings.simplefilter('ignore')
import augpathlib as aug
from augpathlib import PathMeta
from augpathlib import exceptions as exc
aug.utils.log.setLevel('CRITICAL')

FIELDS = ['name', 'size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag', 'chunksize', 'multi', 'parent_id',
          'id', 'file_id', 'old_id', 'gid', 'user_id', 'mode', 'errors']
FORMS = ['symlink', 'xattrs', 'file', 'blob', 'pickle', 'copy']
IDS = dict(plain=['N:package:1234-abcd', 'r0', '12', 'a b', 'ключ'], slash=['a/b', 'host:home/x'], abs=['/abs/id', 'h:/abs/id'],
           dot=['a.b', 'h:x.tar.gz'], dots=['..', '.', '.a'], bang=['a!b', '!'], bangdot=['a!b.c'], bar=['a|b', '|'],
           barslash=['a|b/c'], hash=['#'], empty=[''], long=['x' * 120])
VALUES = dict(
    name=dict(plain=['file.txt', 'a.b'], noext=['README', 'a-b_c'], space=['a b .txt', ' x'], unicode=['ü–文.txt', 'é'],
              dots=['a..b...c', 'x.tar.gz', '.x.', '..a'], hidden=['.hidden', '.a.b'], bang=['a!b', '!'], bangdot=['a!b.c', '!.'],
              bar=['a|b', 'a|b.c'], slash=['a/b', '/a'], hash=['#'], semi=['a;b', 'a;b.c'], newline=['a\nb', 'a\tb'], empty=[''],
              digits=['12', '007', '1.5'], long=['n' * 90 + '.txt']),
    size=dict(zero=[0], plain=[1, 5, 4096, 123456], big=[2 ** 40 + 1]),
    checksum=dict(plain=[bytes(range(32)), b'\xff' * 32, os.urandom(20)], seps=[b'./!|;#-' * 3, b'a.b/c'], zeros=[b'\0' * 16]),
    checksum_cypher=dict(plain=['sha256', 'sha512', 'md5'], dot=['a.b', 'x/y']),
    etag=dict(plain=[(b'\x01\x02' * 8, 12), (b'-./|' * 4, 3)], one=[(b'\xab' * 16, 1)]),
    chunksize=dict(plain=[1, 8388608], big=[2 ** 33]),
    multi=dict(plain=[1, 2], zero=[0]),
    file_id=dict(zero=[0], plain=[1, 7, 123456789], big=[2 ** 63]),
    gid=dict(zero=[0], plain=[1000, 5]),
    user_id=dict(zero=[0], plain=[1000, 12], text=['N:user:abc', 'root'], dot=['a.b@c.org'], slash=['a/b'], bang=['a!b', 'a|b'],
                 digits=['12', '007']),
    mode=dict(plain=['0o100644', '0o40755']),
    errors=dict(one=[('checksum-mismatch',), ('deleted',)], two=[('deleted', 'remote-error'), ('a', 'b', 'c'), ('c', 'a', 'b'), ('b', 'a', 'b'), ('-', 'a', '--'), ('A', 'a')], semi=[('a;b',)],
                dot=[('a.b',)], slash=[('a/b',)], empty=[('',), ('a', '')]),
    parent_id=IDS, id=IDS, old_id=IDS)


def instant(c, rng):
    base = datetime(rng.choice([1970, 1999, 2020, 2037]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                    rng.randint(0, 59), rng.randint(0, 59))
    if c == 'naive':
        return base.replace(microsecond=rng.choice([0, 5]))
    if c == 'micro':
        return base.replace(microsecond=rng.choice([1, 120000, 999999]), tzinfo=timezone.utc)
    if c == 'offset':
        return base.replace(microsecond=rng.choice([0, 7]), tzinfo=timezone(timedelta(minutes=rng.choice([60, -480, 330, 845]))))
    if c == 'text':
        return base.strftime('%Y-%m-%dT%H:%M:%S') + rng.choice(['Z', '+00:00', '+02:00', ',123456Z', '.5Z'])
    return base.replace(tzinfo=timezone.utc)


def value(f, c, rng):
    if c == 'none':
        return () if f == 'errors' else None
    if f in ('created', 'updated'):
        return instant(c, rng)
    return rng.choice(VALUES[f][c])


def parsed(x):
    if isinstance(x, str):
        from dateutil import parser
        return parser.parse(x)
    return x


def same(f, a, b):
    if f in ('created', 'updated'):
        a, b = parsed(a), parsed(b)
        if a is None or b is None:
            return a is b
        return (a.tzinfo is None) == (b.tzinfo is None) and a == b
    if f == 'errors':
        return tuple(a or ()) == tuple(b or ())
    if f == 'etag' and a is not None and b is not None:
        return tuple(a) == tuple(b)
    if isinstance(a, bool) != isinstance(b, bool) or isinstance(a, str) != isinstance(b, str):
        return False
    return a == b


class Meta(lib.Binding):
    module = 'Meta'

    def start(self, st, rng, root):
        self.rng = rng
        self.root = str(root)
        self.n = 0
        self.st = {'m': dict(st['m']), 'via': st['via']}
        self.values = {f: value(f, c, rng) for f, c in st['m'].items()}
        self.meta = PathMeta(**{f: v for f, v in self.values.items() if v is not None or rng.random() < .5})
        if st['via'] != 'none':
            out = self.through(st['via'])
            if out != 'equal':
                raise lib.Mismatch(f'{st["via"]}: {out}')

    def wrong(self, meta, values=None):
        """the fields of a meta that are not what they should be"""
        v = self.values if values is None else values
        out = [f for f in FIELDS if not same(f, getattr(meta, f), v.get(f))]
        d = dict(meta.items())
        out += ['items ' + f for f in FIELDS if f not in d or not same(f, d[f], v.get(f))]
        return out

    def hard(self, form='xattrs'):
        """the specification's Hard"""
        m = self.st['m']
        ids = 'id', 'parent_id', 'old_id'
        if form in ('xattrs', 'file', 'blob'):
            return any(m[f] == 'empty' for f in ('name', *ids)) or m['user_id'] == 'digits' or m['errors'] in ('semi', 'empty')
        if form == 'symlink':
            return (m['name'] in ('bang', 'bangdot', 'bar', 'slash', 'hash', 'empty') or m['checksum_cypher'] == 'dot' or
                    any(m[f] in ('bang', 'bangdot', 'bar', 'barslash', 'hash', 'empty', 'dots') for f in ids) or
                    m['user_id'] in ('bang', 'digits') or m['errors'] in ('semi', 'dot', 'slash', 'empty'))
        return False

    def path(self):
        self.n += 1
        return os.path.join(self.root, f'f{self.n}')

    def through(self, form):
        m, rng = self.meta, self.rng
        twin = copy.copy(m.__dict__)
        try:
            if form == 'symlink':
                name = rng.choice(['f', 'f.x', 'a b.tar.gz', 'ü'])
                how = rng.choice(['plain', 'named', 'named', 'parts'])
                if how == 'plain':
                    target = m.as_symlink()
                else:
                    target = m.as_symlink(local_name=name)
                if how == 'parts':
                    new = PathMeta.from_symlink(Link(name, str(target)))
                else:
                    self.n += 1
                    d = os.path.join(self.root, f'd{self.n}')
                    os.mkdir(d)
                    os.symlink(str(target), d + '/' + name)
                    new = PathMeta.from_symlink(rng.choice([aug.AugmentedPath, aug.LocalPath])(d, name),
                                                match_name=rng.random() < .7)
            elif form == 'xattrs':
                prefix = rng.choice([None, 'bf', 'ssh', 'a.b'])
                x = m.as_xattrs(prefix) if prefix or rng.random() < .5 else m.as_xattrs()
                if not all(isinstance(k, bytes) and isinstance(v, bytes) for k, v in x.items()):
                    return 'attributes that are not bytes'
                if prefix:
                    k = prefix.encode()
                    x.update({b'other.id': b'other', b'size': b'77', b'sparse': b'1', b'other.' + k + b'.id': b'other', b'x' + k + b'.size': b'3',
                              k + b'x.id': b'other'})
                new = PathMeta.from_xattrs(x, prefix)
            elif form == 'file':
                f = rng.choice([aug.EatPath, aug.LocalPath])(self.path())
                f.touch() if rng.random() < .5 else f.mkdir()
                f.setxattr('other', b'x')
                f.setxattr('x.vp.id', b'other')
                f.setxattr('vpx.size', b'3')
                f.setxattrs(m.as_xattrs('vp'))
                new = PathMeta.from_xattrs(f.xattrs(), 'vp')
            elif form == 'blob':
                prefix = rng.choice([None, 'bf'])
                new = PathMeta.from_metastore(m.as_metastore(prefix), prefix)
            elif form == 'pickle':
                new = pickle.loads(pickle.dumps(m, rng.choice(range(0, pickle.HIGHEST_PROTOCOL + 1))))
            elif form == 'copy':
                new = rng.choice([copy.copy, copy.deepcopy, lambda x: PathMeta(**{k: v for k, v in x.items()}),
                                  lambda x: PathMeta(**x), lambda x: PathMeta(**dict(zip(x.keys(), (x[k] for k in x.keys()))))])(m)
            else:
                raise lib.MachineryError(form)
        except (ValueError, TypeError, OSError, OverflowError, exc.AugPathlibError) as e:
            return 'refused'
        bad = self.wrong(new)
        if bad:
            return f'altered {bad}' if form in ('symlink', 'pickle', 'copy') or not self.hard() else 'altered'
        if not m or not new:
            return 'said to be nothing'
        if not (new == m and m == new) or new != m:
            return 'equal in every field but not equal'
        if self.wrong(m):
            return 'the original was changed'
        self.meta = new
        return 'equal'

    def do(self, op):
        o = op['op']
        if o == 'through':
            r = self.through(op['form'])
            if r == 'equal' and not self.hard(op['form']):
                self.st['via'] = op['form']
            return r
        if o == 'differs':
            f = op['f']
            v = dict(self.values)
            if op['c'] == 'gone':
                v[f] = () if f == 'errors' else None
            else:
                cls = list(VALUES[f]) if f in VALUES else ['utc', 'micro', 'offset']
                for _ in range(200):
                    x = value(f, self.rng.choice(cls), self.rng)
                    if f in ('created', 'updated') and self.values[f] is not None and \
                            (parsed(self.values[f]).tzinfo is None) != (parsed(x).tzinfo is None):
                        continue
                    if not same(f, x, self.values[f]):
                        v[f] = x
                        break
                else:
                    return 'different'
            a, b = self.meta, PathMeta(**v)
            if self.rng.random() < .5:
                a, b = b, a
            return 'different' if not a == b and a != b else f'equal although {f} is not'
        if o == 'othername':
            try:
                target = self.meta.as_symlink(local_name='name')
            except ValueError:
                return 'refused'
            d = self.path()
            os.mkdir(d)
            name = self.rng.choice(['other', 'name2', 'nam', 'xname', 'name.txt', 'Name', '.name', 'name '])
            os.symlink(str(target), d + '/' + name)
            try:
                return f'believed {PathMeta.from_symlink(aug.AugmentedPath(d, name))}'
            except exc.CircularSymlinkNameError:
                return 'refused'
        if o == 'old':
            return self.old(op['form'], op['f'], op['c'])
        raise lib.MachineryError(o)

    def old(self, version, field, cls):
        """a placeholder as that version wrote it, with one field of the given class"""
        text, mean = {}, {}
        for f in LAYOUT[version] + ['id']:
            c = cls if f == field else self.rng.choice(['none', 'usual']) if f != 'id' else 'usual'
            text[f], mean[f] = oldtext(f, c, version, self.rng)
        line = f'{text["id"]}/.{version}.' + '.'.join(text[f] for f in LAYOUT[version]) + '.' + self.rng.choice(['5B', '#', '1.2K'])
        name = self.rng.choice(['f', 'f.x'])
        try:
            if self.rng.random() < .7:
                new = PathMeta.from_symlink(Link(name, name + '/' + line))
            else:
                p = self.path()
                os.symlink(line, p)
                new = PathMeta.from_symlink(aug.AugmentedPath(p))
        except ValueError:
            return 'refused'
        bad = [f for f in FIELDS if not same(f, getattr(new, f), mean.get(f))]
        return f'{bad} {[getattr(new, b) for b in bad]} from {line}' if bad else 'as meant'

    def project(self):
        return dict(m=dict(self.st['m']), via=self.st['via'])

    def is_init(self, pre):
        return pre['via'] == 'none'

    def random_init(self, rng):
        m = {f: 'none' for f in FIELDS}
        odd = rng.choice([0, 0, 1, 3])
        for f in FIELDS:
            cs = list(VALUES.get(f) or ['utc', 'micro', 'offset', 'naive', 'text'])
            easy = dict(name=['plain', 'noext', 'space', 'unicode', 'dots', 'hidden'], id=['plain', 'slash', 'abs', 'dot'],
                        parent_id=['plain', 'slash', 'abs', 'dot'], old_id=['plain', 'slash', 'abs', 'dot'],
                        user_id=['zero', 'plain', 'text', 'dot', 'slash'], errors=['one', 'two'], checksum_cypher=['plain']).get(f, cs)
            if f == 'id' or rng.random() < .8:
                m[f] = rng.choice(easy)
            if odd and rng.random() < odd / 17:
                m[f] = rng.choice(cs)
        return dict(m=m, via='none')

    def random_op(self, rng, st):
        r = rng.random()
        if r < .8:
            return dict(op='through', form=rng.choice(FORMS), f='', c='')
        if st['via'] != 'none':
            return None
        f = rng.choice(FIELDS)
        return dict(op='differs', form='', f=f, c='gone' if st['m'][f] != 'none' and rng.random() < .5 else 'other')


class Link:
    """a path that is a link with the given text"""
    def __init__(self, name, text):
        self.name, self.text = name, text

    def readlink(self, raw=False):
        return self.text if raw else pathlib.PurePosixPath(self.text)

    def as_posix(self):
        return '/nowhere/' + self.name


LAYOUT = {}      # taken from the specification, see check


def oldtext(f, c, version, rng):
    """(text in the placeholder, what it means)"""
    new = version in ('mdv5', 'mdv6')
    if c == 'none':
        return '#', None
    if f == 'errors':
        v = {'usual': ['deleted'], 'one': ['checksum-mismatch'], 'two': ['deleted', 'remote-error']}[c]
        return ';'.join(v), tuple(v)
    if f in ('created', 'updated'):
        v = instant('utc' if c == 'usual' else c, rng)
        return v.isoformat().replace('.', ',').replace('+00:00', 'Z'), v
    if f == 'checksum':
        v = rng.randbytes(rng.choice([16, 20, 32]))
        return v.hex(), v
    if f == 'etag':
        v = rng.randbytes(16), rng.choice([1, 2, 300])
        return f'{v[0].hex()}-{v[1]}', v
    if f == 'checksum_cypher':
        return 'sha256', 'sha256'
    if f == 'mode':
        return '0o100644', '0o100644'
    if f in ('name', 'parent_id', 'old_id', 'id'):
        t = {'usual': 'N:a:12', 'noext': 'README', 'plain': 'N:package:1-2', 'bar': 'a|b', 'escaped': 'a!b!c', 'bang': 'a!b'}[c]
        if f == 'name' and c == 'bar':
            return t, 'a.b'
        v = t.replace('|', '/')
        return t, v.replace('!', '.') if new else v
    if f == 'user_id' and c == 'text':
        return 'N:user:1', 'N:user:1'
    v = rng.choice([1, 12, 4096, 2 ** 40])
    return str(v), v


def layouts():
    """the layouts of the specification"""
    import re
    text = (lib.SPEC / 'Meta.tla').read_text()
    part = text[text.index('Layout == ['):text.index('\\* a "|" stands')]
    for v, body in re.findall(r'(\w+) \|-> <<(.*?)>>', part, re.S):
        LAYOUT[v] = re.findall(r'"(\w+)"', body)


layouts()


def check(c):
    b = Meta()
    inv = (['TypeOK'], ['NeverAltered', 'SymlinksNeverAlter', 'PlainAlwaysFits'])
    base = dict(Forms=set(FORMS), Bases={'full', 'sparse'}, Vary=set(FIELDS), Vary2=set(), OldVersions=set(LAYOUT),
                OpNames={'through', 'differs', 'othername', 'old'})
    t = c.model('Meta', base, *inv, expect=['through/equal', 'through/refused', 'differs/different', 'othername/refused',
                                            'old/as meant', 'old/refused'])
    c.replay(b, t, reps=4 if c.thorough else 2, limit=None if c.thorough else 12000, tag='single fields')
    c.walks(b, t, 2000 if c.thorough else 400, 10)
    if c.thorough:
        two = dict(base, Vary=set(), Vary2={'name', 'id', 'parent_id', 'file_id', 'errors', 'user_id', 'created', 'checksum'},
                   OpNames={'through'})
        t = c.model('Meta', two, *inv)
        c.replay(b, t, limit=60000, tag='pairs of fields')
    c.record(b, 6000 if c.thorough else 1200, 10, dict(base, Bases=set(), Vary=set(FIELDS)))
    c.assumptions += ['values are drawn from classes per field (the classes are enumerated, singly and, thorough, in pairs; all '
                      'fields vary at once in the recorded runs)']
