"""Shared machinery: TLC runs, spec-to-code replay, code-to-spec trace
validation, evidence, verdicts."""
import os, re, sys, json, time, random, shutil, signal, hashlib, tempfile, subprocess, traceback
import multiprocessing, contextlib, pathlib, atexit

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
REPO = pathlib.Path(os.environ.get('VP_REPO', '/repo'))
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """the check itself could not run: neither held nor violated"""


class Hang(BaseException):
    pass


class Enough(Exception):
    """a violation was found: the rest of the check need not run"""


class Mismatch(AssertionError):
    """raised by bindings when the code shows something outside the vocabulary of the spec"""


# ---------------------------------------------------------------- scratch
_scratch_root = None


def scratch_root():
    global _scratch_root
    if _scratch_root is None or _scratch_root[0] != os.getpid():
        if _scratch_root is not None:
            d = tempfile.mkdtemp(dir=_scratch_root[1], prefix='w')   # forked worker: below the parent's
            os.chmod(d, 0o755)
            _scratch_root = (os.getpid(), d)
        else:
            d = tempfile.mkdtemp(prefix='vp-')
            os.chmod(d, 0o755)
            _scratch_root = (os.getpid(), d)
            pid = os.getpid()

            def clean(d=d, pid=pid):
                if os.getpid() == pid:
                    subprocess.run(['rm', '-rf', '--one-file-system', d])
            atexit.register(clean)
    return _scratch_root[1]


_n = [0]


@contextlib.contextmanager
def scratch():
    """fresh directory; cwd is restored afterwards"""
    root = scratch_root()
    _n[0] += 1
    d = os.path.join(root, f's{os.getpid()}-{_n[0]}')
    os.mkdir(d)
    try:
        yield pathlib.Path(d)
    finally:
        os.chdir('/')
        real_rmtree(d)


_real = {n: getattr(os, n) for n in ('unlink', 'rmdir', 'scandir', 'chmod', 'rename', 'mkdir', 'symlink',
                                     'listdir', 'stat', 'lstat', 'open', 'close', 'chdir', 'getcwd')}


def real_rmtree(d):
    """plain removal that does not go through anything the code under test may have patched"""
    try:
        entries = list(_real['scandir'](d))
    except PermissionError:
        _real['chmod'](d, 0o700)
        entries = list(_real['scandir'](d))
    except (FileNotFoundError, NotADirectoryError):
        return
    for e in entries:
        if e.is_dir(follow_symlinks=False):
            real_rmtree(e.path)
        else:
            _real['unlink'](e.path)
    try:
        _real['rmdir'](d)
    except OSError:
        pass


# ---------------------------------------------------------------- canonical json
def norm(x):
    if isinstance(x, dict):
        if not x:
            return []
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def canon(x):
    return json.dumps(norm(x), sort_keys=True, separators=(',', ':'))


# ---------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self):
        self.generated = self.distinct = 0
        self.depth = 0
        self.rows = []
        self.ok = False
        self.error = ''
        self.out = ''
        self.wall = 0.


def _parse_rows(line):
    # PrintT of a string: "....", with \" and \\ escapes, exactly a JSON string literal
    return json.loads(json.loads(line))


def run_tlc(module, cfg_text, extra_files=None, env=None, timeout=800, workers=1, args=(), heap='4g'):
    """run TLC on spec/<module>.tla with the given cfg; returns TLCResult.
    rows are the JSON values printed by PrintT(ToJson(..))"""
    d = pathlib.Path(tempfile.mkdtemp(dir=scratch_root(), prefix='tlc'))
    for f in SPEC.glob('*.tla'):
        shutil.copy(f, d / f.name)
    for name, text in (extra_files or {}).items():
        (d / name).write_text(text)
    (d / f'{module}.cfg').write_text(cfg_text)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss16m', '-cp', JAR, 'tlc2.TLC', '-deadlock', '-noGenerateSpecTE',
           '-workers', str(workers), '-metadir', str(d / 'meta'), '-config', f'{module}.cfg', *args, f'{module}.tla']
    t = time.time()
    r = TLCResult()
    out = open(d / 'out.txt', 'wb')
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT, timeout=timeout,
                           stdin=subprocess.DEVNULL)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
    out.close()
    r.wall = time.time() - t
    text = []
    with open(d / 'out.txt', encoding='utf-8', errors='replace') as f:
        for line in f:
            if line.startswith('"'):
                try:
                    r.rows.append(_parse_rows(line.rstrip('\n')))
                    continue
                except ValueError:
                    raise MachineryError(f'unparsable TLC output line: {line[:300]}')
            text.append(line)
    r.out = ''.join(text)
    for line in text:
        m = re.match(r'(\d+) states generated, (\d+) distinct', line.replace(',', '', 0))
        if m:
            r.generated, r.distinct = int(m[1]), int(m[2])
        if line.startswith('The depth of the complete state graph'):
            r.depth = int(line.rstrip('.\n').split()[-1].rstrip('.'))
    r.ok = rc == 0
    if rc is None:
        r.error = f'TLC timeout after {timeout}s'
    elif rc != 0:
        keep = [l for l in text if l.strip()]
        i = next((n for n, l in enumerate(keep) if 'Error' in l or 'rror:' in l), 0)
        r.error = f'TLC rc={rc}\n' + ''.join(keep[i:i + 40])
    real_rmtree(str(d))
    return r


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, (int,)):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, dict):
        return '[' + ', '.join(f'{k} |-> {tla(x)}' for k, x in v.items()) + ']'
    raise TypeError(v)


def cfg(constants, invariants=(), properties=(), extra=(), spec='Spec'):
    """constants are put in the cfg (sets of strings/ints, ints, booleans)"""
    lines = [f'SPECIFICATION {spec}']
    for k, v in constants.items():
        lines.append(f'CONSTANT {k} = {tla(v)}')
    lines += [f'INVARIANT {i}' for i in invariants]
    lines += [f'PROPERTY {i}' for i in properties]
    lines += list(extra)
    return '\n'.join(lines) + '\n'


TRACE_TEMPLATE = SPEC / 'TraceTemplate.txt'


# ---------------------------------------------------------------- the check
class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], models=[],
                        replayed_transitions=0, replayed_executions=0, walks=0, walk_steps=0,
                        recorded_traces=0, recorded_events=0, fault_runs=0)
        self.assumptions = []
        self.violations = []
        self.known = []
        self.findings = [f for f in load_findings() if f['property'] == pid and f.get('status') == 'known']

    # -------- verdict bookkeeping
    def violation(self, clause, detail, key=None):
        """detail: json-able; key identifies the failing case for the known findings file"""
        for f in self.findings:
            if key is not None and f['key'] == key:
                if key not in [k for k, _ in self.known]:
                    self.known.append((key, f['what']))
                return
        self.violations.append(dict(clause=clause, key=key, detail=detail))

    def enough(self):
        if self.violations and not os.environ.get('VP_ALL'):
            raise Enough

    def sample(self, x):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(x)

    def model(self, module, constants, invariants=(), properties=(), emit=True, expect=None, timeout=600,
              workers=1, extra=(), view=True):
        """exhaustively check spec/<module>.tla; returns the emitted transitions [(pre, op, res, post)]"""
        self.enough()
        ex = list(extra)
        if emit:
            ex.append('ACTION_CONSTRAINT Emit')
        if view:
            ex.append('VIEW View')
        r = run_tlc(module, cfg(constants, invariants, properties, ex), timeout=timeout, workers=workers)
        if not r.ok:
            raise MachineryError(f'{module}: specification does not check: {r.error}')
        trans = {}
        labels = {}
        for row in r.rows:
            pre, op, res, post = row['pre'], row['op'], row['res'], row['post']
            trans.setdefault((canon(pre), canon(op)), dict(pre=pre, op=op, allowed={}))['allowed'][
                (canon(res), canon(post))] = (res, post)
            lab = f"{op['op'] if isinstance(op, dict) else op}/{res['r'] if isinstance(res, dict) and 'r' in res else res}"
            labels[lab] = labels.get(lab, 0) + 1
        if emit and not trans:
            raise MachineryError(f'{module}: no transitions emitted')
        if expect:
            missing = [e for e in expect if not any(l == e or l.startswith(e) for l in labels)]
            if missing:
                raise MachineryError(f'{module}: vacuous, never taken: {missing}')
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.cov['models'].append(dict(module=module, constants={k: str(v) for k, v in constants.items()},
                                       distinct=r.distinct, generated=r.generated, depth=r.depth,
                                       invariants=list(invariants) + list(properties),
                                       outcome_counts=dict(sorted(labels.items())), wall_s=round(r.wall, 2)))
        return list(trans.values())

    # -------- spec -> code
    def replay(self, binding, transitions, reps=1, limit=None, tag='', stride_seed=None):
        """execute every (pre, op) of the state graph on the code and compare the outcome with the
        set the specification allows"""
        self.enough()
        items = list(transitions)
        total = len(items)
        if limit is not None and total > limit:
            rnd = random.Random(self.seed * 7919 + 13)
            # keep at least a few of every (op, outcome label) class
            by = {}
            for t in items:
                k = (t['op']['op'] if isinstance(t['op'], dict) else t['op'],
                     tuple(sorted(a[0] for a in t['allowed'])))
                by.setdefault(k, []).append(t)
            picked = []
            for k in sorted(by, key=str):
                v = by[k]
                rnd.shuffle(v)
                picked += v[:max(3, limit // (2 * len(by)))]
            ids = set(id(t) for t in picked)
            rest = [t for t in items if id(t) not in ids]
            rnd.shuffle(rest)
            items = (picked + rest)[:max(limit, 0)]
        jobs = [(t, self.seed * 1000003 + r * 7 + i) for i, t in enumerate(items) for r in range(reps)]
        res = pmap(_ReplayJob(binding), jobs)
        self.cov['replayed_transitions'] += len(items)
        self.cov['replayed_executions'] += len(jobs)
        self.cov['traces_validated_against_impl'] += len(jobs)
        self.cov.setdefault('replay_complete', []).append(dict(binding=type(binding).__name__, tag=tag,
                                                               of=total, replayed=len(items)))
        for (t, seed), r in zip(jobs, res):
            if r is not None:
                self.violation('replay:' + r['why'], dict(kind='replay', binding=type(binding).__name__, seed=seed,
                                                          pre=t['pre'], op=t['op'], got=r['got'],
                                                          allowed=[a for a in t['allowed'].values()][:6]),
                               key=binding.key(t['pre'], t['op'], r['got']))
        if items:
            t = items[len(items) // 2]
            self.sample(dict(spec_to_code=dict(pre=t['pre'], op=t['op'], allowed=list(t['allowed'].values())[:1])))

    def walks(self, binding, transitions, n, length, tag=''):
        """random walks through the state graph, carrying live objects from step to step"""
        self.enough()
        graph = {}
        for t in transitions:
            graph.setdefault(canon(t['pre']), []).append(t)
        starts = sorted(graph)
        inits = [s for s in starts if binding.is_init(graph[s][0]['pre'])] or starts
        jobs = []
        for i in range(n):
            rng = random.Random(self.seed * 65537 + i)
            cur = rng.choice(inits)
            path = []
            for _ in range(length):
                if cur not in graph:
                    break
                t = rng.choice(graph[cur])
                want = rng.choice(sorted(t['allowed']))
                path.append((t, want))
                cur = want[1]
            jobs.append((self.seed * 65537 + i, path))
        res = pmap(_WalkJob(binding), jobs)
        for (seed, _), r in zip(jobs, res):
            steps, bad = r
            self.cov['walks'] += 1
            self.cov['walk_steps'] += steps
            self.cov['traces_validated_against_impl'] += 1
            if bad is not None:
                self.violation('walk:' + bad['why'], dict(kind='walk', binding=type(binding).__name__, seed=seed,
                                                          length=length, **{k: bad[k] for k in bad if k != 'why'}),
                               key=binding.key(bad['pre'], bad['op'], bad['got']))

    # -------- code -> spec
    def record(self, binding, n, length, constants, tag='', timeout=600, seeds=None):
        """n random runs of the code, recorded and validated against the specification by TLC"""
        self.enough()
        jobs = [(self.seed * 104729 + i, length) for i in range(n)]
        res = pmap(_RecordJob(binding), jobs)
        traces = []
        for (seed, _), r in zip(jobs, res):
            if r.get('error'):
                self.violation('record:' + r['error'], dict(kind='record', binding=type(binding).__name__, seed=seed,
                                                            length=length, events=r['events'][-2:]),
                               key=binding.key(None, r.get('op'), r['error']))
            if r['events']:
                traces.append((seed, r))
        self.validate(binding, traces, constants, tag=tag, timeout=timeout)
        return traces

    def validate(self, binding, traces, constants, tag='', timeout=600, batch=4000):
        """traces: [(seed, dict(init=.., events=[dict(op,res,post)]))]"""
        if not traces:
            self.enough()
            raise MachineryError('no traces recorded')
        module = binding.module
        nev = 0
        # split so several TLC processes can run at once
        chunks = [[]]
        c = 0
        per = max(1, min(batch, sum(len(t[1]['events']) for t in traces) // 4 + 1))
        for t in traces:
            if c >= per:
                chunks.append([])
                c = 0
            chunks[-1].append(t)
            c += len(t[1]['events'])
        with multiprocessing.pool.ThreadPool(4) as tp:
            results = tp.map(lambda ch: self._validate_chunk(module, ch, constants, timeout), chunks)
        for ch, (r, verdict) in zip(chunks, results):
            if not r.ok and 'timeout' not in r.error and len(ch) > 1:
                # a value outside the specification's vocabulary can stop TLC: judge the traces one by one
                with multiprocessing.pool.ThreadPool(6) as tp:
                    single = tp.map(lambda t: self._validate_chunk(module, [t], constants, timeout), ch)
                if all(not x[0].ok for x in single):
                    raise MachineryError(f'{module} trace validation failed to run: {r.error}')
                r.ok = True
                verdict = {}
                for i, (r1, v1) in enumerate(single):
                    if r1.ok:
                        verdict[i + 1] = v1[1]
                    else:
                        verdict[i + 1] = dict(line=len(ch[i][1]['events']), expected=r1.error[:600])
            if not r.ok:
                raise MachineryError(f'{module} trace validation failed to run: {r.error}')
            for i, (seed, t) in enumerate(ch):
                v = verdict.get(i + 1)
                if v is None:
                    raise MachineryError(f'{module}: no verdict for trace {i}')
                nev += len(t['events'])
                if v == 'accept':
                    self.cov['traces_validated_against_impl'] += 1
                else:
                    line = v['line']
                    ev = t['events'][line - 1]
                    pre = t['init'] if line == 1 else t['events'][line - 2]['post']
                    self.violation('trace:line', dict(kind='record', binding=type(binding).__name__, seed=seed, line=line,
                                                      pre=pre, op=ev['op'], got=dict(res=ev['res'], post=ev['post']),
                                                      allowed=v['expected'], length=len(t['events'])),
                                   key=binding.key(pre, ev['op'], dict(res=ev['res'], post=ev['post'])))
        self.cov['recorded_traces'] += len(traces)
        self.cov['recorded_events'] += nev
        seed, t = traces[0]
        self.sample(dict(code_to_spec=dict(seed=seed, init=t['init'], events=t['events'][:2], n=len(t['events']))))

    def _validate_chunk(self, module, ch, constants, timeout):
        d = tempfile.mkdtemp(dir=scratch_root())
        f = os.path.join(d, 'traces.json')
        with open(f, 'w') as fh:
            json.dump([dict(init=t['init'], events=[dict(op=e['op'], res=e['res'], post=e['post']) for e in t['events']])
                       for _, t in ch], fh)
        text = TRACE_TEMPLATE.read_text().replace('@MODULE@', module)
        r = run_tlc(f'{module}Trace', cfg(constants, spec='TSpec'), extra_files={f'{module}Trace.tla': text},
                    env={'VP_TRACE': f}, timeout=timeout)
        verdict = {}
        for row in r.rows:
            if 'accept' in row:
                verdict.setdefault(row['accept'], 'accept')
            elif 'reject' in row:
                verdict[row['reject']] = row
        real_rmtree(d)
        return r, verdict

    # -------- end
    def finish(self):
        outdir = VERIF / 'evidence'
        outdir.mkdir(exist_ok=True)
        cov = {k: v for k, v in self.cov.items()}
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        (outdir / f'{self.pid}.json').write_text(json.dumps(ev, indent=1, default=str) + '\n')
        for key, what in self.known:
            print(f'KNOWN-FINDING: property={self.pid} {what}')
        if self.violations:
            rd = VERIF / 'replays'
            rd.mkdir(exist_ok=True)
            v = self.violations[0]
            h = hashlib.sha1(canon(json.loads(json.dumps(v, default=str))).encode()).hexdigest()[:10]
            f = rd / f'{self.pid}-{h}.json'
            f.write_text(json.dumps(dict(property=self.pid, first=v, n=len(self.violations),
                                         others=self.violations[1:20]), indent=1, default=str) + '\n')
            for w in self.violations[:3]:
                print('  ' + json.dumps(w, default=str)[:1500])
            print(f'{len(self.violations)} disagreements between the code and the specification')
            print(f'VIOLATION property={self.pid} replay={f}')
            return 1
        c = cov
        print(f"{self.pid} held: {c['states']} states, {c['transitions']} transitions model-checked; "
              f"{c['replayed_executions']} replayed transitions, {c['walks']} walks/{c['walk_steps']} steps, "
              f"{c['recorded_traces']} traces/{c['recorded_events']} events validated, {c['fault_runs']} fault runs; "
              f"{ev['wall_s']}s")
        return 0


def load_findings():
    f = VERIF / 'known_findings.json'
    if not f.exists():
        return []
    return json.loads(f.read_text())['findings']


# ---------------------------------------------------------------- bindings
class Binding:
    """connects a spec module to the code. Subclasses define
    start(init, rng, root), do(op) -> res, project() -> state, random_init(rng), random_op(rng, state)"""
    module = None
    reps = 1
    case_timeout = 30
    dead = ()          # results after which the run cannot go on

    def key(self, pre, op, got):
        return None

    def is_init(self, pre):
        return False

    def stop(self):
        pass

    def start(self, init, rng, root):
        raise NotImplementedError

    def do(self, op):
        raise NotImplementedError

    def project(self):
        raise NotImplementedError


@contextlib.contextmanager
def time_limit(sec):
    def h(*a):
        raise Hang()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-4:]))
    return f'{type(e).__name__}: {str(e)[:200]} @ {where}'


class _ReplayJob:
    skipped = None

    def __init__(self, binding):
        self.b = binding

    def __call__(self, job):
        t, seed = job
        b = self.b
        rng = random.Random(seed)
        with scratch() as root:
            got = None
            try:
                with time_limit(b.case_timeout):
                    try:
                        b.start(t['pre'], rng, root)
                        res = b.do(t['op'])
                        post = b.project()
                        got = dict(res=res, post=post)
                    finally:
                        b.stop()
            except Hang:
                return dict(why='hang', got='no result within the time limit')
            except MachineryError:
                raise
            except Exception as e:
                return dict(why='unexpected exception', got=describe(e))
            if (canon(res), canon(post)) not in t['allowed']:
                return dict(why='outcome not allowed', got=got)


class _WalkJob:
    """follows a path of the state graph; stops early where the specification allows several outcomes
    and the code took another one than the path"""
    skipped = (0, None)

    def __init__(self, binding):
        self.b = binding

    def __call__(self, job):
        seed, path = job
        rng = random.Random(seed)
        b = self.b
        op, pre = None, path[0][0]['pre']
        n = 0
        trail = []
        with scratch() as root:
            try:
                with time_limit(b.case_timeout * 4):
                    try:
                        b.start(pre, rng, root)
                        for t, want in path:
                            op, pre = t['op'], t['pre']
                            trail.append(op)
                            res = b.do(op)
                            post = b.project()
                            n += 1
                            got = (canon(res), canon(post))
                            if got not in t['allowed']:
                                return n, dict(why='outcome not allowed', pre=pre, op=op,
                                               got=dict(res=res, post=post), trail=trail,
                                               allowed=list(t['allowed'].values())[:4])
                            if got != want:
                                break
                    finally:
                        b.stop()
            except Hang:
                return n, dict(why='hang', pre=pre, op=op, got='hang', trail=trail)
            except MachineryError:
                raise
            except Exception as e:
                return n, dict(why='unexpected exception', pre=pre, op=op, got=describe(e), trail=trail)
        return n, None


class _RecordJob:
    skipped = dict(init=None, events=[], error=None, op=None)

    def __init__(self, binding):
        self.b = binding

    def __call__(self, job):
        seed, length = job
        rng = random.Random(seed)
        b = self.b
        events = []
        op = None
        init = None
        err = None
        with scratch() as root:
            try:
                with time_limit(b.case_timeout * 4):
                    try:
                        init = b.random_init(rng)
                        b.start(init, rng, root)
                        state = init
                        for _ in range(length):
                            op = b.random_op(rng, state)
                            if op is None:
                                break
                            res = b.do(op)
                            state = b.project()
                            events.append(dict(op=op, res=res, post=state))
                            if (res['r'] if isinstance(res, dict) and 'r' in res else res) in b.dead:
                                break
                    finally:
                        b.stop()
            except Hang:
                err = 'hang'
            except MachineryError:
                raise
            except Exception as e:
                err = describe(e)
        return dict(init=init, events=events, error=err, op=op)


_pool = None


# so that code which hangs or fails everywhere is reported in time: each failure of the code adds to this
TROUBLE = multiprocessing.Value('i', 0)
TOO_MUCH = 240


def _trouble(r):
    why = r.get('why') or r.get('error') if isinstance(r, dict) else r[1]['why'] if isinstance(r, tuple) and r[1] else None
    if why:
        with TROUBLE.get_lock():
            TROUBLE.value += 20 if why == 'hang' else 1


def _pm_call(fx):
    f, x = fx
    try:
        if TROUBLE.value > TOO_MUCH and not os.environ.get('VP_ALL'):
            return ('ok', f.skipped)
        r = f(x)
        _trouble(r)
        return ('ok', r)
    except MachineryError as e:
        return ('machinery', str(e))
    except BaseException as e:
        return ('machinery', describe(e) + '\n' + traceback.format_exc())


def start_pool():
    """workers are forked early, while this process is small (some bindings fork again)"""
    global _pool
    if _pool is None:
        scratch_root()
        sys.stdout.flush()
        _pool = multiprocessing.get_context('fork').Pool(NCPU)
        pid = os.getpid()
        atexit.register(lambda: _pool.terminate() if os.getpid() == pid else None)
    return _pool


def pmap(f, jobs):
    if not jobs:
        return []
    out = start_pool().map(_pm_call, [(f, j) for j in jobs], chunksize=max(1, min(16, len(jobs) // (NCPU * 4) or 1)))
    for k, v in out:
        if k == 'machinery':
            raise MachineryError(v)
    return [v for _, v in out]


import multiprocessing.pool  # noqa: E402
