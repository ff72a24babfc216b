"""seed(id, prop, edits, needs, breaks, demo): writes /verif/seeded/<id> (a planted change and its demonstration)"""
import os, json, subprocess, tempfile, pathlib, shutil
V = pathlib.Path('/verif/seeded')
PRE = '''import os, sys, tempfile, shutil, atexit, pathlib
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
os.environ['PYTHONBREAKPOINT'] = '0'
base = pathlib.Path(os.path.realpath(tempfile.mkdtemp(prefix='demo-')))
atexit.register(lambda pid=os.getpid(): os.getpid() == pid and (os.chdir('/'), shutil.rmtree(base, ignore_errors=True)))
os.chdir(base)
import augpathlib as aug
'''


def seed(id, prop, edits, needs, breaks, demo, pre=None):
    w = tempfile.mkdtemp(prefix='mkseed-', dir='/tmp')
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    for f, old, new in edits:
        p = pathlib.Path(w, 'r', f)
        s = p.read_text()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        p.write_text(s.replace(old, new))
    d = V / id
    d.mkdir(parents=True, exist_ok=True)
    diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True, check=True).stdout
    (d / 'patch.diff').write_text(diff)
    (d / 'meta.json').write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1))
    (d / 'demo.py').write_text((pre or PRE) + demo)
    (d / 'demo.sh').write_text('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    shutil.rmtree(w)


# demonstrations that need a cached tree: world w, Local, Cache, Remote, when(n), meta(id, name, ...), a(), r = the anchored root
MEM = PRE + (pathlib.Path(__file__).parent.parent / 'vp/mem.py').read_text() + '''
aug.utils.log.setLevel('CRITICAL')
w = World('r')
def a():
    global Local, Cache, Remote, r
    Local, Cache, Remote = make(w)
    Remote.init(w.root)
    Remote.dropAnchor(Local(base))
    r = Local(base / 'r')
'''
