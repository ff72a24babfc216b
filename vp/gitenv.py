"""git without anything of the machine: its own home, no hooks, fixed people, fixed times"""
import os, subprocess, tempfile, atexit, shutil

_home = [None]


def setup():
    if _home[0] and _home[0][0] == os.getpid():
        return _home[0][1]
    h = tempfile.mkdtemp(prefix='vp-git-')
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(h, ignore_errors=True))
    _home[0] = (pid, h)
    with open(h + '/.gitconfig', 'w') as f:
        f.write('[user]\n name = n\n email = e@e\n[init]\n defaultBranch = main\n templateDir = %s/none\n[gc]\n auto = 0\n'
                '[core]\n fsync = none\n[advice]\n detachedHead = false\n[safe]\n directory = *\n' % h)
    os.mkdir(h + '/none')
    for k in list(os.environ):
        if k.startswith('GIT_'):
            del os.environ[k]
    os.environ.update(HOME=h, GIT_CONFIG_NOSYSTEM='1', GIT_TERMINAL_PROMPT='0', GIT_CEILING_DIRECTORIES=tempfile.gettempdir(),
                      GIT_AUTHOR_NAME='n', GIT_AUTHOR_EMAIL='e@e', GIT_COMMITTER_NAME='n', GIT_COMMITTER_EMAIL='e@e',
                      LC_ALL='C.UTF-8')
    return h


def git(d, *a, input=None, check=True):
    r = subprocess.run(['git', '-C', d, *a], capture_output=True, input=input)
    if check and r.returncode:
        raise RuntimeError(f'git {a}: {r.stderr[:300]}')
    return r.stdout
