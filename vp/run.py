import os, sys, importlib, json, pathlib, traceback
here = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(here))
import lib
sys.path.insert(0, str(lib.REPO))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    mod = None
    for f in sorted((here / 'props').glob('*.py')):
        if f.stem.startswith(pid.lower() + '_'):
            mod = f.stem
    if mod is None:
        print('no check for', pid)
        return 2
    sys.path.insert(0, str(here / 'props'))
    os.environ.setdefault('HOME', lib.scratch_root())
    m = importlib.import_module(mod)
    c = lib.Check(pid)
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        d = json.loads(pathlib.Path(sys.argv[3]).read_text())['first']['detail']
        print(json.dumps(d, indent=1))
        return 0
    lib.start_pool()
    try:
        m.check(c)
    except lib.Enough:
        pass
    except lib.MachineryError as e:
        if not c.violations:
            print('MACHINERY', e)
            return 2
        print('machinery also failed:', str(e)[:300])
    return c.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
