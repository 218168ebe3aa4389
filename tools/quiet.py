"""Runs all checks on behaviour-preserving variants of /repo (quiet/*.diff): none may report anything.

tools/quiet.py [--scale 0.2] [--checks C01,C02] [NAME...]"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = os.environ.get('QUIET_TMP', '/tmp/w/quiet')
PY = '/opt/venv/bin/python'


def arg(a, name, default):
    if name in a:
        k = a.index(name)
        v = a[k + 1]
        del a[k:k + 2]
        return v
    return default


def main(a):
    scale = float(arg(a, '--scale', '0.2'))
    only = arg(a, '--checks', '')
    sys.path.insert(0, HERE)
    from simuff import checks
    sys.path.insert(0, os.path.join(HERE, 'tools'))
    import plant
    have = checks.all_checks()
    names = a or sorted(x[:-5] for x in os.listdir(os.path.join(HERE, 'quiet')) if x.endswith('.diff'))
    bad = 0
    for n in names:
        d = os.path.join(TMP, n)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        assert os.system('git -C /repo archive HEAD | tar -x -C %s' % d) == 0
        if subprocess.run(['patch', '-s', '-p1', '-i', os.path.join(HERE, 'quiet', n + '.diff')], cwd=d).returncode:
            print(n, 'PATCH FAILS', flush=True)
            bad += 1
            continue
        m = plant.tests(d)
        out = ['TESTS %s' % sorted(m)] if m else []
        t = time.time()
        for i in sorted(have):
            if only and i not in only.split(','):
                continue
            r = subprocess.run(['./check', i, '--runs', str(int(have[i].quick * scale))], cwd=HERE,
                               env=dict(os.environ, SIMUFF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                out.append('%s exit %d: %s' % (i, r.returncode, r.stdout.decode()[-600:]))
        print(n, '%d s' % (time.time() - t), out or 'quiet', flush=True)
        bad += bool(out)
        shutil.rmtree(d, ignore_errors=True)
    return bad


sys.exit(1 if main(sys.argv[1:]) else 0)
