"""Confirms planted bugs: tools/plant.py [--check] [--runs N] ID...

For each seeded/ID: the patch applies to a scratch copy of /repo, the stable tests still pass there, demo.sh
exits 0 on an unchanged copy and nonzero on the changed one; with --check, whether the check of its property
(quick) reports it (SIMUFF_REPO points the simulator to the copy)."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = '/tmp/w/plant'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf8', 'replace')


def fresh(name):
    d = os.path.join(TMP, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert os.system('git -C /repo archive HEAD | tar -x -C %s' % d) == 0
    return d


def tests(d):
    x = os.path.join(d, 'j.xml')
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'], d, {'PYTHONPATH': d})
    o = os.path.join(d, 'o.json')
    sh(['/usr/bin/python3', '/opt/vp/results.py', o, 'junit:' + x], d)
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(o))['passed'])


def main(a):
    check = '--check' in a
    runs = []
    if '--runs' in a:
        k = a.index('--runs')
        runs = a[k:k + 2]
        del a[k:k + 2]
    ids = [x for x in a if not x.startswith('-')] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    for i in ids:
        src = os.path.join(HERE, 'seeded', i)
        meta = json.load(open(os.path.join(src, 'meta.json')))
        good, bad, dem = fresh('good'), fresh('bad'), os.path.join(TMP, 'demo')
        r = sh(['git', 'apply', '--directory=' + os.path.relpath(bad, '/'), '--unsafe-paths', os.path.join(src, 'patch.diff')], '/')
        if r[0]:
            r = sh(['patch', '-p1', '-i', os.path.join(src, 'patch.diff')], bad)
        out = []
        if r[0]:
            out.append('PATCH FAILS ' + r[1])
        else:
            m = tests(bad)
            if m:
                out.append('TESTS %s' % sorted(m))
            shutil.rmtree(dem, ignore_errors=True)
            shutil.copytree(src, dem)
            g = sh(['bash', os.path.join(dem, 'demo.sh')], good)
            b = sh(['bash', os.path.join(dem, 'demo.sh')], bad)
            if g[0]:
                out.append('DEMO FAILS ON GOOD: ' + g[1][-600:])
            if not b[0]:
                out.append('DEMO PASSES ON BAD')
            elif '-v' in a:
                out.append('demo: ' + b[1][-300:])
            if check:
                t = time.time()
                for p in meta['property'].split(','):
                    c = sh([os.path.join(HERE, 'check'), p] + runs, HERE, {'SIMUFF_REPO': bad})
                    v = [x for x in c[1].splitlines() if 'VIOLATION' in x or x.startswith('run ')]
                    out.append('%s exit %d %.0fs %s' % (p, c[0], time.time() - t, ' | '.join(v)[:300]))
        print(i, meta['property'], '; '.join(out) or 'ok', flush=True)
    shutil.rmtree(TMP, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
