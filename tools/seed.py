"""plant a bug: python3 tools/seed.py SPEC.json...  (spec: id, property, edits [[file, old, new]], demo (C++ main body), needs, what_it_breaks)
Builds a scratch copy, runs the tests and the demo on both trees, and keeps /verif/seeded/<id> if all is as required."""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif/seeded'
DEMO = '''#!/bin/bash
# run with cwd = repository root
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O1 -DNDEBUG -I include "$d/demo.cpp" -o "$w/demo" || exit 2
timeout 60 "$w/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def base():
    return set(json.load(open('/opt/vp/BASELINE.json'))['passed'] if 'passed' in json.load(open('/opt/vp/BASELINE.json')) else [])
def main(specs):
    for sp in specs:
        s = json.load(open(sp)) if isinstance(sp, str) else sp
        w = tempfile.mkdtemp(prefix='seed_')
        try:
            r = os.path.join(w, 'repo'); sh('cp -a /repo %s; rm -rf %s/_build' % (r, r)); sh('git -C %s checkout -- .' % r)
            d = os.path.join(w, 'demo'); os.makedirs(d)
            body = s['demo']
            if 'int main' not in body:
                body = '#include <vecmath/bbox.h>\n' + ''.join('#include <vecmath/%s.h>\n' % h for h in ['forward', 'scalar', 'vec', 'vec_ext', 'mat', 'mat_ext', 'quat', 'plane', 'line', 'ray', 'segment', 'polygon', 'intersection', 'distance', 'bezier_surface', 'convex_hull', 'approx', 'abstract_line'] if os.path.exists('/repo/include/vecmath/%s.h' % h)) + \
                    '#include <cmath>\n#include <cstdio>\n#include <vector>\n#include <array>\n#include <string>\nusing namespace vm;\nstatic int bad = 0;\n#define REQ(c) do { if (!(c)) { std::printf("FAILED: %s\\n", #c); bad = 1; } } while (0)\n[[maybe_unused]] static bool near(double a, double b, double e = 1e-6) { return std::fabs(a - b) <= e; }\n' + s.get('pre', '') + '\nint main() {\n' + body + '\n  return bad;\n}\n'
            open(os.path.join(d, 'demo.cpp'), 'w').write(body); open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            a = sh('bash %s/demo.sh' % d, cwd=r)
            if a.returncode: print(s['id'], 'REJECT demo fails on the unchanged tree', a.stdout[-500:], a.stderr[-1500:]); continue
            ok = True
            for f, o, n in s['edits']:
                p = os.path.join(r, 'include/vecmath', f) if '/' not in f else os.path.join(r, f)
                x = open(p).read()
                if x.count(o) != 1: print(s['id'], 'REJECT edit matches %d times: %s' % (x.count(o), o)); ok = False; break
                open(p, 'w').write(x.replace(o, n))
            if not ok: continue
            diff = sh('git -C %s diff' % r).stdout
            b = sh('bash %s/demo.sh' % d, cwd=r)
            if b.returncode == 0: print(s['id'], 'REJECT demo passes with the change'); continue
            if b.returncode == 2: print(s['id'], 'REJECT demo does not compile', b.stderr[-800:]); continue
            tst = run_tests(r, w)
            if tst is not True: print(s['id'], 'REJECT tests:', tst); continue
            o = os.path.join(V, s['id']); os.makedirs(o, exist_ok=True)
            for f in ('demo.cpp', 'demo.sh'): shutil.copy(os.path.join(d, f), o)
            open(os.path.join(o, 'patch.diff'), 'w').write(diff)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what_it_breaks']), open(os.path.join(o, 'meta.json'), 'w'), indent=1)
            print(s['id'], 'KEPT', b.stdout.strip()[:200])
        finally: shutil.rmtree(w, ignore_errors=True)
def run_tests(r, w):
    """the repository's tests in the patched copy (build and test scripts redirected to it)"""
    for n in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + n).read().replace('/opt/vp/build.sh', w + '/build.sh').replace('/repo', r); open(os.path.join(w, n), 'w').write(t)
    b = sh('bash %s/build.sh' % w)
    if b.returncode: return 'build: ' + (b.stdout + b.stderr)[-600:]
    out = os.path.join(w, 'o.json'); sh('bash %s/test.sh %s' % (w, out))
    o = json.load(open(out))
    return True if not o['failed'] and len(o['passed']) == 396 else 'failed: %s' % o['failed'][:8]
if __name__ == '__main__': main(sys.argv[1:])
