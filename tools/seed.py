#!/usr/bin/env python3
"""Keep a planted bug (development aid; no check uses it).
  seed.py keep ID PROP 'needs' 'breaks'   uncommitted change in /tmp/sd + /tmp/sd_demo.cc -> seeded/ID
  seed.py check ID...                     run the property's check on seeded bugs (applied in /tmp/sd)
Scratch: /tmp/sd (copy of /repo), /tmp/sdb (its build), /tmp/sdo (demo objects), /tmp/sdv (check output)."""
import json, os, shutil, subprocess as sp, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD, SB, SV = '/tmp/sd', '/tmp/sdb', '/tmp/sdv'
def sh(c, **k): return sp.run(c, shell=True, capture_output=True, text=True, **k)
def build():
    return sh(f'make -s -f {V}/build.mk -j8 all R={SD} V={V} B={SB}')
F = f'-std=c++17 -O0 -w -include cstdint -DINCLUDE_FILESYSTEM -I{V}/shim -I{SD}/src -I{SD}/extern/hgdb/include -pthread'
def demo(cc, lib, out):
    r = sh(f'g++ {F} {cc} {lib} -lfmt -lstdc++fs -pthread -o {out}')
    if r.returncode: return 99, r.stderr[-2000:]
    d = sp.run(['mktemp', '-d'], capture_output=True, text=True).stdout.strip()
    try: r = sh(f'timeout 60 {out}', cwd=d)
    finally: shutil.rmtree(d)
    return r.returncode, (r.stdout + r.stderr)[-1500:]
def gtests():
    stable = [x.split('::')[0] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
    r = sh(f'cd /tmp/gt && g++ -o gtb test_*.o {SB}/libkratos.a -lgtest -lgtest_main -lfmt -lstdc++fs -pthread && cd {SD}/tests/vectors && /tmp/gt/gtb --gtest_filter={":".join(stable)}')
    return r.returncode, r.stdout[-1500:]
def check(prop, cases=None):
    os.makedirs(SV, exist_ok=True)
    shutil.copy(f'{V}/known_findings.json', SV)
    r = sh(f'{SB}/check {prop} --tier quick --seed 1 --verif {SV}')
    return r.returncode, r.stdout[-3000:]
def main():
    if sys.argv[1] == 'keep':
        i, prop, needs, breaks = sys.argv[2:6]
        patch = sh(f'git -C {SD} diff').stdout
        assert patch
        d = f'{V}/seeded/{i}'
        b = build()
        if b.returncode: print(b.stderr[-3000:]); return 1
        base = '/tmp/sdb_base/libkratos.a'
        g = gtests()
        if g[0]: print('STABLE TESTS FAIL', g[1]); return 1
        rc0, o0 = demo('/tmp/sd_demo.cc', base, '/tmp/sdo0'); rc1, o1 = demo('/tmp/sd_demo.cc', f'{SB}/libkratos.a', '/tmp/sdo1')
        print('demo base', rc0, o0 if rc0 else ''); print('demo patched', rc1, o1)
        if rc0 != 0 or rc1 in (0, 99): print('NOT KEPT'); return 1
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch); shutil.copy('/tmp/sd_demo.cc', d + '/demo.cc')
        for f in ('demo.sh', 'cxxpool.h.txt'): shutil.copy(f'{V}/tools/demo/{f}', d)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        rc, o = check(prop); print('CHECK', rc, '\n'.join(o.split('\n')[:3])[:500], o[-200:]); sh(f'git -C {SD} checkout -- .')
    elif sys.argv[1] == 'base':
        sh(f'rm -rf {SD} {SB} /tmp/sdb_base'); sh(f'cp -a /repo {SD}'); sh(f'git -C {SD} checkout -- .')
        b = build(); print(b.stderr[-2000:]); sh(f'cp -a {SB} /tmp/sdb_base')
    elif sys.argv[1] == 'check':
        for i in sys.argv[2:]:
            d = f'{V}/seeded/{i}'; m = json.load(open(d + '/meta.json'))
            a = sh(f'git -C {SD} apply {d}/patch.diff')
            if a.returncode: print(i, 'does not apply', a.stderr); continue
            b = build()
            rc, o = check(m['property']) if not b.returncode else (-1, b.stderr[-1000:])
            print(i, m['property'], 'CAUGHT' if rc == 1 else f'MISSED rc={rc}', o[-200:].replace('\n', ' | ') if rc == 1 else o[-600:], flush=True)
            sh(f'git -C {SD} checkout -- .')
sys.exit(main())
