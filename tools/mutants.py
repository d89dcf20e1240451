#!/usr/bin/env python3
"""mutants.py LIST W K OUT: run the checks on every K-th mutant of LIST
(from tools/mutate), starting at W, inside private mounts of /repo and /verif;
appends one line per mutant to OUT. Not used by any check."""
import json, os, subprocess, sys, time

LIST, W, K, OUT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
ORDER = {
    'sm3/sm3.go': 'C02 C01 C03 C25',
    'sm2/sm2.go': 'C07 C04 C06 C05 C08 C03 C12 C10 C09 C23 C24',
    'pkcs12/rc2.go': 'C20 C19 C18 C23',
    'pkcs12/pbkdf.go': 'C20 C19 C18',
    'pkcs12/': 'C19 C21 C20 C18 C23 C24',
    'x509/parser.go': 'C26 C11 C13 C14 C12 C15 C23 C10 C09 C24',
    'x509/pkcs7.go': 'C16 C17 C23 C24 C12',
    'x509/pkcs8.go': 'C10 C09 C18 C23 C24',
    'x509/sec1.go': 'C10 C09 C18 C23 C24',
    'x509/pkcs1.go': 'C10 C09 C18 C23 C24',
    'x509/': 'C15 C12 C25 C13 C14 C11 C26 C10 C09 C23 C16 C17 C18 C24',
}
env = dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off', GOWORK='off',
           CGO_ENABLED='0', MC_VERIF='/verif', VERIF_SEED='1', VERIF_TIER='quick')
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        done.add(json.loads(l)['desc'])
muts = [json.loads(l) for l in open(LIST)]
for i, m in enumerate(muts):
    if i % K != W or m['desc'] in done:
        continue
    p = '/repo/' + m['file']
    orig = open(p, 'rb').read()
    open(p, 'wb').write(orig[:m['off']] + m['text'].encode() + orig[m['end']:])
    t0 = time.time()
    res = {'desc': m['desc'], 'i': i}
    try:
        b = subprocess.run(['go', 'build', '-o', '/verif/mcbin', '.'], cwd='/verif/mc', env=env, capture_output=True, text=True)
        if b.returncode:
            res['r'] = 'nobuild'
        else:
            checks = next(v for k, v in ORDER.items() if m['file'].startswith(k))
            res['r'] = 'SURVIVED'
            for c in m.get('checks', checks.split()):
                try:
                    r = subprocess.run(['/verif/mcbin', 'check', c], cwd='/verif', env=env, capture_output=True, text=True, timeout=400)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                    r = None
                if rc != 0:
                    res['r'] = 'killed'
                    res['by'] = c
                    if r is not None:
                        lines = [x for x in r.stdout.splitlines() if x and not x.startswith('VIOLATION')]
                        res['how'] = (lines[0] if lines else r.stderr[:200])[:200]
                        if rc != 1:
                            res['r'] = 'rc%s' % rc
                    else:
                        res['r'] = 'timeout'
                    break
    finally:
        open(p, 'wb').write(orig)
    res['t'] = round(time.time() - t0, 1)
    with open(OUT, 'a') as f:
        f.write(json.dumps(res) + '\n')
