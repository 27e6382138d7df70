#!/usr/bin/env python3
# run.py MUTANTS OUT SECONDS WORKERS [SEED]: runs sampled mutants (see main.go) in scratch copies of /repo
# against the checks that encode the mutated function. A tool for finding gaps; no check uses it.
import json, glob, os, re, random, subprocess, sys, tempfile, threading, time, shutil
mutf, outf, secs, nw = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
flt = sys.argv[6] if len(sys.argv) > 6 else ''
env = dict(os.environ)
for l in subprocess.check_output(['bash', '-c', '. /verif/env.sh; env']).decode().splitlines():
    k, _, v = l.partition('='); env[k] = v
enc, wall, anch = {}, {}, {}
for l in open('/verif/properties.jsonl'):
    p = json.loads(l); anch[p['id']] = ' '.join(p['anchors']['files'])
for f in glob.glob('/verif/evidence/*.json'):
    d = json.load(open(f)); pid = os.path.basename(f)[:-5]
    wall[pid] = d.get('wall_s') or d['coverage'].get('wall_s') or 20
    for e in d['coverage'].get('functions_encoded', []):
        m = re.sub(r'\$\d+', '', e).replace('gosudachi/', '').replace('(', '').replace(')', '').replace('*', '')
        enc.setdefault(m, set()).add(pid)
muts = []
for l in open(mutf):
    m = json.loads(l)
    if m['Kind'] == 'if not': continue
    src = open('/repo/' + m['File']).read().encode()
    line = src.split(b'\n')[m['Line'] - 1].decode()
    m['src'] = line.strip()
    if re.search(r'err [!=]= nil|Fprint|flag\.|os\.Exit', line): continue
    d = os.path.dirname(m['File']) or 'gosudachi'
    m['checks'] = sorted(enc.get(d + '.' + m['Func'], []), key=lambda c: (m['File'] not in anch.get(c, ''), wall[c]))
    if flt and not re.search(flt, m['File'] + ':' + m['Func']): continue
    muts.append(m)
done = set()
if os.path.exists(outf):
    for l in open(outf):
        r = json.loads(l); done.add((r['File'], r['From'], r['New'], r['Kind']))
# spread over functions
random.Random(seed).shuffle(muts)
byf = {}
for m in muts: byf.setdefault((m['File'], m['Func']), []).append(m)
order = []
i = 0
while any(len(v) > i for v in byf.values()):
    for k in byf:
        n = max(1, (len(byf[k]) + 14) // 15)
        order += byf[k][i * n:(i + 1) * n]
    i += 1
    if i > 400: break
order = [m for m in order if (m['File'], m['From'], m['New'], m['Kind']) not in done]
end = time.time() + secs
lock = threading.Lock()
out = open(outf, 'a')
it = iter(order)
def work(w):
    d = tempfile.mkdtemp(prefix='/tmp/mut.'); 
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    v = tempfile.mkdtemp(prefix='/tmp/mutv.')
    subprocess.check_call('cp -a bin harness checks.json properties.jsonl known-findings.txt env.sh %s/; cp -a gosym %s/' % (v, v), shell=True, cwd='/verif')
    try:
        while time.time() < end:
            with lock:
                m = next(it, None)
            if m is None: return
            p = d + '/' + m['File']; b = open('/repo/' + m['File'], 'rb').read()
            open(p, 'wb').write(b[:m['From']] + m['New'].encode() + b[m['To']:])
            r = dict(m); t0 = time.time()
            try:
                if subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True).returncode: r['res'] = 'nobuild'
                elif subprocess.run(['go', 'test', '-count=1', '-vet=off', '-timeout=20s', '-run', 'TestSettingsJSON_ParseSettingsJSON|TestAsByteArray|TestAsUInt32Array|TestBuild', '.', './dartsclone'], cwd=d, env=env, capture_output=True).returncode: r['res'] = 'tests'
                else:
                    r['res'] = 'SURVIVED'; r['ran'] = []; spent = 0
                    for c in m['checks']:
                        if spent > 240: r['ran'].append('...'); break
                        t = time.time()
                        try:
                            x = subprocess.run([v + '/bin/gosym', '-verif', v, '-repo', d, '-j', str(max(2, 8 // nw)), 'check', c], cwd=v, env=env, capture_output=True, timeout=400)
                            rc, so = x.returncode, x.stdout.decode()
                        except subprocess.TimeoutExpired:
                            rc, so = 'timeout', ''
                        spent += time.time() - t
                        r['ran'].append('%s:%s' % (c, rc))
                        if rc == 1 and 'VIOLATION' in so: r['res'] = 'killed'; break
            except Exception as e:
                r['res'] = 'error ' + str(e)
            open(p, 'wb').write(b)
            r['secs'] = round(time.time() - t0, 1)
            with lock:
                out.write(json.dumps(r, ensure_ascii=False) + '\n'); out.flush()
    finally:
        shutil.rmtree(d); shutil.rmtree(v)
ts = [threading.Thread(target=work, args=(i,)) for i in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
