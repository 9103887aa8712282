#!/usr/bin/env python3
"""Mutation test of the checks (development tool, not a check).

run.py OUT.jsonl [--max N per file] [--files f1,f2,..]: mutates the files the
properties are anchored in, runs the checks of those properties on a copy and
records which mutants survive.
"""
import json, os, random, shutil, subprocess, sys, tempfile, collections
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out = sys.argv[1]
opt = dict(a.split('=', 1) for a in sys.argv[2:])
mx = int(opt.get('max', '40'))
only = set(opt['files'].split(',')) if 'files' in opt else None
props = collections.defaultdict(list)
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    if p['id'].startswith('N'):
        continue
    for f in p['anchors']['files']:
        props[f].append(p['id'])
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l)
        done.add((d['file'], d['off'], d['new']))
tmp = tempfile.mkdtemp(prefix='mutate')
subprocess.check_call(['go', 'build', '-o', tmp + '/mutate', V + '/tools/mutate/main.go'], cwd='/', env=dict(os.environ, GO111MODULE='off'))
gp = tmp + '/gp'
os.makedirs(gp + '/src/github.com/vipally')
repo = tmp + '/repo'
shutil.copytree('/repo', repo, symlinks=True)
os.symlink(repo, gp + '/src/github.com/vipally/gx')
env = dict(os.environ, GOPATH=gp, GO111MODULE='off', CGO_ENABLED='1')
rnd = random.Random(int(opt.get('seed', '1')))
work = []
for f in sorted(props):
    if not f.endswith('.go') or f.endswith('.gp.go') or only and f not in only:
        continue
    ms = [json.loads(l) for l in subprocess.check_output([tmp + '/mutate', '/repo/' + f]).splitlines()]
    rnd.shuffle(ms)
    work += [(f, m) for m in ms[:mx]]
rnd.shuffle(work)
try:
    for f, m in work:
        if (f, m['Off'], m['New']) in done:
            continue
        src = open('/repo/' + f, 'rb').read()
        new = src[:m['Off']] + m['New'].encode() + src[m['End']:]
        open(repo + '/' + f, 'wb').write(new)
        rec = dict(file=f, line=m['line'], fn=m['fn'], what=m['what'], off=m['Off'], new=m['New'])
        pkg = 'github.com/vipally/gx/' + os.path.dirname(f)
        if subprocess.call(['go', 'build', '-o', '/dev/null', pkg], env=env, cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL):
            rec['result'] = 'nobuild'
        else:
            rec['result'] = 'survived'
            rec['by'] = []
            for p in props[f]:
                try:
                    r = subprocess.run([V + '/bin/engine', '-repo', repo, '-evidence', tmp + '/ev', '-budget', opt.get('budget', '40'), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
                    rec['by'].append([p, r.returncode])
                    if r.returncode == 1:
                        rec['result'] = 'killed'
                        break
                except subprocess.TimeoutExpired:
                    rec['by'].append([p, 'timeout'])
        open(repo + '/' + f, 'wb').write(src)
        with open(out, 'a') as o:
            o.write(json.dumps(rec) + '\n')
finally:
    shutil.rmtree(tmp)
