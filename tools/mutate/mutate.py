#!/usr/bin/env python3
"""Sensitivity measurement (not a check): mutates one line of a source file at a time, rebuilds a driver with the mutant and
compares the recorded behaviour with the unmutated one over fixed seeds.  A mutant whose recordings are all identical is one
the histories cannot see.  usage: mutate.py <driver> <file relative to /repo> <count> <seed> <spec>...   spec: args of the driver joined by commas"""
import os, re, sys, random, subprocess, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import build
from drivers import DRIVERS
drv, f, count, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
specs = sys.argv[5:]
exe, out = build.run([drv])
W = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
src = open(os.path.join(build.REPO, f)).read().split('\n')
nin = open(out + '/build.ninja').read()
cxx = re.search(r'rule cxx\n  command = (.*)', nin).group(1).replace('ccache ', '').replace('-MD -MF $out.d', '').replace('-O2', '-O1')
link = re.search(r'rule link\n  command = (.*)', nin).group(1)
objs = ' '.join(out + '/h/' + s + '.o' for s in DRIVERS[drv]['src'])
libs = ' '.join(out + '/lib%s.a' % l for l in DRIVERS[drv]['libs'])
MUT = [(r'(?<![<\-=>])<(?![<=>\w])', '<='), (r'<=', '<'), (r'(?<![<\->=])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ ', ' - '), (r' - ', ' + '), (r'!(?=[a-zA-Z_(])', ''), (r'\b(\d+)\b', lambda m: str(int(m.group(1)) + 1)), (r'\+\+', '--'), (r'\+=', '-='), (r'-=', '+='),
       (r'\bbegin\b', 'end'), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), ('DEL', None), ('DEL', None), ('DEL', None)]
def cands():
    depth = 0
    r = []
    for i, l in enumerate(src):
        s = l.strip()
        if not s or s.startswith(('#', '//', '*', '/*', 'case ', 'namespace', 'using', 'template', 'class', 'struct', 'throw')) or 'logger' in l or 'log(' in l or '<<' in l or 'include' in l: continue
        for m, rep in MUT:
            if m == 'DEL':
                if s.endswith(';') and not s.startswith(('return', 'break', 'continue', '}', 'const ', 'auto ')) and re.match(r'^[\w:\.\[\]\->\*\+]+(\(| [\+\-]?=|\+\+|--|;|\.|\[)', s) and not re.match(r'^[\w:<>\*& ,]+ [\w]+( =.*)?;$', s.split('(')[0] + ';' if '(' in s and ' = ' in s else s): r.append((i, None, l[:len(l) - len(l.lstrip())] + ';'))
            else:
                for k in re.finditer(m, re.sub(r'"[^"]*"', lambda q: '"' + '_' * (len(q.group(0)) - 2) + '"', l)):
                    n = l[:k.start()] + re.sub(m, rep, l[k.start():], count=1)
                    if n != l: r.append((i, None, n))
    return r
def runall(binary, d):
    hs = []
    for s in specs:
        x = d + '/run'; shutil.rmtree(x, ignore_errors=True); os.makedirs(x)
        a = s.split(',')
        try: rc = subprocess.run([binary] + [q.replace('DIR', x) for q in a], cwd=x, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
        except subprocess.TimeoutExpired: rc = 'timeout'
        h = hashlib.sha1()
        for fn in sorted(os.listdir(x)):
            if fn.endswith(('.ndjson', '.defs.json')): h.update(open(x + '/' + fn, 'rb').read())
        hs.append((rc, h.hexdigest())); shutil.rmtree(x, ignore_errors=True)
        yield (rc, h.hexdigest())
base = list(runall(exe[drv], W + '/base')); again = list(runall(exe[drv], W + '/base'))
if base != again: print('NOT DETERMINISTIC', base, again)
c = cands(); random.Random(seed).shuffle(c); c = c[:count]
def one(a):
    k, (i, _, n) = a
    d = '%s/m%d' % (W, k); os.makedirs(d)
    p = d + '/' + os.path.basename(f)
    t = list(src); t[i] = n; open(p, 'w').write('\n'.join(t))
    o = d + '/m.o'
    r = subprocess.run(cxx.replace('$std', 'gnu++11').replace('$out', o).replace('$in', p) + ' -iquote ' + os.path.dirname(os.path.join(build.REPO, f)), shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    res = 'nocompile'
    if r.returncode == 0:
        b = d + '/drv'
        r = subprocess.run(link.replace('$out', b).replace('$in', objs + ' ' + o).replace('$libs', libs).replace('$ldflags', ' '.join(DRIVERS[drv].get('ldflags', []))), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: res = 'nolink ' + r.stdout[-300:]
        else:
            res = 'SURVIVED'
            for q, (x, y) in enumerate(zip(runall(b, d), base)):
                if x != y: res = 'seen at %d rc=%s' % (q, x[0]); break
    shutil.rmtree(d, ignore_errors=True)
    print('%s L%d: %s  ==>  %s' % (res, i + 1, src[i].strip(), n.strip()), flush=True)
    return res.split()[0]
with ThreadPoolExecutor(int(os.environ.get('PAR', '8'))) as ex: rs = list(ex.map(one, enumerate(c)))
print({x: rs.count(x) for x in set(rs)})
shutil.rmtree(W); shutil.rmtree(out)
