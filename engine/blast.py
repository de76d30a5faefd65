# Bit-blast an SMT-LIB file whose inputs are named Boolean bits, decide it with
# kissat, and print sat/unsat plus the values of the inputs.
import sys, re, subprocess, z3
src, cnf = sys.argv[1], sys.argv[2]
g = z3.Goal()
fs = z3.parse_smt2_file(src)
g.add(fs)
t = z3.Then(z3.With('simplify', elim_and=True), 'fpa2bv', 'simplify', z3.With('simplify', local_ctx=False), 'bit-blast', 'simplify', 'aig', 'tseitin-cnf')
r = t(g)
assert len(r) == 1
g = r[0]
if g.inconsistent():
    print('unsat'); sys.exit(0)
d = g.dimacs()
names = {}
lines = []
for l in d.split('\n'):
    if l.startswith('c '):
        _, i, n = l.split(' ', 2)
        names[int(i)] = n
    else:
        lines.append(l)
open(cnf, 'w').write('\n'.join(lines) + '\n')
p = subprocess.run(['kissat', '-q', cnf], capture_output=True, text=True)
if p.returncode == 20:
    print('unsat')
elif p.returncode == 10:
    val = {}
    for l in p.stdout.split('\n'):
        if l.startswith('v '):
            for x in l[2:].split():
                x = int(x)
                if x: val[abs(x)] = x > 0
    vec = {}
    for i, n in names.items():
        m = re.match(r'^(e\d+b?)_(\d+)$', n)
        if m:
            vec[m.group(1)] = vec.get(m.group(1), 0) | (int(val.get(i, False)) << int(m.group(2)))
    print('sat')
    print('(' + ' '.join('(%s #x%x)' % (k, v) for k, v in vec.items()) + ')')
else:
    print('unknown')
