"""Joins two tables: a field survives where one says so and the other does not say that it was lost."""
import re, sys
def un(s): return ''.join(c * int(n) for c, n in re.findall(r'([-+?])(\d+)', s))
def rle(s): return ''.join(m.group(1)[0] + str(len(m.group(1))) for m in re.finditer(r'((.)\2*)', s))
def load(p):
    return {tuple(l.split('\t')[:2]): un(l.rstrip('\n').split('\t')[2]) for l in open(p)}
a, b = load(sys.argv[1]), load(sys.argv[2])
n = max(len(v) for v in a.values())
for k in sorted(set(a) | set(b)):
    x, y = a.get(k, '?' * n), b.get(k, '?' * n)
    c = ''.join('-' if '-' in p + q else '+' if '+' in p + q else '?' for p, q in zip(x, y))
    print('\t'.join([*k, rle(c)]))
