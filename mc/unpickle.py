"""a process of C38: python unpickle.py <file> <kind> <which operation first>; prints what the values do"""
import sys
sys.path[:0] = ['/repo', __file__.rsplit('/', 2)[0]]
import json, pickle
with open(sys.argv[1], 'rb') as f:
    xs = pickle.load(f)
import logging, logzero
logzero.loglevel(logging.CRITICAL)
from mc import values
kind, first = sys.argv[2], int(sys.argv[3])
out = []
for x in xs:
    ops = values.table()[kind][2](x)
    k = (first * 3) % len(ops)
    d = values.describe(ops[k:] + ops[:k])
    out.append(d)
print(json.dumps(out, default=str))
