#!/usr/bin/env python3
"""replay.py FILE: runs a recorded counterexample against the code now in /repo."""
import os, re, shutil, sys, tempfile
import check as C
import jobs as J

path = os.path.abspath(sys.argv[1])
text = open(path).read()
m = re.search(r'^# property (\S+) job (\w+)\(([-\d,]*)\)(?:/\w+)? \((\w+) build\): (.*)$', text, re.M)
if not m:
    sys.exit('not a replay file')
inputs = [int(x) for x in text.splitlines()[0].split()]
job = J.Job(m[2], [int(x) for x in m[3].split(',') if x])
d = tempfile.mkdtemp(dir=os.path.join(C.HERE, 'build') if os.path.isdir(os.path.join(C.HERE, 'build')) else None)
try:
    b = C.build_replay(d, m[4])
    rc, out = C.replay(b, job, inputs, os.path.join(d, 'in.txt'), valgrind=m[5].startswith('memory'))
    print('%s %s: %s' % (m[1], job.name(), m[5]))
    print('exit %d: %s' % (rc, out.strip()))
    sys.exit(1 if rc else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
