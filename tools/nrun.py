#!/usr/bin/env python3
# tools/nrun.py HARNESS_ID [harness-file]: builds the native replay binary of a harness at /tmp/nrun_<id> (no sanitizers)
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); os.chdir(V)
import check, tempfile, shutil
pid = sys.argv[1]; h = sys.argv[2] if len(sys.argv) > 2 else os.path.join(V, 'harness', pid + '.cc')
t = tempfile.mkdtemp(); b = check.build_native(t, h, check.directives(h), False)
if b: shutil.copy(b, '/tmp/nrun_' + pid); print('/tmp/nrun_' + pid)
shutil.rmtree(t)
