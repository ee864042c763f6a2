#!/usr/bin/env python3
"""setup_cmd: nothing to install; checks that both compilers run and their sanitizer runtimes link."""
import subprocess, tempfile, os, sys
with tempfile.TemporaryDirectory(prefix='qlv-pre-') as d:
    s = os.path.join(d, 'a.cpp'); open(s, 'w').write('int main(){return 0;}\n')
    for cc, san in (('clang++-18', 'address,undefined'), ('clang++-18', 'thread'), ('clang++-18', 'memory'), ('g++', 'address,undefined')):
        r = subprocess.run(['/usr/bin/' + cc, '-fsanitize=' + san, s, '-o', os.path.join(d, 'a')])
        if r.returncode:
            sys.exit('toolchain: %s -fsanitize=%s does not work' % (cc, san))
print('toolchain ok')
