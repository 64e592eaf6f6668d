#!/usr/bin/env python3
"""tools/seedlines.py -- does every planted bug remove a line of the original repository?  (root commit, by blame)"""
import subprocess, glob, re, os
root = subprocess.check_output('git -C /repo rev-list --max-parents=0 HEAD', shell=True, text=True).split()[0]
for d in sorted(glob.glob('/verif/seeded/*')):
    f = None; ln = 0; orig = 0; added = 0
    for l in open(d + '/patch.diff'):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-l', '-L', f'{ln},{ln}', 'HEAD', '--', f], text=True)
            if b.lstrip('^').startswith(root[:38]): orig += 1
            else: added += 1
            ln += 1
        elif l.startswith(' '): ln += 1
    print(os.path.basename(d), 'original', orig, 'ours', added, '' if orig and not added else '   <<<<')
