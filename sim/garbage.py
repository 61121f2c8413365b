#!/usr/bin/env python3
# garbage.py IN.ll OUT.ll - gives uninitialised local variables contents the simulator chooses.
# clang -ftrivial-auto-var-init=pattern marks the stores it adds with "auto-init"; each of them is
# rewritten to store a value taken from the array sim_garbage, which every memory world refills.
import re, sys
src = open(sys.argv[1]).read(); tag = re.search(r'^!(\d+) = !\{!"auto-init"\}$', src, re.M); n = 0
PAT = {'double': '0xFFFFFFFFFFFFFFFF', 'float': '0xFFFFFFFFE0000000', 'i64': '-6148914691236517206', 'i32': '-1431655766', 'i16': '-21846', 'i8': '-86'}
st = re.compile(r'^  store (double|float|i64|i32|i16|i8) (\S+), (ptr \S+, align \d+)(.*)$')
ms = re.compile(r'^  call void @llvm\.memset\.\S+\(ptr (align \d+) (\S+), i8 (-86|-1), i64 (\d+), i1 false\)(.*)$')
out = []
if tag:
    mark = '!annotation !' + tag.group(1)
    for l in src.split('\n'):
        if mark in l and re.search(mark + r'(?!\d)', l):
            m = st.match(l)
            if m and PAT[m.group(1)] == m.group(2):
                n += 1; v = '%simg' + str(n); off = (n * 5 % 61) * 8 if m.group(1) == 'double' else 0
                out.append('  %s = load %s, ptr @sim_garbage, align 1, !nosanitize !{}' % (v, m.group(1)) if not off else '  %s = load %s, ptr getelementptr (i8, ptr @sim_garbage, i64 %d), align 1, !nosanitize !{}' % (v, m.group(1), off))
                out.append('  store %s %s, %s%s' % (m.group(1), v, m.group(3), m.group(4))); continue
            m = ms.match(l)
            if m:
                n += 1
                if int(m.group(4)) <= 8192: out.append('  call void @llvm.memcpy.p0.p0.i64(ptr %s %s, ptr align 16 @sim_garbage, i64 %s, i1 false)%s' % (m.group(1), m.group(2), m.group(4), m.group(5)))
                else: out.append('  %%simg%d = load i8, ptr @sim_garbage, align 1, !nosanitize !{}' % n); out.append(l.replace('i8 ' + m.group(3) + ',', 'i8 %%simg%d,' % n))
                continue
        out.append(l)
else: out = src.split('\n')
text = '\n'.join(out)
if n:
    text += '\n@sim_garbage = external global [1024 x i64], align 16\n'
    if 'declare void @llvm.memcpy.p0.p0.i64(' not in text: text += 'declare void @llvm.memcpy.p0.p0.i64(ptr noalias nocapture writeonly, ptr noalias nocapture readonly, i64, i1 immarg)\n'
open(sys.argv[2], 'w').write(text)
