#!/usr/bin/env python3
"""Writes sim/src/flags_list.rs: the flag accessors of the library's public API (run by hand; its output is committed)."""
import re,sys,glob
gen=sorted(glob.glob('/verif/sim/target/release/build/dxf-*/out/generated'))[-1]
out=['// Written by tools/gen_flags.py: the flag accessors of the public API.\n','use super::*;\n\n','pub fn all() -> Vec<Item> {\n    let mut v: Vec<Item> = vec![];\n']
for kind,path in (('header',gen+'/header.rs'),('block','/repo/src/block.rs'),('class','/repo/src/class.rs'),('view','/repo/src/enums.rs'),('entity',gen+'/entities.rs'),('object',gen+'/objects.rs')):
    ty=None; by={}
    for l in open(path):
        m=re.match(r'impl (\w+) \{',l)
        if m: ty=m[1]
        m=re.match(r'\s+pub fn set_(\w+)\(&mut self, \w+: bool\)',l)
        if m: by.setdefault(ty,[]).append(m[1])
    for t,fs in by.items():
        out.append('    %s_flags!(v, %s, %s);\n'%(kind,t,', '.join('%s set_%s'%(f,f) for f in fs)))
out.append('    v\n}\n')
open('/verif/sim/src/flags_list.rs','w').write(''.join(out))
