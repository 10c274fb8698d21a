#!/usr/bin/env python3
"""regenerates src/all.rs: the table of contracts, from the #[no_mangle] functions of src/c*.rs"""
import re,os,glob
d=os.path.dirname(os.path.abspath(__file__))
out=[]
for p in sorted(glob.glob(d+'/src/c[0-9][0-9]*.rs')):
    m=os.path.basename(p)[:-3]; t=open(p).read(); fc=re.search(r'^#!(\[cfg\(.*\)\])$',t,re.M); fc='#'+fc.group(1)+' ' if fc else ''
    for a,n in re.findall(r'#\[no_mangle\]\s*((?:#\[cfg[^\n]*\]\s*)?)pub fn (c\d\d_\w+)\(\)',t): out.append(f'    {fc}{a.strip()+" " if a else ""}("{n}", {m}::{n}),')
t=open(d+'/src/zz.rs').read()
for n in re.findall(r'pub fn (z[zn]_\w+)\(\)',t): out.append(f'    #[cfg(feature = "selftest")] ("{n}", zz::{n}),')
open(d+'/src/all.rs','w').write('pub static ALL: &[(&str, fn())] = &[\n'+'\n'.join(out)+'\n];\n')
