#!/usr/bin/env python3
"""One-off tool that produced spec/ucd16.txt, the Unicode 16.0.0 data every specification is stated over.

There is no UCD in this sandbox, so the data was read from the tables of the pinned commit (/repo at
the first commit) and then confronted with independent copies of the database (tools/validate_ucd.py):
ICU 78 (node, Unicode 17), ICU 74 (Unicode 15.1), python (15.0), perl (15.0).  From then on
ucd16.txt is the reference: no check reads anything from /repo's tables into its specification."""
import re,sys,itertools
src=open(sys.argv[1]).read()
def const(name):
    m=re.search(r'const '+name+r': &\[(.*?)\] = &\[(.*?)\n\];',src,re.S); return m.group(2)
def ch(s):
    s=s.strip()
    if s.startswith("'"):
        b=s[1:-1]
        return int(b[3:-1],16) if b.startswith('\\u') else ord(b.encode().decode('unicode_escape') if b.startswith('\\') else b)
    return int(s,0)
def ints(name): return [int(x,0) for x in re.findall(r'0x[0-9a-fA-F]+|\d+',const(name))]
CH=r"'(?:\\u\{[0-9a-fA-F]+\}|\\.|[^'])'"
def chars(name): return [ch(x) for x in re.findall(CH,const(name))]
def pairs(name): return [(int(a,0),(int(b,0),int(c,0))) for a,b,c in re.findall(r'\((0x[0-9a-fA-F]+), \((0x[0-9a-fA-F]+|\d+), (0x[0-9a-fA-F]+|\d+)\)\)',const(name))]
out=[]
def runs(d):
    ks=sorted(d); r=[]
    for k in ks:
        if r and r[-1][1]==k-1 and r[-1][2]==d[k]: r[-1][1]=k
        else: r.append([k,k,d[k]])
    return r
ccc={kv>>8:kv&0xff for kv in ints('CANONICAL_COMBINING_CLASS_KV')}
ccc={k:v for k,v in ccc.items() if v}
for a,b,v in runs(ccc): out.append(f'C {a:X} {b:X} {v}')
for a,b,_ in runs({k:1 for k in ints('COMBINING_MARK_KV')}): out.append(f'M {a:X} {b:X}')
m=re.search(r'pub fn is_public_assigned.*?match c \{(.*?)=> true',src,re.S).group(1)
asg=[]
for x in m.split('|'):
    x=[ch(y) for y in x.split('..=')]
    asg.append((x[0],x[-1]))
for a,b in sorted(asg): out.append(f'A {a:X} {b:X}')
def dec(p):
    C=chars(p+'_DECOMPOSED_CHARS'); 
    return {k:C[o:o+n] for k,(o,n) in pairs(p+'_DECOMPOSED_KV') if n}
D=dec('CANONICAL');K=dec('COMPATIBILITY');V=dec('CJK_COMPAT_VARIANTS')
for t,d in (('D',D),('K',K),('V',V)):
    for k in sorted(d): out.append(f'{t} {k:X} '+' '.join(f'{c:X}' for c in d[k]))
P={}
for k,v in re.findall(r'\((0x[0-9a-fA-F]+), ('+CH+r')\)',const('COMPOSITION_TABLE_KV')):
    k=int(k,0); P[(k>>16,k&0xffff)]=ch(v)
m=re.search(r'fn composition_table_astral.*?match \(c1, c2\) \{(.*?)_ => None',src,re.S).group(1)
for a,b,p in re.findall(r'\(('+CH+'), ('+CH+r')\) => Some\(('+CH+r')\)',m): P[(ch(a),ch(b))]=ch(p)
P={k:v for k,v in P.items() if v}
for (a,b) in sorted(P): out.append(f'P {a:X} {b:X} {P[(a,b)]:X}')
open(sys.argv[2],'w').write('# Unicode 16.0.0: C ccc range, M gc=Mark range, A assigned-and-not-private range, D full canonical decomposition,\n# K full compatibility decomposition where different, V standardized variation of CJK compat ideograph, P primary composite (Hangul excluded from D K P)\n'+'\n'.join(out)+'\n')
print({t:sum(1 for o in out if o[0]==t) for t in 'CMADKVP'}, len(D),len(K),len(V),len(P))
