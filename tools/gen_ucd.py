#!/usr/bin/env python3
"""Writes vlib/ucd.rs, the Unicode 16 reference data in Verus syntax, from spec/ucd16.txt.

Everything here is specification: nothing is read from /repo.  A list of numbers is a tree of small spec functions with
several elements packed in each 128-bit literal (`U_x(i)`), a map is a sorted list of (first, last, value) with the
search function `U_x_find`.  Classifications that a `match` expression in the code decides are two-level decision trees
over the code point, with one proof function per block that walks its intervals."""
import sys, os
here = os.path.dirname(os.path.abspath(__file__))
C=[];M=[];A=[];D={};K={};V={};P=[]
for l in open(os.path.join(here,'..','spec','ucd16.txt')):
    if l.startswith('#') or not l.strip(): continue
    t=l.split()
    if t[0]=='C': C.append((int(t[1],16),int(t[2],16),int(t[3])))
    elif t[0]=='M': M.append((int(t[1],16),int(t[2],16)))
    elif t[0]=='A': A.append((int(t[1],16),int(t[2],16)))
    elif t[0]=='D': D[int(t[1],16)]=[int(x,16) for x in t[2:]]
    elif t[0]=='K': K[int(t[1],16)]=[int(x,16) for x in t[2:]]
    elif t[0]=='V': V[int(t[1],16)]=[int(x,16) for x in t[2:]]
    elif t[0]=='P': P.append((int(t[1],16),int(t[2],16),int(t[3],16)))
ccc={}
for a,b,v in C:
    for x in range(a,b+1): ccc[x]=v
o=[]
w=o.append
F=12
def level(name,lo,hi,leaf,var='i'):
    """index tree: name(i) for lo <= i < hi"""
    step=1
    while step*F<hi-lo: step*=F
    cuts=list(range(lo,hi,step))
    if step>1:
        for k,c in enumerate(cuts): level(f"{name}_{k}",c,min(c+step,hi),leaf,var)
    def rec(a,b):
        if b-a==1: return f"{name}_{a}({var})" if step>1 else leaf(cuts[a])
        m=(a+b)//2
        return "if %s < %d { %s } else { %s }"%(var,cuts[m],rec(a,m),rec(m,b))
    w(f"pub open spec fn {name}(i: int) -> int {{ {rec(0,len(cuts))} }}")
def bits_for(mx):
    for b in (8,16,21,32,42,64):
        if mx<1<<b: return b
def lst(name,vals,bits=None,pad=0):
    bits=bits or bits_for(max(vals))
    per=128//bits
    words=[]
    for i in range(0,len(vals),per):
        ch=list(vals[i:i+per])+[pad]*(per-len(vals[i:i+per]))
        words.append(sum(v<<(bits*k) for k,v in enumerate(ch)))
    level(name+"_p",0,len(words),lambda i:"0x%x"%words[i])
    w(f"pub open spec fn {name}(i: int) -> int {{ unpack{bits}({name}_p(i / {per}), i % {per}) }}")
    return bits,per,len(words)
def find(name,keys,ends=None,kb=21):
    """name_find(x): the index of the entry covering x, or -1"""
    n=len(keys)
    bits,per,nw=lst(name+"_k",keys,kb,(1<<kb)-1)
    firsts=[keys[i] for i in range(0,n,per)]
    # block tree by first key
    def lv(nm,lo,hi):
        step=1
        while step*F<hi-lo: step*=F
        cuts=list(range(lo,hi,step))
        if step>1:
            for k,c in enumerate(cuts): lv(f"{nm}_{k}",c,min(c+step,hi))
        def rec(a,b):
            if b-a==1: return f"{nm}_{a}(x)" if step>1 else str(cuts[a])
            m=(a+b)//2
            return "if x < 0x%x { %s } else { %s }"%(firsts[cuts[m]],rec(a,m),rec(m,b))
        w(f"pub open spec fn {nm}(x: int) -> int {{ {rec(0,len(cuts))} }}")
    lv(name+"_b",0,nw)
    if ends is not None: lst(name+"_e",ends,kb)
    w(f"pub open spec fn {name}_n() -> int {{ {n} }}")
    last=f"{name}_e(j)" if ends is not None else f"{name}_k(j)"
    w(f"pub open spec fn {name}_find(x: int) -> int {{ let b = {name}_b(x); let j = b * {per} + within{kb}({name}_k_p(b), x); if 0 <= j < {n} && {name}_k(j) <= x <= {last} {{ j }} else {{ -1 }} }}")
SB,LB,VB,TB=0xac00,0x1100,0x1161,0x11a7
def hang(c): return SB<=c<SB+11172
def dec(k,c):
    if hang(c):
        s=c-SB; r=[LB+s//588,VB+s%588//28]
        return r+[TB+s%28] if s%28 else r
    if k=='K' and c in K: return K[c]
    return D.get(c,[c])
comp={(a,b):p for a,b,p in P}
composites={p for _,_,p in P}
seconds={b for _,b,_ in P}|set(range(VB,VB+21))|set(range(TB+1,TB+28))
w("//! GENERATED by tools/gen_ucd.py from spec/ucd16.txt (Unicode 16.0.0). Reference data only.")
w("#![allow(unused_imports, dead_code, nonstandard_style)]")
w("use vstd::prelude::*;")
w("verus! {")
for b in (8,16,21,32,42,64):
    per=128//b
    def rec(a,c):
        if c-a==1: return f"(v / 0x{1<<(b*a):x}) % 0x{1<<b:x}" if a else f"v % 0x{1<<b:x}"
        m=(a+c)//2
        return f"if k < {m} {{ {rec(a,m)} }} else {{ {rec(m,c)} }}"
    w(f"pub open spec fn unpack{b}(v: int, k: int) -> int {{ {rec(0,per)} }}")
    if b in (21,42):
        def rw(a,c):
            if c-a==1: return str(a)
            m=(a+c)//2
            return f"if x < (v / 0x{1<<(b*m):x}) % 0x{1<<b:x} {{ {rw(a,m)} }} else {{ {rw(m,c)} }}"
        w(f"/// the last of the packed keys that is <= x (0 if none is)\npub open spec fn within{b}(v: int, x: int) -> int {{ {rw(0,per)} }}")
C.sort(); M.sort(); P.sort()
find("U_ccc",[a for a,b,v in C],[b for a,b,v in C]); lst("U_ccc_v",[v for a,b,v in C])
find("U_mark",[a for a,b in M],[b for a,b in M])
codes=[]
def decs(name,m):
    ks=sorted(m); vs=[]
    for k in ks: vs.append(len(codes)*32+len(m[k])); codes.extend(m[k]); assert len(m[k])<32
    find(name,ks); lst(name+"_v",vs,21)
decs("U_dec",D); decs("U_kec",K); decs("U_var",V)
lst("U_codes",codes,21)
w(f"pub open spec fn U_codes_n() -> int {{ {len(codes)} }}")
find("U_comp",[a*0x110000+b for a,b,p in P],None,42); lst("U_comp_v",[p for a,b,p in P],21)
ast=[(a,b,p) for a,b,p in P if a>=0x10000 or b>=0x10000]
w("pub open spec fn comp_ast(a: int, b: int) -> int { "+" else ".join("if a == 0x%x && b == 0x%x { 0x%x }"%t for t in ast)+" else { -1 } }")
w(f"pub open spec fn comp_ast_n() -> int {{ {len(ast)} }}")
def cl(s):
    r=[]
    for x in sorted(s):
        if r and r[-1][1]==x-1: r[-1][1]=x
        else: r.append([x,x])
    return [(a,b) for a,b in r]
prim=sorted(composites); sec=sorted({b for _,b,_ in P})
find("U_sec",sec)
def tree(name,doc,parts,default,block=24,walk=None):
    """parts: sorted disjoint (lo,hi,val) -> two-level decision tree over the code point"""
    bounds=[(0,default)]
    for lo,hi,v in sorted(parts):
        if bounds[-1][0]==lo: bounds.pop()
        bounds.append((lo,v)); bounds.append((hi+1,default))
    b=[]
    for x,v in bounds:
        if b and b[-1][1]==v: continue
        b.append((x,v))
    w(f"// {doc} ({len(b)} intervals)")
    blocks=list(range(0,len(b),block))
    one=len(blocks)==1
    for k,s in enumerate(blocks):
        e=min(s+block,len(b))
        def rec(i,j):
            if j-i==1: return str(b[i][1])
            m=(i+j)//2
            return "if x < 0x%x { %s } else { %s }"%(b[m][0],rec(i,m),rec(m,j))
        w(f"pub open spec fn {name}{'' if one else '_%d'%k}(x: int) -> int {{ {rec(s,e)} }}")
    def top(i,j,leaf):
        if j-i==1: return leaf(i)
        m=(i+j)//2
        return "if x < 0x%x { %s } else { %s }"%(b[blocks[m]][0],top(i,m,leaf),top(m,j,leaf))
    if not one: w(f"pub open spec fn {name}(x: int) -> int {{ {top(0,len(blocks),lambda i:f'{name}_{i}(x)')} }}")
    return b,blocks
allc=set(D)|set(K)|set(range(SB,SB+11172))
no={'nfd':{c for c in allc if dec('C',c)!=[c]},'nfkd':{c for c in allc if dec('K',c)!=[c]}}
no['nfc']={c for c in allc if dec('C',c)!=[c] and c not in composites and not hang(c)}
no['nfkc']={c for c in allc if dec('K',c)!=[c] and not((c in composites or hang(c)) and dec('K',c)==dec('C',c))}
walks=[]
for f in ('nfd','nfkd','nfc','nfkc'):
    parts=[(a,b,1) for a,b in cl(no[f])]
    if f in('nfc','nfkc'):
        k='C' if f=='nfc' else 'K'
        may=seconds|{c for c in allc if dec(k,c)[0] in seconds}
        parts+=[(a,b,2) for a,b in cl(may-no[f])]
    b,blocks=tree("qt_"+f,f"quick check for {f}: 0 Yes, 1 No, 2 Maybe",parts,0)
    walks.append((f,b,blocks))
tree("asg_tree","assigned and not private use",[(a,b,1) for a,b in A],0)
# leading nonstarters of the full compatibility decomposition, for characters that decompose
lead=[]
for c in sorted(set(D)|set(K)):
    n=0
    for x in dec('K',c):
        if ccc.get(x,0)==0: break
        n+=1
    if n: lead.append((c,c,n))
tree("lead_tree","leading nonstarters of the compatibility decomposition, for characters that decompose",lead,0)
w("} // verus!")
open(os.path.join(here,'..','vlib','ucd.rs'),'w').write("\n".join(o)+"\n")
# ---- the walks: every character a quick-check tree answers No for has a decomposition
o.clear()
w("//! GENERATED by tools/gen_ucd.py: for every interval of a quick-check tree that answers No, the reference data gives every")
w("//! character of the interval a decomposition (evaluated by the interpreter; Hangul by arithmetic).")
w("#![allow(unused_imports, dead_code, nonstandard_style)]")
w("use vstd::prelude::*;\nuse crate::ucd::*;\nuse crate::data::*;")
w("verus! {")
for f,b,blocks in walks:
    kk='true' if f in('nfkd','nfkc') else 'false'
    for k,s in enumerate(blocks):
        e=min(s+24,len(b))
        def rec(i,j):
            if j-i==1:
                lo=b[i][0]; hi=b[i+1][0] if i+1<len(b) else 0x110000
                if b[i][1]!=1: return "return;"
                if hang(lo): 
                    assert hang(hi-1)
                    return "return;"
                return f"assert(has_all({kk}, 0x{lo:x}, 0x{hi:x})) by (compute_only); has_all_at({kk}, 0x{lo:x}, 0x{hi:x}, x); return;"
            m=(i+j)//2
            return "if x < 0x%x { %s } else { %s }"%(b[m][0],rec(i,m),rec(m,j))
        lo=b[s][0]; hi=b[e][0] if e<len(b) else 0x110000
        w(f"proof fn no_{f}_{k}(x: int) requires 0x{lo:x} <= x < 0x{hi:x}, qt_{f}_{k}(x) == 1 ensures hang_i(x) || has_i({kk}, x) {{ {rec(s,e)} }}")
    def top(i,j):
        if j-i==1: return f"no_{f}_{i}(x);"
        m=(i+j)//2
        return "if x < 0x%x { %s } else { %s }"%(b[blocks[m]][0],top(i,m),top(m,j))
    w(f"pub proof fn no_{f}(x: int) requires 0 <= x < 0x110000, qt_{f}(x) == 1 ensures hang_i(x) || has_i({kk}, x) {{ {top(0,len(blocks))} }}")
for f,b,blocks in walks[:2]:
    for k in range(len(blocks)): w(f"proof fn two_{f}_{k}(x: int) ensures qt_{f}_{k}(x) == 0 || qt_{f}_{k}(x) == 1 {{}}")
    w(f"pub proof fn two_{f}(x: int) ensures qt_{f}(x) == 0 || qt_{f}(x) == 1 {{ {' '.join(f'two_{f}_{k}(x);' for k in range(len(blocks)))} }}")
w("pub proof fn hang_qt(x: int) requires hang_i(x) ensures qt_nfd(x) == 1, qt_nfkd(x) == 1, qt_nfc(x) != 1, qt_nfkc(x) != 1 {}")
w("pub proof fn ast_listed(a: int, b: int) requires comp_ast(a, b) >= 0 ensures comp_i(a, b) == comp_ast(a, b) {")
for a,b,p in ast: w(f"  if a == 0x{a:x} && b == 0x{b:x} {{ assert(comp_i(0x{a:x}, 0x{b:x}) == 0x{p:x}) by (compute_only); return; }}")
w("}")
w("} // verus!")
open(os.path.join(here,'..','vlib','walks.rs'),'w').write("\n".join(o)+"\n")
# ---- evaluation of a check on every entry of a table, in slices
o.clear()
w("//! GENERATED by tools/gen_ucd.py: the checks `one_x` of data.rs, evaluated by the interpreter on every entry.")
w("#![allow(unused_imports, dead_code, nonstandard_style)]")
sys.path.insert(0, here)
from evalgen import evals
for n,l,s in (("ccc",len(C),400),("dec",len(D),300),("kec",len(K),300),("var",len(V),1002),("comp",len(P),90),("ld",len(D),300),("lk",len(K),300),("yes",len(D),300),("yesk",len(K),600),("sec",len(sec),100)): w(evals(n,l,s))
open(os.path.join(here,'..','vlib','evals.rs'),'w').write("\n".join(o)+"\n")
print({k:len(v) for k,v in no.items()},len(lead),len(codes),len(D),len(K),len(V),len(P),len(sec))
