#!/usr/bin/env python3
"""Confronts spec/ucd16.txt with the independent Unicode copies present in the sandbox."""
import sys,unicodedata,subprocess,json,os,collections
here=os.path.dirname(os.path.abspath(__file__))
ccc={};mark=set();asg=set();D={};K={};V={};P={}
for l in open(os.path.join(here,'../spec/ucd16.txt')):
    if l[0]=='#': continue
    t,*f=l.split()
    if t=='C':
        for c in range(int(f[0],16),int(f[1],16)+1): ccc[c]=int(f[2])
    elif t in 'MA':
        (mark if t=='M' else asg).update(range(int(f[0],16),int(f[1],16)+1))
    elif t=='P': P[(int(f[0],16),int(f[1],16))]=int(f[2],16)
    else: {'D':D,'K':K,'V':V}[t][int(f[0],16)]=[int(x,16) for x in f[1:]]
S=lambda c:0xAC00<=c<0xAC00+11172
def hang(c):
    s=c-0xAC00; r=[0x1100+s//588,0x1161+s%588//28]
    return r+([0x11a7+s%28] if s%28 else [])
dc=lambda c: hang(c) if S(c) else D.get(c,[c])
dk=lambda c: hang(c) if S(c) else K.get(c,dc(c))
sc=[c for c in range(0x110000) if not 0xD800<=c<0xE000]
bad=0
def err(*a):
    global bad; bad+=1
    if bad<40: print('DIFF',*a)
# python 15.0
n=0
for c in sc:
    x=chr(c); cat=unicodedata.category(x)
    if cat=='Cn':
        continue
    n+=1
    if unicodedata.combining(x)!=ccc.get(c,0): err('py ccc',hex(c))
    if (cat[0]=='M')!=(c in mark): err('py mark',hex(c),cat)
    if (cat not in('Co',))!=(c in asg) and cat!='Cs': err('py asg',hex(c),cat)
    if [ord(y) for y in unicodedata.normalize('NFD',x)]!=dc(c): err('py nfd',hex(c))
    if [ord(y) for y in unicodedata.normalize('NFKD',x)]!=dk(c): err('py nfkd',hex(c))
print('python',unicodedata.unidata_version,n,'assigned characters compared; new since then:',sum(1 for c in asg if unicodedata.category(chr(c))=='Cn'))
# node ICU
js=r'''
const out=[];const V=process.versions.unicode+' icu '+process.versions.icu;
const hex=s=>[...s].map(c=>c.codePointAt(0).toString(16)).join(' ');
for(let c=0;c<0x110000;c++){ if(c>=0xd800&&c<0xe000)continue; const s=String.fromCodePoint(c);
 out.push([c, /\p{Cn}/u.test(s)?0:/\p{Co}/u.test(s)?1:2, /\p{M}/u.test(s)?1:0, hex(s.normalize('NFD')),hex(s.normalize('NFKD')), hex(s.normalize('NFC'))].join('|')); }
console.log(V); console.log(out.join('\n'));
'''
r=subprocess.run(['node','-e',js],capture_output=True,text=True).stdout.split('\n')
new=[]
n=0
for l in r[1:]:
    if not l: continue
    c,a,m,d,k,nf=l.split('|'); c=int(c);a=int(a)
    if c in asg:
        n+=1
        if a!=2: err('icu asg',hex(c))
        if (m=='1')!=(c in mark): err('icu mark',hex(c))
        if [int(x,16) for x in d.split()]!=dc(c): err('icu nfd',hex(c),d)
        if [int(x,16) for x in k.split()]!=dk(c): err('icu nfkd',hex(c),k)
    elif a==2: new.append(c)
    elif c in ccc or c in mark or c in D or c in K: err('props on unassigned',hex(c))
    elif a==1 and (c in asg): err('co',hex(c))
print('node',r[0],n,'assigned characters compared; assigned there, not in 16.0:',len(new))
rng=[]
for c in new:
    if rng and rng[-1][1]==c-1: rng[-1][1]=c
    else: rng.append([c,c])
print('   ranges new in node:',' '.join(f'{a:X}-{b:X}' for a,b in rng))
# compositions: every canonical pair and its complement over the interesting characters
firsts=sorted({a for a,b in P}); seconds=sorted({b for a,b in P})
open('/tmp/vp_pairs.json','w').write(json.dumps([firsts,seconds]))
js=r'''
const [F,S]=JSON.parse(require('fs').readFileSync('/tmp/vp_pairs.json'));const out=[];
for(const a of F)for(const b of S){const s=String.fromCodePoint(a,b);const n=[...s.normalize('NFC')];
 if(n.length==1)out.push([a,b,n[0].codePointAt(0)]);}
console.log(JSON.stringify(out));
'''
Q={(a,b):p for a,b,p in json.loads(subprocess.run(['node','-e',js],capture_output=True,text=True).stdout)}
os.unlink('/tmp/vp_pairs.json')
for k in set(P)|set(Q):
    if P.get(k)!=Q.get(k):
        # a single-character result for a pair that is not a primary composite can only come from reordering
        if k not in P and ccc.get(dc(k[0])[-1],0)>ccc.get(k[1],0)>0: continue
        err('pair',[hex(x) for x in k],P.get(k),Q.get(k))
# every primary composite is accounted for: decomposable chars whose NFC is themselves
icunfc={int(l.split('|')[0]):l.split('|')[5] for l in r[1:] if l}
comps={c for c in D if icunfc[c]==f'{c:x}'}
if comps!=set(P.values()): err('composite sets differ',[hex(x) for x in comps^set(P.values())][:10])
print('compositions',len(P),'pairs; composites',len(comps))
# ccc of characters newer than python's database, through ICU reordering
probe={}
for c,v in ccc.items():
    if unicodedata.category(chr(c))!='Cn': probe.setdefault(v,c)
pv=sorted(probe)
newer=[c for c in asg if unicodedata.category(chr(c))=='Cn' and (c in mark or c in ccc)]
open('/tmp/vp_pairs.json','w').write(json.dumps([newer,[probe[v] for v in pv]]))
js=r'''
const [N,S]=JSON.parse(require('fs').readFileSync('/tmp/vp_pairs.json'));const out=[];
for(const c of N){const row=[];for(const p of S){const a=String.fromCodePoint(0x2c,c,p),b=String.fromCodePoint(0x2c,p,c);
 row.push([a.normalize('NFD')==a?1:0,b.normalize('NFD')==b?1:0]);}out.push(row);}
console.log(JSON.stringify(out));
'''
rows=json.loads(subprocess.run(['node','-e',js],capture_output=True,text=True).stdout)
os.unlink('/tmp/vp_pairs.json')
for c,row in zip(newer,rows):
    v=ccc.get(c,0)
    for p,(x,y) in zip(pv,row):
        ex=(v==0 or v<=p, v==0 or p<=v)
        if dc(c)==[c] and (bool(x),bool(y))!=ex: err('icu ccc',hex(c),v,p,x,y)
print('ccc of',len(newer),'newer marks confirmed by reordering against',len(pv),'classes')
# standardized variants: compat ideographs with canonical singleton, VS1..3
for c,s in V.items():
    if len(s)!=2 or s[0]!=dc(c)[0] or not 0xFE00<=s[1]<=0xFE0F: err('cjk',hex(c))
cj={c for c in D if len(D[c])==1 and (0xF900<=c<=0xFAFF or 0x2F800<=c<=0x2FA1F)}
if cj!=set(V): err('cjk set',[hex(x) for x in cj^set(V)])
if len({tuple(s) for s in V.values()})!=len(V): err('cjk not injective')
print('cjk',len(V),'variants: unified ideograph is the canonical decomposition, selectors FE00-FE0F, pairwise distinct, set = all CJK compatibility ideographs')
print('differences:',bad); sys.exit(1 if bad else 0)
