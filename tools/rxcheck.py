#!/usr/bin/env python3-vt
"""tools/rxcheck.py [SEED]: the regex model (cppvc/rx.py) against the real std::regex on random texts"""
import sys,random,subprocess,os,tempfile,shutil
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H)
D=tempfile.mkdtemp(prefix="rxcheck_"); subprocess.check_call(["g++","-O1","-o",D+"/t",H+"/tools/rxcheck.cpp"])
from cppvc import rx
from cppvc.specs.base import *
from cppvc.front import Program
from cppvc.terms import *
P=Program(); R=Run(P); ex=R.ex
random.seed(int(sys.argv[1]) if len(sys.argv)>1 else 1)
T=['[^A-Za-z0-9_.-]','[^A-Za-z0-9_.+-]+','[^\\w]+','(")','"','[ ]+','[^A-Za-z0-9_\\.]+','(\\:)','[^a-zA-Z_0-9]+']
W='[^\\s"]+|"([^"]*)"'
S=['(\\s+:\\s+)','\\s+SG_']; M=['([a-zA-Z]+)\\s*"?(\\d+)\\D+(\\d+)"?']
cases=[]
def rs(al,n): return ''.join(random.choice(al) for _ in range(random.randrange(n)))
for _ in range(3000):
    k=random.random()
    if k<.15: cases.append(('r',random.randrange(2),random.choice(['\\\\(?=\\s*(\n|$))','\n','(\n)','\\s','\\\\(?=[ ]*($|\n))','a(?=\\s*$)']),rs('ab\\\\ \n\n\t',14)))
    elif k<.4: cases.append(('t',-1,random.choice(T),rs('ab1_ .:"+-,|@\t\n;',14)))
    elif k<.6: cases.append(('t',0,W,rs('ab1 "\t;',14)))
    elif k<.8: cases.append(('s',0,random.choice(S),random.choice([rs('a :\t',10),' '+rs('SG_ ',9), rs('SG_ ',9)+' SG_x'])))
    else: cases.append(('m',0,M[0],random.choice([rs('aV1" .',12),'VERSION '+rs('"',2)+rs('12',4)+rs('. -',3)+rs('12',3)+rs('"',2)])))
with open(D+'/in','wb') as f:
    for m,s,r,t in cases: f.write(("%s %d %d %s%d %s\n"%(m,s,len(r),r,len(t),t)).encode())
out=subprocess.run([D+'/t',D+'/in'],stdout=subprocess.PIPE).stdout.decode().split("\x01\n")
w=lambda s:"%d:%s "%(len(s),s)
lt=lambda r:''.join(g.s for g in r)
bad=uns=0
for c,o in zip(cases,out):
    m,s,r,t=c; rp=(Lit(t),) if t else ()
    try:
        if m=='t': got=''.join(w(lt(x)) for x in rx.tokens(ex,rp,r,s).el)
        elif m=='r': got=w(lt(rx.replace(ex,rp,r,'<\\.>' if s else '')))
        elif m=='s':
            q=rx.search(ex,rp,r); got="none " if q is None else w(lt(q.prefix))+w(lt(q.suffix))
        else:
            q=rx.match(ex,rp,r); got="none " if q is None else ''.join(w(lt(x)) for x in q.groups)
    except Unsupported as e: uns+=1; print("U",c,e) if uns<8 else 0; continue
    if got!=o: bad+=1; print(c,"real",o,"model",got) if bad<15 else 0
print(len(cases),"bad",bad,"unsupported",uns)
shutil.rmtree(D); sys.exit(1 if bad else 0)
