#!/usr/bin/env python3
# which quantifier is instantiated most: qprof.py file.smt2 [sec]
import re,subprocess,sys
t=open(sys.argv[1]).read(); sec=sys.argv[2] if len(sys.argv)>2 else '10'
n=0; out=[]; lines=[]
for i,l in enumerate(t.split('\n')):
    def f(m):
        global n; n+=1; lines.append((n,i+1)); return ' :qid Q%d_L%d :pattern'%(n,i+1)
    out.append(re.sub(r' :pattern',f,l))
open('/tmp/qp.smt2','w').write('\n'.join(out))
p=subprocess.run('timeout %s z3-new smt.mbqi=false smt.qi.profile=true smt.qi.profile_freq=2000 /tmp/qp.smt2'%sec,shell=True,capture_output=True,text=True)
import collections
last={}
for l in (p.stdout+p.stderr).split('\n'):
    m=re.match(r'\[quantifier_instances\] +(\S+) : +(\d+)',l)
    if m: last[m[1]]=int(m[2])
print(p.stdout[-100:] if 'sat' in p.stdout else '')
for k,v in sorted(last.items(),key=lambda x:-x[1])[:12]:
    L=int(k.split('_L')[1]) if '_L' in k else 0
    print(v,k,out[L-1][:260] if L else '')
