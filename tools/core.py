import sys,subprocess,re
t=open(sys.argv[1]).read().split('\n')
out=['(set-option :produce-unsat-cores true)'];m={}
n=0
for l in t:
    if l.startswith('(assert ') and '; "' not in l:
        n+=1; m['A%d'%n]=l
        out.append('(assert (! '+l[8:-1]+' :named A%d))'%n)
    else: out.append(l)
out.append('(get-unsat-core)')
open('/tmp/core.smt2','w').write('\n'.join(out))
r=subprocess.run(sys.argv[2:] or ['z3-new','-T:30','/tmp/core.smt2'],capture_output=True,text=True).stdout
print(r[:200])
for a in re.findall(r'A\d+',r): print(a,m[a][:600])
