import os,re,subprocess,sys,random,json,time,glob
"""First-order mutants of the production sources against the checks; usage: mutate.py SEED MINUTES [FILE...]
Works in clones: /tmp/m/repo and /tmp/m/verif (make them first)."""
R='/tmp/m/repo'; V='/tmp/m/verif'
os.environ['NRP_REPO']=R
CL=['C22','C19','C20','C21','C29','C23','C24']
TP=['C17','C16','C14','C15','C12','C10','C11','C13','C08','C09','C03','C04','C05','C06','C07','C18','C01','C02']
def checks(f):
    if f.startswith('libnymea-remoteproxyclient'): return CL
    if f.startswith('common'): return ['C25','C02','C01','C24']
    if f.startswith('monitor/'): return ['C27']
    if f.startswith('tunnelclient'): return ['C29']
    if f.startswith('server/'): return ['C28','C26']
    if 'proxyconfiguration' in f: return ['C26','C28']
    if 'engine.cpp' in f: return ['C26','C16','C28']+TP
    if 'monitorserver' in f: return ['C17','C16','C28','C18']
    if 'unixsocket' in f or 'tcpsocket' in f or 'websocketserver' in f: return ['C15','C14','C26','C13','C18','C28','C01','C02','C03','C10']
    return TP
def muts(f):
    L=open(R+'/'+f).read().split('\n'); out=[]
    for i,l in enumerate(L):
        s=l.strip()
        if not s or s.startswith(('//','*','/*','#','Q_','namespace','using','case','default')) or re.search(r'qC(Debug|Warning|Info|Critical)|qDebug|qWarning|qCritical|qInfo|tr\(|QStringLiteral\("[A-Z]',s): continue
        if i<26: continue
        if re.match(r'^[A-Za-z_>\-\.\(\)\[\]:]+.*;$',s) and not re.match(r'^(return|class|struct|static|extern|typedef|break|continue|[A-Z]\w*(<.*>)?\s*[\*&]?\s*\w+\s*(=|;|\())|(int|uint|quint\w+|bool|auto|char|const)\b',s) and l.startswith('    '):
            if not s.endswith('});') : out.append((i,'del',l.replace(s,';')))
        if s in('return;','continue;','break;'): out.append((i,'del',l.replace(s,';')))
        m=re.match(r'^(\s*(?:\} else )?if \()(.*)(\)\s*\{?)$',l)
        if m: out.append((i,'neg',m[1]+'!('+m[2]+')'+m[3]))
        for a,b in (('==','!='),('!=','=='),(' < ',' <= '),(' > ',' >= '),(' && ',' || '),(' || ',' && '),('true','false'),('false','true'),(' + ',' - '),('++','--')):
            if a=='++' and 'for (' in l: continue
            if a in l and not s.startswith('connect') : out.append((i,'op '+a,l.replace(a,b,1)))
        for m in re.finditer(r'(?<![\w."])(\d+)(?![\w."])',l):
            if 'Version' in l: continue
            out.append((i,'num',l[:m.start()]+str(int(m[1])+1)+l[m.end():]))
    return out
def main():
    random.seed(int(sys.argv[1])); end=time.time()+float(sys.argv[2])*60; only=sys.argv[3:] 
    fs=[f for f in subprocess.run(['git','-C',R,'ls-files'],capture_output=True,text=True).stdout.split() if f.endswith('.cpp') and not f.startswith('tests') and 'loggingcat' not in f and 'logengine' not in f]
    allm=[(f,)+m for f in fs if not only or any(o in f for o in only) for m in muts(f)]
    random.shuffle(allm); print(len(allm),flush=True)
    for f,i,k,new in allm:
        if time.time()>end: break
        p=R+'/'+f; src=open(p).read(); L=src.split('\n'); old=L[i]
        if new==old: continue
        L[i]=new; open(p,'w').write('\n'.join(L))
        try:
            b=subprocess.run(['nice','-n','12',sys.executable,V+'/build.py',V+'/.build'],capture_output=True,text=True)
            if b.returncode: res='BUILD'
            else:
                res='SURVIVED'; t=time.time()
                for c in checks(f):
                    r=subprocess.run(['timeout','-k','5','500','nice','-n','12',sys.executable,V+'/check.py',c],capture_output=True,text=True)
                    if r.returncode==1: res='killed '+c; break
                    if r.returncode!=0: res='RC%d %s'%(r.returncode,c); break
                res+=' %ds'%(time.time()-t)
        finally: open(p,'w').write(src)
        if res!='BUILD': print('%-14s %s:%d %s\n      %s\n      -> %s'%(res,f,i+1,k,old.strip(),new.strip()),flush=True)
main()
