import random,subprocess,sys,os,tempfile,shutil
seed=int(sys.argv[1]);n=int(sys.argv[2]);opts=sys.argv[3:]
C=os.environ.get('CANDY','_build/candy')
def brute(V,F):
    for x in range(1<<V):
        if all(any(((x>>(abs(l)-1))&1)==(l>0) for l in c) for c in F): return True
    return False
def rupcheck(V,F,proof):
    # DRAT forward check with RUP then RAT
    db=[tuple(sorted(set(c))) for c in F]
    def up(db,assign):
        a=dict(assign);ch=True
        while ch:
            ch=False
            for c in db:
                un=None;k=0;sat=False
                for l in c:
                    v=a.get(abs(l))
                    if v is None: un=l;k+=1
                    elif v==(l>0): sat=True;break
                if sat: continue
                if k==0: return None
                if k==1: a[abs(un)]=un>0;ch=True
        return a
    for line in proof:
        t=line.split()
        if not t: continue
        if t[0]=='d':
            c=tuple(sorted(set(map(int,t[1:-1]))))
            if c not in db: return 'delete of absent '+line
            if len(c)>1: db.remove(c)
            continue
        if t[-1]!='0': return 'format '+line
        lits=list(map(int,t[:-1]))
        base={}
        bad=False
        for l in lits:
            if base.get(abs(l),l<0)!=(l<0): bad=True
            base[abs(l)]=l<0
        if not bad and up(db,base) is not None:
            if not lits: return 'empty not RUP'
            p=lits[0]; ok=True
            for c in db:
                if -p in c:
                    b=dict(base);taut=False
                    for l in c:
                        if l==-p: continue
                        if b.get(abs(l),l<0)!=(l<0): taut=True;break
                        b[abs(l)]=l<0
                    if taut: continue
                    if up(db,b) is not None: ok=False;break
            if not ok: return 'not RAT '+line
        if not lits: return None
        db.append(tuple(sorted(set(lits))))
    return 'no empty clause'
bad=0;nu=0
D=tempfile.mkdtemp();tmp=D+'/pf'
for s in range(seed,seed+n):
    r=random.Random(s);V=r.randint(3,13);m=int(V*r.uniform(2,6))
    F=[[r.choice([1,-1])*v for v in (r.sample(range(1,V+1),min(V,r.choice([1,2,2,3,3,3,3,4,5]))) )] for _ in range(m)]
    open(tmp+'.cnf','w').write('p cnf %d %d\n'%(V,m)+''.join(' '.join(map(str,c))+' 0\n' for c in F))
    if os.path.exists(tmp+'.prf'): os.remove(tmp+'.prf')
    p=subprocess.run([C,tmp+'.cnf','-certified-output='+tmp+'.prf']+opts,capture_output=True,text=True)
    ex=brute(V,F);err=None
    if p.returncode!=(10 if ex else 20): err='rc %d expected sat=%s'%(p.returncode,ex)
    elif not ex:
        nu+=1
        try: err=rupcheck(V,F,open(tmp+'.prf').read().split('\n'))
        except Exception as e: err=repr(e)
    if err:
        bad+=1
        if bad<4: print(s,err)
print('bad',bad,'of',n,'unsat',nu)
shutil.rmtree(D)
sys.exit(1 if bad else 0)
