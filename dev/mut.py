# random mutants of a share of the repository's functions at once; prints those whose own obligation stays quiet
# usage: mut.py SEED SHARE   (env VB = analyser dir)
import ast,os,random,re,shutil,subprocess,sys,copy
seed,share=int(sys.argv[1]),float(sys.argv[2])
R=random.Random(seed); D='/tmp/mut%d'%seed
shutil.rmtree(D,ignore_errors=True); shutil.copytree('/repo/AMAT',D+'/AMAT')
BO={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Div,ast.Div:ast.Mult}
CO={ast.Lt:ast.LtE,ast.LtE:ast.Lt,ast.Gt:ast.GtE,ast.GtE:ast.Gt,ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.Is:ast.IsNot,ast.IsNot:ast.Is}
def skip(n):
    return isinstance(n,ast.Call) and isinstance(n.func,ast.Name) and n.func.id=='print'
def plotcall(st):
    s=ast.unparse(st); return re.search(r'\bplt\.|\bax\w*\.|\bfig\w*\.|print\(|pylab|tick|rcParams|annotate|legend|params',s)
def sites(fn):
    out=[]
    def walk(n,body=None,i=None):
        if isinstance(n,ast.stmt) and not isinstance(n,(ast.FunctionDef,ast.If,ast.For,ast.While,ast.With,ast.Try)):
            if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant): return
            if plotcall(n): return
        if isinstance(n,ast.JoinedStr): return
        for f,v in ast.iter_fields(n):
            if isinstance(v,list):
                for j,x in enumerate(v):
                    if isinstance(x,ast.AST):
                        walk(x)
                        if f=='body' and isinstance(x,(ast.Assign,ast.AugAssign,ast.Expr,ast.Break)) and not (isinstance(x,ast.Expr) and not isinstance(x.value,ast.Call)) and not plotcall(x):
                            out.append(('del',n,f,j))
                            if j+1<len(v) and isinstance(v[j+1],(ast.Assign,ast.AugAssign)) and not plotcall(v[j+1]): out.append(('swapst',n,f,j))
            elif isinstance(v,ast.AST): walk(v)
        if isinstance(n,ast.BinOp) and type(n.op) in BO: out.append(('bin',n))
        if isinstance(n,ast.Compare): out.append(('cmp',n))
        if isinstance(n,ast.BoolOp): out.append(('bool',n))
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.USub): out.append(('neg',n))
        if isinstance(n,ast.Constant) and isinstance(n.value,(int,float)) and not isinstance(n.value,bool): out.append(('const',n))
        if isinstance(n,ast.Call) and len(n.args)>1 and not skip(n): out.append(('args',n))
        if isinstance(n,ast.Attribute) and isinstance(n.value,ast.Name) and n.value.id=='self': out.append(('attr',n))
        if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Load): out.append(('name',n))
    for s in fn.body: walk(s)
    for j,x in enumerate(fn.body):
        if isinstance(x,(ast.Assign,ast.AugAssign,ast.Expr)) and not (isinstance(x,ast.Expr) and not isinstance(x.value,ast.Call)) and not plotcall(x): out.append(('del',fn,'body',j))
    return out
def mutate(fn):
    ss=sites(fn)
    kinds=sorted({s[0] for s in ss})
    if not kinds: return None
    k=R.choice(kinds); s=R.choice([x for x in ss if x[0]==k]); n=s[1]
    before=ast.unparse(n) if k not in('del','swapst') else ast.unparse(getattr(n,s[2])[s[3]])
    if k=='bin': n.op=BO[type(n.op)]()
    elif k=='cmp':
        if type(n.ops[0]) not in CO: return None
        n.ops[0]=CO[type(n.ops[0])]()
    elif k=='bool': n.op=ast.And() if isinstance(n.op,ast.Or) else ast.Or()
    elif k=='neg': n.op=ast.UAdd()
    elif k=='const': n.value=n.value+1 if isinstance(n.value,int) else (n.value*1.01 if n.value else 0.5)
    elif k=='args':
        i=R.randrange(len(n.args)-1); n.args[i],n.args[i+1]=n.args[i+1],n.args[i]
        if ast.dump(n.args[i])==ast.dump(n.args[i+1]): return None
    elif k=='attr':
        o=[x.attr for x in ast.walk(fn) if isinstance(x,ast.Attribute) and isinstance(x.value,ast.Name) and x.value.id=='self' and x.attr!=n.attr]
        calls={x.func.attr for x in ast.walk(fn) if isinstance(x,ast.Call) and isinstance(x.func,ast.Attribute)}
        o=[x for x in o if (x in calls)==(n.attr in calls)]
        if not o: return None
        n.attr=R.choice(o)
    elif k=='name':
        loc=[x.id for x in ast.walk(fn) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)]+[a.arg for a in fn.args.args]
        o=[x for x in set(loc) if x!=n.id and x!='self']
        if n.id not in loc or not o or n.id=='self': return None
        n.id=R.choice(sorted(o))
    elif k=='del': getattr(n,s[2])[s[3]]=ast.Pass()
    elif k=='swapst':
        b=getattr(n,s[2]); b[s[3]],b[s[3]+1]=b[s[3]+1],b[s[3]]
    after=ast.unparse(n) if k not in('del','swapst') else k
    return '%s:%d %s: %s -> %s'%(k,getattr(n,'lineno',0),fn.name,before[:110],after[:110])
muts={}
for f in sorted(os.listdir(D+'/AMAT')):
    if not f.endswith('.py'): continue
    src=open(D+'/AMAT/'+f).read(); t=ast.parse(src)
    fns=[(c.name+'.'+m.name,m) for c in t.body if isinstance(c,ast.ClassDef) for m in c.body if isinstance(m,ast.FunctionDef)]+[(m.name,m) for m in t.body if isinstance(m,ast.FunctionDef)]
    ch=False
    for q,m in fns:
        if R.random()<share and (not m.name.startswith('__') or os.environ.get('INIT')):
            for _ in range(4):
                d=mutate(m)
                if d: muts[(f[:-3],q)]=d; ch=True; break
    if ch:
        ast.fix_missing_locations(t); open(D+'/AMAT/'+f,'w').write(ast.unparse(t))
r=subprocess.run(['/opt/venv/bin/python','/tmp/runp.py',D],env=dict(os.environ,OMP_NUM_THREADS='1'),capture_output=True,text=True)
if 'TOTAL' not in r.stdout: print(r.stdout[-500:],r.stderr[-2000:]); sys.exit()
st={}
for l in r.stdout.splitlines():
    p=l.split()
    if len(p)>1 and ':' in p[1]: st.setdefault(p[1].split(':',1)[1].split(':')[0],[]).append((p[0],l))
print('== seed',seed,'mutants',len(muts),'ok-total',r.stdout.splitlines()[-1][:40])
if os.environ.get('ALL'): print('\n'.join(str((k,d)) for k,d in muts.items()))
for (f,q),d in muts.items():
    s=[x for x,_ in st.get(q,[])]
    if 'violation' not in s:
        print('  ',f,q,(s or ['quiet']),d)
        for x,l in st.get(q,[]): print('        ',l[:300])
if not os.environ.get('KEEP'): shutil.rmtree(D)
