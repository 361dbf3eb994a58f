BASE={'approach:Approach.entry_heading','maneuver:ProbeOrbiterDeflection.tof_to_entry','maneuver:ProbeProbeDeflection.second_probe','maneuver:ProbeProbeDeflection.tof_to_entry','orbiter:Orbiter.exit_heading_inertial','orbiter:Orbiter.pos_vec_bi_probe','orbiter:Orbiter.probe_entry_angle','orbiter:Orbiter.probe_entry_heading'}
import ast,os,shutil,subprocess,sys
def mcase(name, f, cls, methods, pats, want='ok', pre='', D='/tmp/hp'):
    if len(sys.argv)>1 and name not in sys.argv[1:]: return
    shutil.rmtree(D, ignore_errors=True); shutil.copytree('/repo/AMAT', D+'/AMAT')
    p=D+'/AMAT/'+f; src=open(p,newline='').read().replace('\r\n','\n'); t=ast.parse(src); L=src.split('\n')
    c=next(c for c in t.body if isinstance(c,ast.ClassDef) and c.name==cls)
    spans=[]
    for m in c.body:
        if isinstance(m,ast.FunctionDef) and m.name in methods: spans.append((m.lineno-1,m.end_lineno,methods[m.name]))
    assert len(spans)==len([k for k in methods if k!='+']),name
    for a,b,s in sorted(spans,reverse=True):
        L[a:b]=[('\t'+x.replace('    ','\t')) if x.strip() else x for x in s.strip('\n').split('\n')]
    if '+' in methods:
        at=c.body[0].lineno-1 if not isinstance(c.body[0],ast.Expr) else c.body[0].end_lineno
        L[at:at]=[('\t'+x.replace('    ','\t')) if x.strip() else x for x in methods['+'].strip('\n').split('\n')]
    i=c.lineno-1
    L[i:i]=pre.replace('    ','\t').split('\n')
    s='\n'.join(L); ast.parse(s); open(p,'w').write(s)
    r=subprocess.run(['/opt/venv/bin/python','/tmp/run.py']+pats,env=dict(os.environ,REPO=D),capture_output=True,text=True)
    st=set(l.split()[0] for l in r.stdout.splitlines() if l[:1] not in ' \n' and l.split()[1] not in BASE)
    good = (st=={'ok'}) if want=='ok' else (want in st)
    print('OK ' if good else 'BAD', name, sorted(st),flush=True)
    if not good: print('   ','\n    '.join(l for l in r.stdout.split('\n') if not l.startswith('ok'))[-2500:], r.stderr[-800:])
