import os,subprocess,shutil,sys
def case(name, f, edits, pats, want='violation', D='/tmp/hp'):
    shutil.rmtree(D, ignore_errors=True); shutil.copytree('/repo/AMAT', D+'/AMAT')
    p=D+'/AMAT/'+f; s=open(p,newline='').read(); crlf='\r\n' in s; s=s.replace('\r\n','\n')
    for e in edits:
        a,b=e[:2]; k=e[2] if len(e)>2 else None
        assert a in s,(name,a[:80])
        if k is None: s=s.replace(a,b)
        else:
            pos=-1
            for _ in range(k+1): pos=s.index(a,pos+1)
            s=s[:pos]+b+s[pos+len(a):]
    open(p,'w',newline='').write(s)
    subprocess.check_call([sys.executable,'-m','py_compile',p])
    r=subprocess.run(['/opt/venv/bin/python','/tmp/run.py']+pats,env=dict(os.environ,REPO=D),capture_output=True,text=True)
    st=set(l.split()[0] for l in r.stdout.splitlines() if l[:1] not in ' \n' and 'entry_heading ' not in l)
    good = (st=={'ok'}) if want=='ok' else (want in st)
    print('OK ' if good else 'BAD', name, sorted(st))
    if not good: print('   ',r.stdout.replace('\n','\n    ')[-1500:], r.stderr[-800:])
