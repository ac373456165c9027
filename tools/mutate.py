#!/usr/bin/env python3
"""mutate.py <out.jsonl> [workers] [file-regex] [sample]: development tool, no check uses it.
Small changes of /repo's sources (in copies under /tmp/mut): which of them compile, pass the existing tests and are
seen by no check?"""
import sys,os,re,subprocess,json,random,shutil,threading,queue
OUT=sys.argv[1]; W=int(sys.argv[2]) if len(sys.argv)>2 else 4
FR=sys.argv[3] if len(sys.argv)>3 else '.'; N=int(sys.argv[4]) if len(sys.argv)>4 else 10**9
SCALE=os.environ.get('MUT_SCALE','0.08')
ORDER='C01 C08 C11 C12 C10 C04 C16 C06 C21 C07 C13 C02 C03 C05 C15 C09 C14 C17'.split()
def sub(rx,rep): return (re.compile(rx),rep)
OPS=[sub(r' == ',' != '),sub(r' != ',' == '),sub(r' < ',' <= '),sub(r' > ',' >= '),sub(r' <= ',' < '),sub(r' >= ',' > '),
 sub(r' && ',' || '),sub(r' \|\| ',' && '),sub(r' \+ ',' - '),sub(r' - ',' + '),sub(r' \+= ',' -= '),sub(r' -= ',' += '),
 sub(r' << ',' >> '),sub(r' >> ',' << '),sub(r' & ',' | '),sub(r' \| (?=0x|\(|[a-z])',' & '),sub(r'\|=','='),sub(r' \* ',' + '),
 sub(r'\btrue\b','false'),sub(r'\bfalse\b','true'),sub(r'\bis_some\(\)','is_none()'),sub(r'\bis_none\(\)','is_some()'),
 sub(r'(?<=[( ,])!(?=[a-z(])',''),sub(r'\bif (?=[a-z!(])(?!let)','if true || '),sub(r'\bif (?=[a-z!(])(?!let)','if false && '),
 sub(r'\bmin\(','max('),sub(r'\bmax\(','min('),sub(r'\bOk\(true\)','Ok(false)'),sub(r'\bunwrap_or\(true\)','unwrap_or(false)')]
def mutants():
    out=[]
    for d,_,fs in os.walk('/repo/src'):
        for f in sorted(fs):
            p=os.path.join(d,f); rel=p[len('/repo/'):]
            if not re.search(FR,rel): continue
            L=open(p).read().split('\n')
            for i,l in enumerate(L):
                c=l.split('//')[0]
                if not c.strip() or c.strip().startswith(('#','use ','pub use','pub mod','mod ')): continue
                for rx,rep in OPS:
                    for m in rx.finditer(c):
                        out.append((rel,i,l,l[:m.start()]+rep+l[m.end():]))
                for m in re.finditer(r'(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])',c):
                    t=m.group(1); n=int(t,0)
                    for x in {n+1,max(n-1,0),n^0x10 if n>8 else n+2}-{n}:
                        out.append((rel,i,l,l[:m.start()]+(hex(x) if t.startswith('0x') else str(x))+l[m.end():]))
                s=c.strip()
                if s.endswith(';') and not s.startswith(('let ','return','pub ','}','const','static')) and s.count('(')==s.count(')') and s.count('{')==s.count('}') and not s.startswith(('.',')',']')):
                    out.append((rel,i,l,re.match(r'\s*',l).group(0)+'{}'))
                # a match arm on one line
                m=re.match(r'(\s*)(\S.*) => (.*),\s*$',c)
                if m and i+1<len(L) and ' => ' in L[i+1]:
                    out.append((rel,i,l,''))
                    n=L[i+1]; m2=re.match(r'(\s*)(\S.*) => (.*),\s*$',n)
                    if m2: out.append((rel,i,l,f'{m.group(1)}{m.group(2)} => {m2.group(3)},'))
                if re.match(r'\s+\S.*\?;$',c) and 'let' in c: out.append((rel,i,l,l+l.strip()))
    seen=set(); u=[]
    for x in out:
        k=(x[0],x[1],x[3])
        if k not in seen and x[2]!=x[3]: seen.add(k); u.append(x)
    return u
def sh(c,t=900,**k):
    try: return subprocess.run(c,shell=True,capture_output=True,text=True,timeout=t,**k)
    except subprocess.TimeoutExpired:
        r=lambda:0; r.returncode=124; r.stdout=''; r.stderr=''; return r
def work(k,q,lock,f):
    R=f'/tmp/mut/w{k}/repo'; os.makedirs(f'/tmp/mut/w{k}',exist_ok=True)
    sh(f'rm -rf {R}; mkdir -p {R}; cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/src /repo/tests {R}/')
    H=f'/tmp/mut/w{k}/h'; os.makedirs(H+'/root/evidence',exist_ok=True)
    sh(f'mkdir -p {H}/sim; cp -r /verif/sim/src /verif/sim/Cargo.lock {H}/sim/; cp /verif/known-findings.txt {H}/root/')
    t=open('/verif/sim/Cargo.toml').read().replace('path = "/repo"',f'path = "{R}"').replace('opt-level = 2','opt-level = 1').replace('codegen-units = 16','codegen-units = 64')
    open(H+'/sim/Cargo.toml','w').write(t)
    env=dict(os.environ,SIM_THREADS='2',SIM_SCALE=SCALE,VERIF_ROOT=H+'/root')
    while True:
        try: n,(rel,i,l,new)=q.get_nowait()
        except queue.Empty: return
        p=f'{R}/{rel}'; s=open('/tmp/mut/base/'+rel).read().split('\n'); s[i]=new; open(p,'w').write('\n'.join(s))
        res='?'
        t=sh(f'. /opt/vp/env.sh; cd {R}; CARGO_TARGET_DIR=/tmp/mut/w{k}/t cargo test --offline --no-fail-fast 2>&1',120)
        if t.returncode==124: res='tests(hang)'
        elif 'could not compile' in t.stdout: res='nocompile'
        elif t.returncode!=0: res='tests'
        else:
            b=sh(f'. /opt/vp/env.sh; cd {H}/sim; export CARGO_TARGET_DIR=/tmp/mut/w{k}/ht; touch {R}/src/lib.rs; cargo build --offline -q --release --bin sim')
            if b.returncode: res='harness build '+b.stderr[-300:]
            else:
                res='SURVIVED'
                for c in ORDER:
                    bn='sim'
                    if c=='C17':
                        b=sh(f'. /opt/vp/env.sh; cd {H}/sim; export CARGO_TARGET_DIR=/tmp/mut/w{k}/ht; cargo build --offline -q --release --bin simstore --features store'); bn='simstore'
                    x=sh(f'/tmp/mut/w{k}/ht/release/{bn} check {c} quick',400,env=env)
                    if x.returncode!=0: res=f'{c} rc={x.returncode}'; break
        open(p,'w').write(open('/tmp/mut/base/'+rel).read())
        with lock: f.write(json.dumps(dict(n=n,file=rel,line=i+1,old=l.strip(),new=new.strip(),res=res))+'\n'); f.flush()
sh('mkdir -p /tmp/mut/base; rm -rf /tmp/mut/base; mkdir -p /tmp/mut/base; cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/src /repo/tests /tmp/mut/base/')
M=list(enumerate(mutants())); random.Random(7).shuffle(M)
done=set()
if os.path.exists(OUT): done={(d['file'],d['line'],d['old'],d['new']) for d in map(json.loads,open(OUT)) if d['res']!='SURVIVED' or os.environ.get('MUT_SKIP')}
M=[m for m in M[:N] if (m[1][0],m[1][1]+1,m[1][2].strip(),m[1][3].strip()) not in done]
print(len(M),'mutants',flush=True)
q=queue.Queue(); [q.put(m) for m in M]
lock=threading.Lock(); f=open(OUT,'a')
T=[threading.Thread(target=work,args=(k,q,lock,f)) for k in range(W)]
[t.start() for t in T]; [t.join() for t in T]
