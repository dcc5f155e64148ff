#!/usr/bin/env python3
"""developer helper: mutation testing.  mut.py gen SEED N > list ; mut.py run WORKER NWORKERS list out
Each worker uses its own copies under /tmp/mu/W; nothing under /repo or /verif is changed."""
import sys,re,os,random,json,subprocess,shutil,time
SKIP={'tokenstream_rewriter_test.rs','tokenstream_rewriter.rs','trace_listener.rs','file_stream.rs','context_factory.rs','verif'}
OPS=[(r' == ',' != '),(r' != ',' == '),(r' < ',' <= '),(r' > ',' >= '),(r' <= ',' < '),(r' >= ',' > '),
 (r' && ',' || '),(r' \|\| ',' && '),(r' \+ 1\b',' + 0'),(r' \+ 1\b',' + 2'),(r' - 1\b',' - 0'),(r' \+= 1\b',' += 2'),(r' \+= 1\b',' += 0'),
 (r' -= 1\b',' -= 0'),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'(?<=[ (])!(?=[a-z(])',''),(r'\.min\(','.max('),(r'\.max\(','.min('),
 (r'\.any\(','.all('),(r'\.all\(','.any('),(r'\bcontinue;',';'),(r'\bbreak;',';'),(r'\bbreak;','continue;'),(r'\.rev\(\)',''),
 (r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'\.is_empty\(\)','.is_empty() == false'),(r'\bINVALID_ALT\b','1'),
 (r'\bstart\b','stop'),(r'\bstop\b','start'),(r'\ba\b','b'),(r'\bb\b','a'),(r'\.first\(\)','.last()'),(r'\.last\(\)','.first()'),
 (r'(?<![\w.])0(?![\w.])','1'),(r'(?<![\w.])1(?![\w.])','0'),(r'\.skip\(1\)',''),(r'\bif (?!let)([^{}]+) \{',r'if true || (\1) {'),(r'\bif (?!let)([^{}]+) \{',r'if false && (\1) {')]
def points():
    pts=[]
    for f in sorted(os.listdir('/repo/src')):
        if not f.endswith('.rs') or f in SKIP or 'vh_' in f: continue
        L=open('/repo/src/'+f).read().split('\n')
        test=False
        for i,l in enumerate(L):
            s=l.strip()
            if s.startswith('#[cfg(test)]') or s.startswith('#[cfg(vh_hooks)]') or s.startswith('mod test') : test=True
            if test: continue
            if not s or s.startswith('//') or s.startswith('/*') or s.startswith('* ') or s.startswith('#[') or s.startswith('use ') or s.startswith('pub use') or 'debug_assert' in s or 'println' in s or s.startswith('impl') or ' fn ' in ' '+s or s.startswith('where') or s.startswith('pub const') or s.startswith('const'): continue
            code=l.split('//')[0]
            for (a,b) in OPS:
                for m in re.finditer(a,code):
                    n=code[:m.start()]+m.expand(b)+code[m.end():]
                    if n!=code: pts.append((f,i,l,n))
            if re.match(r'^[a-z_][\w.]*(\(.*\)|\s*[-+|&]?=\s.*)\S*;$',s) and not s.startswith('let') and not s.startswith('return') and s.count('(')==s.count(')'):
                pts.append((f,i,l,re.match(r'\s*',l).group(0)+';'))
    # dedupe
    return sorted(set(pts))
def gen(seed,n):
    p=points(); random.Random(seed).shuffle(p)
    for x in p[:n]: print(json.dumps(x))
    print(len(p),file=sys.stderr)
def sh(c,t,env=None,cwd=None):
    p=subprocess.Popen(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env,cwd=cwd,start_new_session=True)
    try:
        o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        import signal; os.killpg(p.pid,signal.SIGKILL); p.communicate(); return 124,''
ORDER=os.environ.get('ORDER','').split() or None
def run(w,nw,lst,out):
    d='/tmp/mu/%d'%w
    if not os.path.exists(d):
        os.makedirs(d+'/v/evidence'); os.makedirs(d+'/v/replays')
        shutil.copytree('/repo',d+'/repo',symlinks=True)
    else: sh('cd %s/repo && git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD'%d,60)
    shutil.rmtree(d+'/v/harness',ignore_errors=True); shutil.copytree('/verif/harness',d+'/v/harness'); shutil.copy('/verif/known_findings.txt',d+'/v')
    sh("sed -i 's#path = \"/repo\"#path = \"%s/repo\"#' %s/v/harness/Cargo.toml; grep -rl '/repo/tests' %s/v/harness/src | xargs -r sed -i 's#\"/repo/tests#\"%s/repo/tests#'"%(d,d,d,d),10)
    env=dict(os.environ,VERIF_DIR=d+'/v',VERIF_SEED='1',VERIF_TIER='quick',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',CARGO_INCREMENTAL='0',RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',VH_SCALE=os.environ.get('VH_SCALE','0.12'))
    henv=dict(env,CARGO_TARGET_DIR=d+'/vt'); tenv=dict(env,CARGO_TARGET_DIR=d+'/repo/target')
    stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    props=['C%02d'%i for i in range(1,31)]
    done=set()
    if os.path.exists(out):
        done={json.loads(l)['k'] for l in open(out)}
    for k,l in enumerate(open(lst)):
        if k%nw!=w or k in done: continue
        f,i,old,new=json.loads(l)
        p=d+'/repo/src/'+f; src=open(p).read(); L=src.split('\n')
        if L[i]!=old: continue
        L[i]=new; open(p,'w').write('\n'.join(L))
        t0=time.time(); res='?'; det=''
        try:
            rc,o=sh('cargo build --release --offline 2>&1 || cargo build --release --offline --no-default-features',400,henv,d+'/v/harness')
            if rc: res='nobuild'; continue
            rc,o=sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 4 > %s/t.log 2>&1; python3 /opt/vp/results.py %s/o.json cargo:%s/t.log'%(d,d,d),200,tenv,d+'/repo')
            if rc==124: res='tests'; continue
            ps=set(json.load(open(d+'/o.json'))['passed'])
            if not stable<=ps: res='tests'; continue
            res='SURVIVED'
            for q in (ORDER or props):
                rc,o=sh(d+'/vt/release/vh run %s quick'%q,200,henv,d+'/v')
                if rc==1 and 'VIOLATION' in o: res='caught'; det=q; break
                if rc==124: res='timeout'; det=q; break
                if rc!=0: det+=' %s:rc%d'%(q,rc)
        finally:
            open(p,'w').write(src)
            with open(out,'a') as h: h.write(json.dumps(dict(k=k,f=f,line=i+1,old=old.strip(),new=new.strip(),res=res,det=det,t=round(time.time()-t0)))+'\n')
if sys.argv[1]=='gen': gen(int(sys.argv[2]),int(sys.argv[3]))
else: run(int(sys.argv[2]),int(sys.argv[3]),sys.argv[4],sys.argv[5])
