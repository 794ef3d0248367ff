#!/usr/bin/env python3
"""Driver: compiles /repo's current sources with a harness to LLVM IR, runs the symbolic executor on every harness entry of a
property, replays counterexamples natively, writes evidence.   usage: vf.py check C01 [quick|thorough] | vf.py setup | vf.py dev C01 [entry]"""
import sys,os,json,subprocess,hashlib,time,re,shutil,tempfile,threading,signal
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); REPO='/repo'; B=os.path.join(V,'build'); CACHE=os.path.join(B,'cache')
sys.path.insert(0,V)
SHADOW=['-I'+V+'/engine/shadow']
FLAGS=('-w -std=gnu++14 -fPIC -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ferror-limit=20 -DupdateGL=update -DSUITESPARSE_VERSION_4 -include /opt/vp/py3compat/py2names.h '
 '-DBOOST_MATH_DISABLE_FLOAT128=1 -DNDEBUG -DYADE_ODEINT -DYADE_VTK6 -DYADE_VTK8 -Dkiss_fft_scalar=double -Dyade_EXPORTS '
 '-DYADE_VTK -DYADE_OPENMP -DQGLVIEWER_FOUND -DYADE_OPENGL -DYADE_QT5 -DYADE_CGAL -DFLOW_ENGINE -DLINSOLV -DTWOPHASEFLOW -DYADE_GL2PS -DLBM_ENGINE '
 '-DEIGEN_DONT_VECTORIZE -DEIGEN_DONT_ALIGN -DEIGEN_DISABLE_UNALIGNED_ARRAY_ASSERT -DCGAL_DISABLE_ROUNDING_MATH_CHECK').split()
INCS=('-idirafter /usr/lib/gcc/x86_64-linux-gnu/13/include -I/repo -I'+V+'/harness -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi '
 '-I/usr/lib/python3/dist-packages/numpy/core/include -I/usr/include/python3.12 -I/usr/include/eigen3 -I/usr/include/suitesparse -I/repo/_build -I/repo/_build/pkg/pfv -isystem /usr/include/vtk-9.1').split()
def sha(b): return hashlib.sha256(b).hexdigest()[:24]
def fsha(p,_m={}):
    try: st=os.stat(p)
    except OSError: return 'none'
    k=(p,st.st_mtime_ns,st.st_size)
    if k not in _m:
        with open(p,'rb') as f: _m[k]=sha(f.read())
    return _m[k]
def run(cmd,timeout=None,**kw): return subprocess.run(cmd,timeout=timeout,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**kw)
class CheckError(Exception): pass
def engine():
    out=os.path.join(B,'vfsym'); src=os.path.join(V,'engine/src'); key=sha(''.join(fsha(os.path.join(src,f)) for f in sorted(os.listdir(src))).encode()); kf=out+'.key'
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read()==key: return out
    os.makedirs(B,exist_ok=True); tmp=out+'.%d'%os.getpid(); r=run(['bash',os.path.join(V,'engine/build.sh'),tmp])
    if r.returncode: raise CheckError('engine build failed: '+r.stdout.decode()[-2000:])
    os.replace(tmp,out); open(kf,'w').write(key); return out
def deps(dfile):
    t=open(dfile).read().replace('\\\n',' '); return [d for d in t.split(':',1)[1].split() if d.startswith(REPO) or d.startswith(V)]
_kl={}; _kll=threading.Lock()
def compile_bc(src,defs=()):
    with _kll: l=_kl.setdefault((src,tuple(defs)),threading.Lock())
    with l: return compile_bc1(src,defs)
def compile_bc1(src,defs=()):
    """bitcode of one translation unit, cached on the content of everything it includes from /repo and /verif"""
    os.makedirs(CACHE,exist_ok=True); key=sha((src+'|'+' '.join(defs)+'|'+' '.join(FLAGS+INCS)).encode()); idx=os.path.join(CACHE,key+'.json')
    try:
        j=json.load(open(idx))
        if all(fsha(p)==h for p,h in j['deps']) and os.path.exists(j['bc']): return j['bc']
    except (OSError,ValueError): pass
    me='.%d-%d'%(os.getpid(),threading.get_ident()); tmp=os.path.join(CACHE,key+me); last=''
    for sh in (SHADOW,['-I'+V+'/engine/omp']):
        r=run(['clang++-18','-x','c++','-emit-llvm','-c',src,'-o',tmp+'.bc','-MD','-MF',tmp+'.d','-O1','-Xclang','-disable-llvm-passes']+FLAGS+list(defs)+sh+INCS)
        if r.returncode==0: break
        last+=r.stdout.decode(errors='replace')[-3000:]
    else: raise CheckError('cannot compile '+src+':\n'+last)
    dl=[[p,fsha(p)] for p in sorted(set(deps(tmp+'.d')))]; bc=os.path.join(CACHE,key+'-'+sha(json.dumps(dl).encode())+'.bc'); os.replace(tmp+'.bc',bc); os.unlink(tmp+'.d'); json.dump({'deps':dl,'bc':bc},open(idx+me,'w')); os.replace(idx+me,idx); return bc
def build_unit(unit,entries):
    """link the unit's bitcode, keep only what the entries reach"""
    srcs=[os.path.join(V,'harness',s) if not s.startswith('/') else s for s in [unit['harness']]+(['env.cpp'] if unit.get('env') else [])]+[os.path.join(REPO,s) for s in dict.fromkeys(unit.get('sources',[]))]
    with ThreadPoolExecutor(8) as ex: bcs=list(ex.map(lambda s:compile_bc(s,tuple(unit.get('defs',()))),srcs))
    keep=','.join(sorted(entries)); o=os.path.join(B,'unit-'+sha((keep+'|'.join(bcs)+'v3').encode())+'.bc')
    ENTRIES[o]=sorted(entries)
    if os.path.exists(o): return o
    t=o+'.%d-%d'%(os.getpid(),threading.get_ident())
    if len(bcs)>1:
        r=run(['llvm-link-18','-o',t+'.l']+[bcs[0]]+['--override='+b if False else b for b in bcs[1:]])
        if r.returncode: raise CheckError('link failed: '+r.stdout.decode()[-2000:])
    else: shutil.copy(bcs[0],t+'.l')
    r=run(['opt-18','-passes=internalize,globaldce,default<O1>,globaldce','-internalize-public-api-list='+keep,t+'.l','-o',t])
    if r.returncode: raise CheckError('opt failed: '+r.stdout.decode()[-2000:])
    os.unlink(t+'.l'); os.replace(t,o); return o
LIBS=['libboost_python312.so','libpython3.12.so.1.0','libboost_serialization.so','libboost_filesystem.so','libboost_date_time.so','libboost_thread.so','libboost_iostreams.so','libboost_regex.so']
def libargs():
    r=[]
    for l in LIBS:
        for d in ('/usr/lib/x86_64-linux-gnu/','/lib/x86_64-linux-gnu/'):
            if os.path.exists(d+l): r+=['--lib',d+l]; break
    return r
def sym(bc,entry,opts,budget,jobs,stop=None,grace=None):
    out=os.path.join(B,'run-%d-%s.json'%(os.getpid(),entry)); 
    cmd=[engine(),bc,'--harness',entry,'--out',out,'-j',str(jobs),'--budget',str(budget)]+(['--stop',stop] if stop else [])+(['--grace',str(grace)] if grace else [])+libargs()+[str(o) for o in opts]
    r=run(cmd,timeout=budget+120)
    if r.returncode or not os.path.exists(out): raise CheckError('executor failed on %s: %s'%(entry,r.stdout.decode(errors='replace')[-1500:]))
    j=json.load(open(out)); os.unlink(out); return j
_nl=threading.Lock(); _nls={}; ENTRIES={}
def native(bc,entry,asan=False):
    with _nl: lk=_nls.setdefault((bc,asan),threading.Lock())
    with lk: return native1(bc,asan)
def native1(bc,asan):
    o=bc[:-3]+'-'+fsha(os.path.join(V,"engine/vf_native.cpp"))[:8]+"b"+('-asan' if asan else '')+'.exe'
    if True:
        if os.path.exists(o): return o
        t=o+'.%d'%os.getpid(); ib=bc; fl=['-O1']; open(t+'.inc','w').write(''.join('E(%s)\n'%e for e in ENTRIES[bc]))
        if asan:
            r=run(['opt-18','-passes=forceattrs','-force-attribute=sanitize_address',bc,'-o',t+'.bc']); ib=t+'.bc'; fl=['-O1','-fsanitize=address']
            if r.returncode: return None
        objs=[]
        for src,extra in ((os.path.join(V,'engine/vf_native.cpp'),['-DVF_ENTRIES="'+t+'.inc"']),(ib,['-x','ir'])):
            ob=t+'.%d.o'%len(objs); objs.append(ob); r=run(['clang++-18','-w','-fPIC','-c']+fl+extra+[src,'-o',ob])
            if r.returncode: sys.stderr.write('native build: '+r.stdout.decode(errors='replace')[-1500:]); return None
        secs=set(re.findall(r' (\.init_array\S*|\.ctors\S*)',run(['objdump','-h','-w',objs[1]]).stdout.decode()))
        if secs: run(['objcopy']+['--rename-section=%s=vf_ctors,alloc,load,data,contents'%x for x in secs]+[objs[1]])
        ln=['clang++-18']+fl+objs+['-o',t,'-Wl,--no-demangle']+[a for a in libargs() if a!='--lib']+['-lpthread','-lm']
        r=run(ln)
        if r.returncode: # symbols the encoded entries never call: stop the replay if one is reached after all
            und=sorted(set(re.findall(r"undefined reference to `([^']+)'",r.stdout.decode(errors='replace')))); sf=t+'.s'
            with open(sf,'w') as fh:
                fh.write('.text\n'); 
                for u in und: fh.write('.globl "%s"\n.type "%s",@function\n"%s":\n'%(u,u,u))
                fh.write('jmp vf_unresolved@PLT\n.section .note.GNU-stack,"",@progbits\n')
            r=run(ln+[sf]); os.unlink(sf)
        for ob in objs+[t+'.inc']: os.path.exists(ob) and os.unlink(ob)
        if asan and os.path.exists(ib): os.unlink(ib)
        if r.returncode: sys.stderr.write('native build: '+r.stdout.decode(errors='replace')[-1500:]); return None
        os.replace(t,o); return o
def replay(exe,entry,inputs,timeout=60):
    d=tempfile.mkdtemp(prefix='vf'); f=os.path.join(d,'in'); 
    with open(f,'w') as fh:
        for n,k,v in inputs: fh.write('%s\t%s\n'%(n,v))
    rp,wp=os.pipe()
    def pre(): os.dup2(wp,3) if wp!=3 else None
    try:
        p=subprocess.Popen(['bash','-c','exec "$0" "$1" "$3" 3>"$2"',exe,f,os.path.join(d,'out'),entry],stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:exitcode=66',OMP_NUM_THREADS='1',MALLOC_PERTURB_='165'))
        try: err=p.communicate(timeout=timeout)[1].decode(errors='replace'); rc=p.returncode
        except subprocess.TimeoutExpired: p.kill(); p.wait(); err='timeout'; rc=-99
        lines=open(os.path.join(d,'out'),errors='replace').read().split('\n') if os.path.exists(os.path.join(d,'out')) else []
    finally: os.close(rp); os.close(wp); shutil.rmtree(d,ignore_errors=True)
    return rc,lines,err
def confirm(bc,entry,v):
    """does the counterexample happen on the compiled code?"""
    if not v.get('model',True): return False,'no model'
    kind=v['kind']; asan=kind=='mem'; exe=native(bc,entry,asan)
    if not exe: return False,'native build failed'
    rc,lines,err=replay(exe,entry,v['inputs'])
    fails=[l[5:] for l in lines if l.startswith('FAIL ')]
    if asan:
        if rc==66 or 'AddressSanitizer' in err or rc in (-11,-8,-6): return True,'memory error reproduced: '+(re.search(r'ERROR: AddressSanitizer: [^\n]{0,80}',err) or re.match(r'.{0,80}',err)).group(0)
        return bool(fails), '; '.join(fails[:3]) or 'not reproduced (rc %d)'%rc
    if kind=='exception': return any(l.startswith('EXCEPTION') for l in lines) or rc<0, '; '.join(l for l in lines if l.startswith('EXC'))+' rc %d'%rc
    if kind=='abort': return rc<0 or rc in(134,139,1), 'rc %d'%rc
    if any(f.split(' [')[0]==v['label'] for f in fails): return True,next(f for f in fails if f.split(' [')[0]==v['label'])
    if fails: return True,'; '.join(fails[:3])
    if rc<0 and rc!=-99: return True,'crash, signal %d'%-rc
    return False,'not reproduced (rc %d) %s'%(rc,lines[-2:])
def validate(bc,entry,j,limit):
    """path models through the native build: the same observations, no failing assertion"""
    n=bad=0; notes=[]; exe=native(bc,entry)
    if not exe: return 0,0,['native build failed']
    for m in j['models'][:limit]:
        rc,lines,err=replay(exe,entry,m['inputs']); n+=1
        if rc==9: n-=1; continue
        obs={}; 
        for l in lines:
            if l.startswith('OBS '): k,v=l[4:].rsplit(' ',1); obs.setdefault(k,[]).append(float(v))
        mo={}
        for k,v in m['obs']: mo.setdefault(k,[]).append(v)
        for k in mo:
            if len(mo[k])==len(obs.get(k,[])):
                for a,b in zip(mo[k],obs[k]):
                    if abs(a-b)>1e-6*(1+abs(a)+abs(b)): bad+=1; notes.append('%s: encoding %r native %r'%(k,a,b)); break
        if rc not in (0,): bad+=1; notes.append('native rc %d %s'%(rc,lines[-3:]))
    return n,bad,notes
def load_known():
    try: return json.load(open(os.path.join(V,'known_findings.json')))['findings']
    except OSError: return []
TOTAL=420
def check(pid,tier,only=None,dev=False):
    from checks import CHECKS
    c=CHECKS[pid]; t0=time.time(); seed=int(os.environ.get('VERIF_SEED','1') or 1); res=[]; errors=[]
    budget=(c.get('budget') or {}).get(tier, 240 if tier=='quick' else 2400)
    units=[]
    for u in c['units']:
        ents=[e for e in u['entries'] if (tier=='thorough' or not e.get('thorough')) and not (tier=='thorough' and e.get('quick_only')) and (only is None or e['fn'] in only)]
        if ents: units.append((u,ents))
    engine()
    with ThreadPoolExecutor(4) as ex: bcs=list(ex.map(lambda x:build_unit(x[0],[e['fn'] for e in x[0]['entries']]),units))
    tb=time.time()-t0
    jobs=[(bc,e) for (u,ents),bc in zip(units,bcs) for e in ents]; conc=min(4,len(jobs)); per=max(2,8//conc)
    known=load_known(); stop=os.path.join(B,'stop-%d-%s'%(os.getpid(),pid)); os.path.exists(stop) and os.unlink(stop); end=time.time()+(TOTAL if tier=='quick' else 6*3600); open_=[k for k in known if k.get('status')!='fixed' and k['property']==pid]
    def isKnown(fn,v,why): return next((k for k in open_ if k['entry']==fn and k['label']==v['label'] and re.search(k.get('detail','.*'),v['detail']+' | '+v['where']+' | '+why)),None)
    def one(x):
        bc,e=x; left=end-time.time()
        if left<5 or os.path.exists(stop): return x,None,'skipped: '+('a violation was found in another entry' if os.path.exists(stop) else 'time'),[],[]
        try: j=sym(bc,e['fn'],e.get('opts',[])+(e.get('opts_thorough',[]) if tier=='thorough' else []),min(e.get('budget',budget),left),per,stop,None if dev or open_ else 30)
        except (CheckError,subprocess.TimeoutExpired) as ee: return x,None,str(ee),[],[]
        seen={}; viol=[]; unconf=[]
        for v in j['violations']:
            k=(v['label'],v['kind'])
            if seen.get(k)=='yes' or seen.get(k,0)==4: continue
            ok,why=confirm(bc,e['fn'],v)
            if ok:
                seen[k]='yes'; viol.append((e['fn'],v,why,bc))
                if not isKnown(e['fn'],v,why) and not dev: open(stop,'w').close()
            else: seen[k]=seen.get(k,0)+1; unconf.append('%s: %s: %s'%(e['fn'],v['label'],why))
        return x,j,None,viol,unconf
    nt=[threading.Thread(target=native,args=(bc,None)) for bc in dict.fromkeys(b for b,_ in jobs)]
    for x in nt: x.start()
    with ThreadPoolExecutor(conc) as ex: outs=list(ex.map(one,jobs))
    for x in nt: x.join()
    stopped=os.path.exists(stop); stopped and os.unlink(stop)
    viol=[]; unconf=[]; kn=[]; val=[0,0]; valnotes=[]
    for (bc,e),j,er,vi,un in outs:
        viol+=vi; unconf+=un
        if er: errors.append(e['fn']+': '+er); continue
        res.append((e,j))
        if not stopped and (tier=='thorough' or e.get('validate',2)):
            n,b,notes=validate(bc,e['fn'],j,8 if tier=='thorough' else e.get('validate',2)); val[0]+=n; val[1]+=b; valnotes+=['%s: %s'%(e['fn'],x) for x in notes]
    out=[]; rdir=os.path.join(V,'replays'); n=0
    for fn,v,why,bc in viol:
        kf=isKnown(fn,v,why)
        if kf: kn.append(kf); continue
        os.makedirs(rdir,exist_ok=True); n+=1; rp=os.path.join(rdir,'%s-%d.json'%(pid,n)); json.dump({'property':pid,'entry':fn,'label':v['label'],'kind':v['kind'],'detail':v['detail'],'where':v['where'],'inputs':v['inputs'],'native':why,'how':'python3 vf.py replay '+rp},open(rp,'w'),indent=1); out.append((rp,fn,v,why))
    # evidence
    asr={}; tot=dict(paths=0,instr=0,bq=0,aq=0,st=0.0); fns=set(); und=[]; missing=[]; ents=[]; incomplete=[]; strat={}
    for e,j in res:
        tot['paths']+=j['paths']; tot['instr']+=j['instr']; tot['bq']+=j['branch_queries']; tot['aq']+=j['assert_queries']; tot['st']+=sum(s['t'] for s in j['strategies'].values())
        for s,x in j['strategies'].items(): y=strat.setdefault(s,dict(n=0,t=0.0)); y['n']+=x['n']; y['t']=round(y['t']+x['t'],2)
        for l,a in j['asserts'].items():
            b=asr.setdefault(l,dict(proved=0,unknown=0,violated=0)); b['proved']+=a['unsat']+a['concrete']; b['unknown']+=a['unknown']; b['violated']+=a['sat']
            if a['unknown']: und.append('%s: %s (%d)'%(e['fn'],l,a['unknown']))
        bad={k:j['end_msgs'].get(k,'') for k in j['ends'] if k in('unsupported','limit','error','crash','timeout')}
        if bad or j['capped']: incomplete.append({'entry':e['fn'],'capped':j['capped'],'ends':{k:j['ends'][k] for k in bad},'msgs':bad})
        for r in e.get('reach',['end']):
            if not j['reach'].get(r): missing.append('%s: %s'%(e['fn'],r))
        fns|={f for f in j['functions'] if not re.match(r'(std::|__gnu|boost::|Eigen::|void std::|h_|bool std|_GLOBAL|void Eigen|vf_)',f)}
        ents.append({'entry':e['fn'],'bounds':e.get('bounds',''),'paths':j['paths'],'ends':j['ends'],'exhaustive':not j['capped'] and not bad,'wall_s':round(j['wall'],1),'unknown_branches':j['unknown_branches'],'nonzero_divisor_assumptions':j['nonzero_divisor_assumptions'],'domain_assumptions':j['domain_assumptions']})
    proved=sum(a['proved'] for a in asr.values()); oblig=sum(a['proved']+a['unknown']+a['violated'] for a in asr.values())
    cov={'explanation':c['explanation'],'functions_encoded':sorted(f[:160] for f in fns)[:120],'functions_encoded_count':len(fns),'entries':ents,'obligations':oblig,'discharged':proved,'assertions':asr,'undecided':und,'incomplete':incomplete,'vacuity_witness_missing':missing,'paths':tot['paths'],'ir_instructions_executed':int(tot['instr']),'branch_queries':int(tot['bq']),'assertion_queries':int(tot['aq']),'solver_queries_by_strategy':strat,'solver_time_s':round(tot['st'],2),'traces_validated_against_impl':val[0],'traces_disagreeing':val[1],'disagreements':valnotes[:10],'unconfirmed_counterexamples':unconf[:20],'exhaustive':not incomplete and not und and not errors,'errors':errors,'build_s':round(tb,1),'bounds':{e['fn']:e.get('bounds','') for e,j in res},'samples':[m for e,j in res for m in j['models'][:1]][:3]}
    ev={'property':pid,'tier':tier,'seed':seed,'level':'other','coverage':cov,'assumptions':c.get('assumptions',[])+COMMON,'wall_s':round(time.time()-t0,2),'violations':len(out)}
    os.makedirs(os.path.join(V,'evidence'),exist_ok=True); json.dump(ev,open(os.path.join(V,'evidence',pid+'.json'),'w'),indent=1)
    seenk=set()
    for k in kn:
        kk=k.get('id',k['label'])
        if kk in seenk: continue
        seenk.add(kk); print('KNOWN-FINDING: property=%s %s'%(pid,k['what']))
    print('%s %s: %d entries, %d paths, %d/%d obligations discharged, %d undecided, %d validated traces (%d disagree), solver %.1fs, build %.1fs, wall %.1fs'%(pid,tier,len(res),tot['paths'],proved,oblig,sum(a['unknown'] for a in asr.values()),val[0],val[1],tot['st'],tb,time.time()-t0))
    for x in und[:20]: print('  undecided:',x)
    for x in incomplete: print('  incomplete:',json.dumps(x)[:600])
    for x in missing: print('  no witness:',x)
    for x in unconf[:10]: print('  unconfirmed:',x)
    for x in valnotes[:10]: print('  disagreement:',x)
    for x in errors: print('  error:',x[:3000])
    if dev:
        for e in ents: print('   ',e['entry'],e['paths'],e['ends'],e['wall_s'])
    for rp,fn,v,why in out:
        print('  violated: %s: %s (%s) native: %s; inputs %s'%(fn,v['label'],v['detail'],why,' '.join('%s=%s'%(i[0],i[2]) for i in v['inputs'])[:600]))
    if out: print('VIOLATION property=%s replay=%s'%(pid,out[0][0])); return 1
    return 0
COMMON=['C++ translated to LLVM IR by clang 18 -O1 from the current /repo sources (OpenMP pragmas executed sequentially; python registration and serialization export macros stubbed)','doubles are exact reals in the encoding: rounding, NaN/infinite inputs and division by exactly zero are outside the claim; counterexamples are confirmed in IEEE arithmetic on the compiled code','memory allocation does not fail']
def setup():
    from checks import CHECKS
    engine(); us=[(u,[e['fn'] for e in u['entries']]) for c in CHECKS.values() for u in c['units']]
    with ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(build_unit,u,e) for u,e in us]:
            try: f.result()
            except CheckError as e: print('setup:',str(e)[:2000])
    return 0
def gen():
    from checks import CHECKS,NA
    pl=[]; ck=[]; ds=[]
    for i,c in sorted(list(CHECKS.items())+list(NA.items())):
        assert len(c['title'])<=80,(i,len(c['title'])); pl.append({'id':i,'title':c['title'],'statement':c['statement'],'quantifier':{'over':c['over'],'text':c['quant']},'why_tests_cant':c['why'],'anchors':{'files':c['files'],'mechanism':[{'name':m,'where':c['files'][0]} for m in c['mech']]}})
        for f in c['files']: assert os.path.exists(os.path.join(REPO,f)),f
        ds.append('### %s %s\n\n%s\n'%(i,c['title'],c['statement']))
        if i in CHECKS:
            ck.append({'property':i,'quick_cmd':'python3 vf.py check %s quick'%i,'thorough_cmd':'python3 vf.py check %s thorough'%i,'evidence_file':'evidence/%s.json'%i,'technique':'symbolic execution of the LLVM IR of the real code with SMT (z3), counterexamples replayed natively','level':'other','level_note':'Holds for every value and path within the stated bounds: %s. Doubles are treated as exact reals; OpenMP pragmas run sequentially.'%'; '.join('%s: %s%s'%(e['fn'],e.get('bounds',''),' (thorough)' if e.get('thorough') else '') for u in c['units'] for e in u['entries'])})
            ds.append('How it is decided: %s\n\nBounds:\n%s\n'%(c['explanation'],''.join('- `%s`%s: %s\n'%(e['fn'],' (thorough)' if e.get('thorough') else '',e.get('bounds','')) for u in c['units'] for e in u['entries'])))
            if c['assumptions']: ds.append('Assumptions: '+'; '.join(c['assumptions'])+'.\n')
        else: ds.append('Not applicable: '+c['reason']+'\n')
    open(os.path.join(V,'properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in pl))
    json.dump({'version':1,'setup_cmd':'python3 vf.py setup','checks':ck,'not_applicable':[{'property':i,'reason':c['reason']} for i,c in sorted(NA.items())],'notes':'No hooks in /repo; fix: commits are listed in known_findings.json.'},open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
    rd=lambda n:open(os.path.join(V,'notes',n)).read()
    open(os.path.join(V,'DESIGN.md'),'w').write(rd('head.md')+'\n## Properties\n\n'+'\n'.join(ds)+'\n'+rd('tail.md'))
    return 0
def main():
    a=sys.argv[1:]
    if a[0]=='setup': return setup()
    if a[0]=='gen': return gen()
    if a[0]=='check':
        try: return check(a[1],(a[2] if len(a)>2 else os.environ.get('VERIF_TIER','quick')))
        except CheckError as e: print('check error:',str(e)[:4000]); return 2
    if a[0]=='dev':
      try: return check(a[1],os.environ.get('VERIF_TIER','quick'),only=a[2:] or None,dev=True)
      except CheckError as e: print('\n'.join(l[:300] for l in str(e).split('\n') if 'error' in l or 'undefined' in l or 'failed' in l)[:3000] or str(e)[:2000]); return 2
    if a[0]=='replay':
        from checks import CHECKS
        j=json.load(open(a[1])); 
        for u in CHECKS[j['property']]['units']:
            if any(e['fn']==j['entry'] for e in u['entries']):
                bc=build_unit(u,[e['fn'] for e in u['entries']]); ok,why=confirm(bc,j['entry'],j); print('reproduced' if ok else 'not reproduced',why); return 1 if ok else 0
if __name__=='__main__': sys.exit(main())
