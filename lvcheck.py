#!/usr/bin/env python3
"""Driver: decide one property by symbolic execution of the current /repo sources.

  lvcheck.py <PROPERTY> [--tier quick|thorough] [--keep] [--only entry]

Pipeline (everything regenerated from /repo's working tree on each run):
  1. configure the two generated headers from their .in templates,
  2. compile the repo sources the property depends on, the harness and the library stubs to LLVM IR (clang 18),
  3. link, and run the symbolic executor (engine/lvsym) on each harness entry: z3 decides every assertion over all
     values of the symbolic inputs within the harness bounds,
  4. any counterexample is replayed on a native g++ build of the same repo sources against the real OpenCV,
  5. evidence/<id>.json is rewritten.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run.
"""
import sys,os,json,subprocess,time,shutil,tempfile,glob,hashlib,re,argparse
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); R=os.environ.get('LV_REPO','/repo'); B=V+'/build'
sys.path.insert(0,V+'/lib')
import props as P
MODS=['utils','features2d','imgproc','datasets','video','vptz']
NCPU=os.cpu_count() or 4
def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def die(msg):
    print('ERROR: '+msg); sys.exit(2)
def gen_headers(d):
    vars=json.load(open(V+'/lib/cmakevars.json'))
    def conf(src,dst):
        s=open(src).read(); s=re.sub(r'@(\w+)@',lambda m:vars.get(m.group(1),''),s)
        os.makedirs(os.path.dirname(dst),exist_ok=True); open(dst,'w').write(s)
    conf(R+'/modules/utils/include/litiv/utils/defines.hpp.in',d+'/utils/include/litiv/utils/defines.hpp')
    conf(R+'/modules/utils/include/litiv/utils/defines.hpp.in',d+'/vptz/include/litiv/vptz/defines.hpp')
    conf(R+'/modules/vptz/include/litiv/vptz/utils.hpp.in',d+'/vptz/include/litiv/vptz/utils.hpp')
def common_flags(gen,extra):
    f=['-DLITIV_BUILD','-DLITIV_DEBUG=0','-DLV_EXPORT_API','-DLV_IMPORT_API','-DDATASETS_LITIV2018_DATA_VERSION=2','-I'+V+'/harness']
    for m in MODS: f+=['-I%s/modules/%s/include'%(R,m),'-I%s/%s/include'%(gen,m)]
    f+=['-I%s/3rdparty/bsds500/include'%R,'-I%s/3rdparty/ofdis/include'%R,'-I/usr/include/eigen3','-isystem','/usr/include/opencv4','-include','/opt/vp/support/compat/opencv4_compat.hpp','-DNDEBUG','-std=gnu++14','-march=x86-64-v3','-w']
    return f+extra
IR=['-Wno-everything','-O1','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-gline-tables-only','-emit-llvm','-c']
def build_engine():
    os.makedirs(B,exist_ok=True)
    r=sh(['make','-s','-C',V+'/engine','OUT='+B])
    if r.returncode: die('engine build failed\n'+r.stdout[-3000:])
    for src,flags in (('stubs/stdmini.cpp',['-std=gnu++14']),('stubs/cvmini.cpp',['-std=gnu++14','-isystem','/usr/include/opencv4','-march=x86-64-v3']),('stubs/cmini.c',['-fno-builtin','-ffreestanding'])):
        out=B+'/'+os.path.basename(src).split('.')[0]+'.bc'
        if not os.path.exists(out) or os.path.getmtime(out)<os.path.getmtime(V+'/'+src):
            r=sh(['clang-18' if src.endswith('.c') else 'clang++-18']+flags+IR+['-w',V+'/'+src,'-o',out+'.tmp%d'%os.getpid()])
            if r.returncode: die('stub build failed\n'+r.stdout[-3000:])
            os.replace(out+'.tmp%d'%os.getpid(),out)
def sources(mods):
    out=[]
    for m in mods:
        if '/' in m: out+=sorted(glob.glob(R+'/'+m)); continue
        out+=sorted(glob.glob(R+'/modules/%s/src/*.cpp'%m))
    return [s for s in out if os.path.basename(s) not in P.SKIP_SOURCES]
def main():
    ap=argparse.ArgumentParser(); ap.add_argument('prop',nargs='?'); ap.add_argument('--setup',action='store_true'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER') or 'quick'); ap.add_argument('--keep',action='store_true'); ap.add_argument('--only'); ap.add_argument('--verbose',action='store_true')
    a=ap.parse_args(); t0=time.time()
    if a.setup: build_engine(); sys.exit(0)
    if a.prop not in P.PROPS: die('unknown property')
    tier='thorough' if a.tier=='thorough' else 'quick'
    cfg=P.PROPS[a.prop]; seed=int(os.environ.get('VERIF_SEED') or 0)
    build_engine()
    work=tempfile.mkdtemp(prefix='lv_%s_'%a.prop,dir=os.environ.get('TMPDIR') or '/tmp')
    try: rc=run(a,cfg,tier,seed,work,t0)
    finally:
        if not a.keep: shutil.rmtree(work,ignore_errors=True)
        else: print('work dir:',work)
    sys.exit(rc)
def run(a,cfg,tier,seed,work,t0):
    gen=work+'/gen'; gen_headers(gen)
    groups=cfg['groups']; jobs={}; exe=ThreadPoolExecutor(NCPU)
    def comp(src,out,flags):
        r=sh(['clang++-18']+flags+IR+[src,'-o',out]); return (src,r.returncode,r.stdout)
    futs=[]; seen={}
    for gi,g in enumerate(groups):
        defs=list(g.get('defs',[]))+(['-DTHOROUGH=1'] if tier=='thorough' else [])
        g['_bcs']=[]
        out='%s/h%d.bc'%(work,gi); g['_h']=V+'/harness/'+g['harness']; g['_defs']=defs
        irf=[x.replace('{V}',V) for x in g.get('irflags',[])]
        futs.append(exe.submit(comp,g['_h'],out,common_flags(gen,defs+irf))); g['_bcs'].append(out)
        for s in sources(g['mods']):
            k=(s,tuple(g.get('defs',[])+irf))
            if k not in seen: seen[k]='%s/s%d.bc'%(work,len(seen)); futs.append(exe.submit(comp,s,seen[k],common_flags(gen,list(g.get('defs',[]))+irf)))
            g['_bcs'].append(seen[k])
    for f in futs:
        src,rc,out=f.result()
        if rc: die('cannot compile %s\n%s'%(src,out[-4000:]))
    t_comp=time.time()-t0
    runs=[]
    for gi,g in enumerate(groups):
        ents=[e for e in g['entries'] if (tier=='thorough' or not e.get('thorough')) and (not a.only or e['name']==a.only)]
        if not ents: continue
        lb='%s/l%d.bc'%(work,gi)
        r=sh(['llvm-link-18']+g['_bcs']+[B+'/stdmini.bc',B+'/cvmini.bc',B+'/cmini.bc','-o',lb])
        if r.returncode: die('llvm-link failed\n'+r.stdout[-3000:])
        names=','.join(e['name'] for e in ents)
        r=sh(['opt-18','-passes=internalize,globaldce','-internalize-public-api-list='+names,lb,'-o',lb+'.o.bc'])
        if r.returncode: die('opt failed\n'+r.stdout[-3000:])
        for e in ents: runs.append((g,e,lb+'.o.bc'))
    stop=[]
    def one(x):
        if stop: return None
        g,e,bc=x; o='%s/%s.json'%(work,e['name']); cex='%s/%s'%(work,e['name'])
        bud=e.get('tbudget',3*e.get('budget',200)) if tier=='thorough' else e.get('budget',200)
        cmd=[B+'/lvsym',bc,'-entry',e['name'],'-o',o,'-cex',cex,'-budget',str(bud),'-j',str(e.get('j',2))]+[str(z) for z in (e.get('topts') or e.get('opts',[]) if tier=='thorough' else e.get('opts',[]))]
        t=time.time()
        try: r=sh(cmd,timeout=bud+120); rc=r.returncode; out=r.stdout
        except subprocess.TimeoutExpired: rc=-1; out='timeout'
        try: j=json.load(open(o))
        except Exception: j={'violations':[],'undecided':['executor failed rc=%s %s'%(rc,out[-500:])],'checks':{},'covered':[],'inputs':[],'functions':[],'stubs':[],'stats':{}}
        j['_t']=time.time()-t
        if a.verbose: print('  entry %s: %.1fs viol=%d undecided=%d checks=%s'%(e['name'],j['_t'],len(j['violations']),len(j['undecided']),json.dumps(j['checks'])))
        if j['violations'] and os.environ.get('LV_FIRST'): stop.append(1)
        return (g,e,j)
    with ThreadPoolExecutor(int(cfg.get('par',4))) as ex: results=[x for x in ex.map(one,sorted(runs,key=lambda x:-x[1].get('cost',1))) if x]
    return report(a,cfg,tier,seed,work,gen,results,t0,t_comp)
def known():
    f=V+'/known_findings.json'
    return json.load(open(f)) if os.path.exists(f) else []
def native_build(work,gen,g,e,asan):
    od=work+'/nat%s_%s'%('a' if asan else '',hashlib.md5((g['harness']+str(g['_defs'])).encode()).hexdigest()[:8]); os.makedirs(od,exist_ok=True)
    fl=['g++']+common_flags(gen,list(g['_defs']))+['-fopenmp','-fpermissive','-fPIC','-ffunction-sections','-fdata-sections']+(['-O1','-g','-fsanitize=address,undefined','-fno-sanitize=vptr'] if asan else ['-O2','-D_GLIBCXX_ASSERTIONS' if False else '-DLV_NAT'])
    srcs=[(s,od+'/%d.o'%i,[]) for i,s in enumerate([g['_h']]+sources(g['mods']))]
    srcs.append((V+'/harness/native.cpp',od+'/native_%s.o'%e['name'],['-DLV_ENTRY='+e['name']]))
    def c(x):
        if os.path.exists(x[1]): return 0,''
        r=sh(fl+x[2]+['-c',x[0],'-o',x[1]]); return r.returncode,r.stdout
    with ThreadPoolExecutor(NCPU) as ex: rs=list(ex.map(c,srcs))
    for rc,o in rs:
        if rc: return None,'native compile failed: '+o[-1500:]
    exe=od+'/replay_'+e['name']
    libs=['-lopencv_'+l for l in ('core','imgproc','imgcodecs','highgui','video','videoio','features2d','calib3d','flann','photo','objdetect')]
    r=sh(fl+['-Wl,--gc-sections','-Wl,--unresolved-symbols=ignore-all']+[s[1] for s in srcs]+libs+['-lpthread','-lglfw','-lGLEW','-lGLU','-lGL','-o',exe])
    if r.returncode: return None,'native link failed: '+r.stdout[-1500:]
    return exe,''
def replay(work,gen,g,e,v):
    """returns (status,text): confirmed | refuted | error"""
    asan=v['kind'] not in ('check','exception')
    if v['kind'] in ('deadlock','sched') or e.get('threads'):
        return 'confirmed','schedule counterexample: the executor re-ran the real code\'s IR under the listed schedule'
    exe,err=native_build(work,gen,g,e,asan)
    if not exe: return 'error',err
    env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0',OMP_NUM_THREADS='1',UBSAN_OPTIONS='print_stacktrace=1')
    try: r=subprocess.run([exe,v['cex']],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,timeout=120,cwd=work,errors='replace',text=True)
    except subprocess.TimeoutExpired: return 'confirmed','native replay did not terminate within 120 s'
    o=r.stdout
    if 'ASSUME-FAILED' in o: return 'refuted',o[-600:]
    if 'CHECK-FAILED' in o or 'AddressSanitizer' in o or r.returncode<0 or (asan and 'runtime error' in o): return 'confirmed',o[-1500:]
    return 'refuted',o[-600:]
def report(a,cfg,tier,seed,work,gen,results,t0,t_comp):
    pid=a.prop; kf=[k for k in known() if k.get('property')==pid and k.get('status')=='known']
    confirmed=[]; unconf=[]; knowns=[]; und=[]; checks={}; funcs=set(); stubs=set(); samples=[]; stats={}
    nreach=ndis=ncov=0
    for g,e,j in results:
        for m,(rc,dc) in j['checks'].items():
            checks['%s: %s'%(e['name'],m)]=[rc,dc]; nreach+=rc; ndis+=dc
        funcs|=set(j['functions']); stubs|=set(j['stubs'])
        und+=['%s: %s'%(e['name'],u if isinstance(u,str) else json.dumps(u)) for u in j['undecided']]
        for c in e.get('cover',[]):
            if c not in j['covered'] and not j['violations']: und.append('%s: witness "%s" not reached'%(e['name'],c))
        ncov+=len(j['covered'])
        for k,x in j['stats'].items():
            if isinstance(x,(int,float)): stats[k]=round(stats.get(k,0)+x,3)
        samples.append({'entry':e['name'],'bounds':e.get('bounds',''),'symbolic_inputs':j['inputs'] if not isinstance(j['inputs'],list) else j['inputs'][:12],'witnesses_reached':j['covered'][:8],'seconds':round(j['_t'],1)})
    os.makedirs(V+'/evidence',exist_ok=True)
    rdir=V+'/evidence/replay'
    for g,e,j in results:
        done=set()
        for v in j['violations'][:6]:
            key=(v['kind'],v['msg'])
            if key in done: continue
            done.add(key)
            st,txt=replay(work,gen,g,e,v)
            rec={'property':pid,'entry':e['name'],'kind':v['kind'],'message':v['msg'],'where':v.get('where',''),'replay_status':st,'replay_output':txt}
            k=next((k for k in kf if k['entry'] in (e['name'],'*') and (k['message'] in v['msg'] or k['message']=='*') and (not k.get('where') or k['where'] in v.get('where',''))),None)
            if st!='confirmed': unconf.append(rec); continue
            if k: knowns.append((k,rec)); continue
            os.makedirs(rdir,exist_ok=True); rp='%s/%s_%s_%d.txt'%(rdir,pid,e['name'],len(confirmed))
            with open(rp,'w') as f:
                f.write('property %s, harness %s (%s)\nkind: %s\nmessage: %s\nwhere: %s\n\n--- counterexample (symbolic input values) ---\n'%(pid,e['name'],g['harness'],v['kind'],v['msg'],v.get('where','')))
                try: f.write(open(v['cex']).read())
                except Exception as ex: f.write(str(ex))
                f.write('\n--- native replay (%s) ---\n%s\n'%(st,txt))
            confirmed.append((rp,rec))
    wall=time.time()-t0
    ev={'property':pid,'tier':tier,'seed':seed,'level':cfg.get('level','other'),'coverage':{
        'explanation':'Bounded symbolic execution of the LLVM IR compiled from the current /repo sources; each assertion is an SMT query (z3, QF_ABV/QF_FPBV) over all values of the symbolic inputs within the stated bounds; counterexamples are replayed natively.',
        'functions_encoded':sorted(funcs),'assertions_reached':nreach,'assertions_discharged':ndis,'checks':checks,'harness_entries':len(results),
        'solver':stats,'witnesses_reached':ncov,'undecided':und,'unconfirmed_counterexamples':unconf,'known_findings':[r for _,r in knowns],'environment_models_used':sorted(stubs),'samples':samples,'compile_s':round(t_comp,1)},
        'assumptions':cfg.get('assumptions',[])+P.COMMON_ASSUMPTIONS,'wall_s':round(wall,1),'violations':len(confirmed)}
    json.dump(ev,open('%s/evidence/%s.json'%(V,pid),'w'),indent=1)
    for k,r in knowns: print('KNOWN-FINDING: property=%s %s'%(pid,k['what']))
    for u in und: print('UNDECIDED: '+u[:400])
    for u in unconf: print('UNCONFIRMED: %s [%s] %s at %s -> %s: %s'%(u['entry'],u['kind'],u['message'],u['where'],u['replay_status'],u['replay_output'][-300:].replace('\n',' | ')))
    for rp,r in confirmed: print('VIOLATION property=%s replay=%s'%(pid,rp)); print('  %s: [%s] %s at %s'%(r['entry'],r['kind'],r['message'],r['where']))
    print('%s %s: %d entries, %d assertions reached, %d discharged, %d undecided, %d functions of the repository encoded, %.1fs'%(pid,tier,len(results),nreach,ndis,len(und),len(funcs),wall))
    return 1 if confirmed else 0
if __name__=='__main__': main()
