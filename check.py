#!/usr/bin/env python3
"""Solver-based check of one property against /repo's current working tree.
usage: check.py PROPERTY [--tier quick|thorough] [--keep]"""
import sys, os, json, subprocess, time, shutil, tempfile, re, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('VP_REPO','/repo')
sys.path.insert(0,V)
from units import UNITS, NOTES
CLANG='/usr/bin/clang++'; LL='/usr/lib/llvm-18/bin/'
IRFLAGS='-std=gnu++17 -w -O1 -gline-tables-only -Xclang -disable-llvm-passes -ffp-contract=off -fno-vectorize -fno-slp-vectorize -emit-llvm -c'.split()
BASE=['structured/MemoryPool.cpp','structured/Grid.cpp','structured/MemoryWindow.cpp','structured/GhostData.cpp']
class Err(Exception): pass
def sh(cmd,timeout=600,**k):
    return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,text=True,errors='replace',**k)
def must(cmd,what,timeout=600,**k):
    r=sh(cmd,timeout,**k)
    if r.returncode: raise Err(f'{what} failed ({r.returncode}): {" ".join(cmd)[:400]}\n{r.stdout[:1500]}')
    return r.stdout
def engine():
    out=f'{V}/build/engine'
    src=sorted(glob.glob(f'{V}/engine/*.cpp')+glob.glob(f'{V}/engine/*.h')+[f'{V}/engine/Makefile'])
    h=hashlib.sha256(b''.join(open(f,'rb').read() for f in src)).hexdigest()
    stamp=f'{out}/stamp'
    if os.path.exists(f'{out}/symex') and os.path.exists(stamp) and open(stamp).read()==h: return f'{out}/symex'
    os.makedirs(out,exist_ok=True)
    must(['make','-s','-j8','-C',f'{V}/engine',f'OUT={out}'],'engine build')
    open(stamp,'w').write(h); return f'{out}/symex'
def config(work,mode,nth):
    t=open(f'{REPO}/SpatialOpsConfigure.h.in').read()
    on={'ENABLE_THREADS','FIELD_EXPRESSION_THREADS','STENCIL_THREADS','TILL_THREADS'} if mode=='threads' else set()
    t=re.sub(r'#cmakedefine\s+(\w+)',lambda m:f'#define {m[1]}' if m[1] in on else f'/* #undef {m[1]} */',t)
    t=t.replace('@NTHREADS@',str(nth)).replace('@SOPS_REPO_DATE@','"vp"').replace('@SOPS_REPO_HASH@','"vp"')
    d=f'{work}/cfg_{mode}{nth}/spatialops'; os.makedirs(d,exist_ok=True)
    open(f'{d}/SpatialOpsConfigure.h','w').write(t); return f'{work}/cfg_{mode}{nth}'
def main():
    a=sys.argv[1:]; prop=a[0]; tier=os.environ.get('VERIF_TIER','quick'); keep='--keep' in a
    if '--tier' in a: tier=a[a.index('--tier')+1]
    only=a[a.index('--unit')+1] if '--unit' in a else None
    seed=int(os.environ.get('VERIF_SEED','1')); t0=time.time()
    units=[u for u in UNITS[prop] if tier=='thorough' or not u.get('thorough_only')]
    if only: units=[u for u in units if u.get('name',u['h'])==only]
    work=tempfile.mkdtemp(prefix=f'vp_{prop}_'); 
    try: rc=run(prop,tier,seed,units,work,t0)
    except Err as e: print('ERROR',e); rc=2
    except subprocess.TimeoutExpired as e: print('ERROR timeout',str(e)[:300]); rc=2
    finally:
        if keep: print('work dir',work)
        else: shutil.rmtree(work,ignore_errors=True)
    sys.exit(rc)
def known(prop):
    ids={}
    for l in open(f'{V}/known_findings.txt'):
        m=re.match(r'known: property=(\S+) assert=(\S+) (.*)',l)
        if m and m[1]==prop: ids[m[2]]=m[3].strip()
    return ids
def run(prop,tier,seed,units,work,t0):
    pool=ThreadPoolExecutor(8); npool=ThreadPoolExecutor(6); eng=pool.submit(engine)
    modes={}
    for u in units:
        k=(u.get('mode','serial'),u.get('nth',4)); modes[k]=config(work,*k)
    def inc(u): return ['-I',modes[(u.get('mode','serial'),u.get('nth',4))],'-I',REPO,'-I',f'{V}/rt','-I',f'{V}/harness']+[f'-D{d}' for d in u.get('defs',[])]
    jobs={}; 
    def bc(src,u,defs=True):
        key=(src,u.get('mode','serial'),u.get('nth',4),tuple(u.get('defs',[])) )
        if key not in jobs:
            o=f'{work}/bc{len(jobs)}.bc'
            jobs[key]=(pool.submit(must,[CLANG]+IRFLAGS+inc(u)+[src,'-o',o],f'bitcode of {src}'),o)
        return jobs[key]
    def srcs(u):
        l=u.get('src',BASE)+u.get('extra',[])
        if u.get('mode')=='threads' and 'ThreadPool.cpp' not in l: l=l+['ThreadPool.cpp']
        return [f'{REPO}/spatialops/{s}' for s in l]
    sup=f'{work}/sup.bc'; supj=pool.submit(must,[CLANG]+IRFLAGS+[f'{V}/rt/support.cpp','-o',sup],'support')
    plan=[]
    for u in units: plan.append((u,[bc(f"{V}/harness/{u['h']}",u)]+[bc(s,u) for s in srcs(u)]))
    def link(i,u,parts):
        for f,_ in parts: f.result()
        supj.result(); l=f'{work}/u{i}.l.bc'; o=f'{work}/u{i}.bc'
        must([LL+'llvm-link','-o',l]+[p for _,p in parts]+[sup],'link')
        must([LL+'opt','-passes='+u.get('passes','elim-avail-extern,default<O1>'),l,'-o',o],'opt'); return o
    NF='-std=gnu++17 -w -O0 -g1 -ffp-contract=off -fsanitize=address -fno-omit-frame-pointer'.split()
    NFS='-std=gnu++17 -w -O0 -g1 -ffp-contract=off -fsanitize=thread --param tsan-distinguish-volatile=1'.split()
    nat={}
    def nobj(src,u):
        sc=bool(u.get('sched')); key=(src,u.get('mode','serial'),u.get('nth',4),tuple(u.get('defs',[])),sc)
        fl=NF if not sc else (NFS if '/rt/' not in src else '-std=gnu++17 -w -O1 -DVP_SCHED'.split())
        if key not in nat:
            o=f'{work}/n{len(nat)}.o'; nat[key]=(npool.submit(must,['g++']+fl+inc(u)+['-c',src,'-o',o],f'native compile of {src}'),o)
        return nat[key]
    def native(i,u,o):
        exe=f'{work}/native{i}'
        parts=[nobj(f"{V}/harness/{u['h']}",u)]+[nobj(s,u) for s in srcs(u)]+[nobj(f'{V}/rt/vp_native.cpp',u)]+([nobj(f'{V}/rt/vp_sched.cpp',u)] if u.get('sched') else [])
        return parts,exe
    def native_link(parts,exe,u):
        for f,_ in parts: f.result()
        must(['g++']+([] if u.get('sched') else ['-fsanitize=address'])+['-o',exe]+[p for _,p in parts]+['-lboost_thread','-lboost_system','-lpthread'],'native link'); return exe
    replay=os.environ.get('VP_NOREPLAY')!='1'
    natp={}
    if replay:
        for i,(u,_) in enumerate(plan):
            if not u.get('lazy'): natp[i]=native(i,u,None)   # lazy: compiled natively only when there is something to confirm
    lj=[ (i,u,pool.submit(link,i,u,parts)) for i,(u,parts) in enumerate(plan)]
    sym=eng.result(); links=[(i,u,f.result()) for i,u,f in lj]
    kn=known(prop); res=[]; viol=[]; knownhit={}; unconf=[]; wit_ok=wit_bad=0; incompl=[]; badw=[]
    def ev(): return {}
    for i,u,o in links:
        out=f'{work}/out{i}'; os.makedirs(out)
        cfg=dict(u.get('cfg',{})); cfg.update(u.get(tier,{})); tl=cfg.pop('time',90 if tier=='quick' else 800)
        pre=cfg.pop('preempt',2)
        if u.get('sched') and b'pthread_mutex_trylock' in open(o,'rb').read(): cfg['trylock']=1 # unlocking becomes a switch point: a held lock can be observed
        cmd=[sym,'--bc',o,'--out',out,'--jobs',str(u.get('jobs',8)),'--time',str(tl),'--preempt',str(pre),'--rlimit',str(cfg.pop('rlimit',20000000))]
        if not kn: cmd+=['--grace','25' if tier=='quick' else '60']
        if u.get('spurious'): cmd.append('--spurious')
        if cfg.pop('blockcost',u.get('blockcost')): cmd.append('--blockcost')
        for k,v in cfg.items(): cmd+=['--cfg',f'{k}={v}']
        if os.environ.get('VP_TRACE'): cmd.append('--trace')
        env=dict(os.environ); env['LD_BIND_NOW']='1'
        r=sh(cmd,timeout=tl+120,env=env)
        if os.environ.get('VP_TRACE'): print(r.stdout[-6000:])
        if not os.path.exists(f'{out}/summary.json'): raise Err(f'engine produced no summary on {u["h"]}: {r.stdout[-2000:]}')
        s=json.load(open(f'{out}/summary.json')); s['unit']=u.get('name',u['h']); s['cfg']=cfg; s['undecided_log']=sorted(set(re.findall(r'undecided (\S+)',r.stdout)))[:10]
        if os.path.exists(f'{out}/incomplete.txt'):
            ls=open(f'{out}/incomplete.txt').read().split('\n')[:-1]; cnt={}
            for l in ls: cnt[l]=cnt.get(l,0)+1
            s['incomplete_reasons']=cnt; incompl+= [f"{s['unit']}: {k} x{v}" for k,v in list(cnt.items())[:6]]
        res.append(s)
        cands=sorted(glob.glob(f'{out}/cand_*.txt'),key=os.path.getmtime); wits=sorted(glob.glob(f'{out}/wit_*.txt'))
        if not replay: 
            for c in cands: print('CAND',open(c).read()[:1500])
            continue
        if not cands and (not wits or u.get('lazy')): continue
        if i not in natp: natp[i]=native(i,u,None)
        exe=native_link(*natp[i],u)
        def rep(f,fill):
            with open(f) as fh: txt=fh.read()
            if '# cfg' not in txt:
                with open(f,'w') as fh: fh.write(''.join(f'# cfg {k} {v}\n' for k,v in list(cfg.items())+([('spurious',1)] if u.get('spurious') else []))+txt)
            e=dict(os.environ); e['ASAN_OPTIONS']=f'detect_leaks=0:detect_stack_use_after_return=1:max_malloc_fill_size=1073741824:malloc_fill_byte={fill}:abort_on_error=0'
            e['VP_TIMEOUT']='20'
            try: r=subprocess.run([exe,f],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=25,env=e); return r.returncode,r.stdout
            except subprocess.TimeoutExpired: return 124,'HANG (timed out)'
        for c in cands:
            head=open(c).read(); cid=re.search(r'# id (\S+)',head)[1]; what=re.search(r'# what (.*)',head)[1]
            ok=None
            for fill in (190,64,0,255):
                rc,txt=rep(c,fill)
                if rc not in (0,90,91,92,93): ok=(fill,rc,txt); break
                last=(rc,txt)
            if ok:
                ids=set(re.findall(r'ASSERTION-FAILED id=(\S+)',ok[2])) or {cid}
                if ids<=set(kn): 
                    for k in ids: knownhit[k]=kn[k]
                    continue
                d=f'{V}/evidence/replay'; os.makedirs(d,exist_ok=True); p=f'{d}/{prop}_{i}_{len(viol)}.txt'
                with open(p,'w') as f: f.write(open(c).read()+f'# harness {u["h"]} mode {u.get("mode","serial")} malloc_fill {ok[0]}\n'+''.join('# out '+l+'\n' for l in ok[2].split('\n')[:40]))
                viol.append((cid,what,p,ok[2]))
            else: unconf.append(f"{s['unit']}: {cid}: {what[:160]} (replay rc {last[0]} {last[1][-160:]!r})")
        for w in ([] if u.get('lazy') else wits[:12]):
            rc,txt=rep(w,190)
            if rc==0: wit_ok+=1
            else:
                ids=set(re.findall(r'ASSERTION-FAILED id=(\S+)',txt))
                if ids and ids<=set(kn): wit_ok+=1; continue
                wit_bad+=1; badw.append(f"{s['unit']}: witness rc={rc} {txt[-200:]!r}")
                if os.environ.get('VP_TRACE'): print('BAD WITNESS',open(w).read(),txt[-1500:])
    # ---- evidence
    tot=lambda k: sum(r[k] for r in res)
    vac=[f"{r['unit']}: {k}" for r in res for k,v in r['ids'].items() if v['reached']==0]
    need=[]
    for i,u,_ in links:
        r=res[i] if i<len(res) else None
        for q in u.get('reach',[]):
            if r is not None and r['ids'].get(q,{}).get('reached',0)==0: need.append(f"{r['unit']}: {q} never reached")
    fns=sorted({f for r in res for f in r['functions']})
    asserts=sum(v['reached'] for r in res for k,v in r['ids'].items() if v['kind']==0)
    level='model_checking' if any(u.get('sched') for u in units) else 'other'
    cov=dict(explanation=NOTES.get(prop,'')+' Bounded symbolic execution of the LLVM IR of the real code: every path of each harness within its bounds, assertions decided by Z3.',
      states=tot('paths'),transitions=tot('insts'),traces_validated_against_impl=wit_ok,obligations=asserts,discharged=tot('asserts_discharged')+tot('asserts_conc')+tot('asserts_tol'),
      exhaustive=(tot('incomplete')==0 and tot('asserts_undecided')==0 and not unconf),
      samples=asserts,
      functions_encoded=fns[:400],functions_encoded_count=len(fns),paths=tot('paths'),infeasible_paths=tot('infeasible'),forks=tot('forks'),instructions=tot('insts'),
      solver_queries=tot('queries'),queries_sat=tot('qsat'),queries_unsat=tot('qunsat'),queries_unknown=tot('qunknown'),solver_seconds=round(tot('solver_s'),2),
      assertions_symbolic=tot('asserts_sym'),assertions_folded_to_constants=tot('asserts_conc'),assertions_discharged=tot('asserts_discharged'),assertions_within_rounding=tot('asserts_tol'),assertions_undecided=tot('asserts_undecided'),
      incomplete_paths=tot('incomplete'),incomplete_reasons=incompl[:20],unconfirmed_candidates=unconf[:20],witnesses_replayed_ok=wit_ok,witnesses_failed=wit_bad,witness_problems=badw[:10],vacuous=need,
      schedule_points=tot('schedpts'),
      bounds=[dict(unit=r['unit'],**r['cfg'],mode=u.get('mode','serial'),text=u.get('bounds','')) for r,(i,u,_) in zip(res,links)],
      assertion_ids={r['unit']:{k:v['reached'] for k,v in r['ids'].items()} for r in res},
      sizes=[])
    cov['sizes']=None; del cov['sizes']
    e=dict(property=prop,tier=tier,seed=seed,level=level,coverage=cov,assumptions=ASSUME,wall_s=round(time.time()-t0,2),violations=len(viol))
    os.makedirs(f'{V}/evidence',exist_ok=True); json.dump(e,open(f'{V}/evidence/{prop}.json','w'),indent=1)
    for k,w in kn.items():
        if k in knownhit: print(f'KNOWN-FINDING: property={prop} assert={k} {w}')
    print(f"{prop} {tier}: units {len(res)} paths {tot('paths')} queries {tot('queries')} solver {tot('solver_s'):.1f}s asserts {asserts} discharged {tot('asserts_discharged')} tol {tot('asserts_tol')} const {tot('asserts_conc')} undecided {tot('asserts_undecided')} incomplete {tot('incomplete')} witnesses ok {wit_ok} bad {wit_bad} candidates {tot('cands')} unconfirmed {len(unconf)} wall {time.time()-t0:.1f}s")
    for x in incompl[:8]+unconf[:8]+badw[:5]+need: print('  note:',x)
    if viol:
        for cid,what,p,txt in viol[:10]: print(f'  assertion {cid}: {what[:300]}'); 
        print(f'VIOLATION property={prop} replay={viol[0][2]}'); return 1
    return 0
ASSUME=['floating-point values are finite and carried as exact reals; equality is up to rounding','transcendental functions are uninterpreted (congruence only)','allocation never fails','C++ runtime, libc and pthread primitives are modelled by the executor','the IR produced by clang 18 (-O1) stands for the code; counterexamples are replayed on the g++ build']
if __name__=='__main__': main()
