#!/usr/bin/env python3
"""run.py <property> <quick|thorough>: decides one property on /repo's current tree.

Builds the simulation from the working tree, searches seeded executions with all cores, and
on a failure gates it (same seed twice, replay in two fresh processes), minimises it, writes
the replay file and prints VIOLATION.  Writes evidence/<property>.json."""
import sys,os,subprocess,json,time,threading,shutil,signal
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE); sys.path.insert(0,HERE)
import build
PROP,TIER=sys.argv[1],sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
SEED=int(os.environ.get('VERIF_SEED','1')); W=int(os.environ.get('SIM_WORKERS',os.cpu_count() or 4))
OUT=os.environ.get('SIM_OUT',os.path.join(V,'out',PROP)); EV=os.environ.get('SIM_EVIDENCE',os.path.join(V,'evidence'))
PAR=PROP[0]=='C'; VAR='omp' if PAR else 'ser'
# cases per worker and cap in seconds; par: also runs per case
PLAN={'quick':{'C01':(14,5,60),'C02':(24,8,60),'C03':(7,5,60)},'thorough':{'C01':(10**6,12,600),'C02':(10**6,16,600),'C03':(10**6,10,600)}}
SER={'quick':(150,60),'thorough':(10**6,600)}
if os.environ.get('SIM_SECONDS'):
    q=float(os.environ['SIM_SECONDS']); SER={t:(10**6,q) for t in SER}; PLAN={t:{p:(10**6,v[1],q) for p,v in PLAN[t].items()} for t in PLAN}
ENV=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:detect_container_overflow=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=255')
def sh(cmd,timeout):
    try: r=subprocess.run(cmd,capture_output=True,timeout=timeout,env=ENV,cwd='/',start_new_session=True); return r.returncode,r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return -1,''
def tail(o):
    l=[x for x in o.split('\n') if x.startswith(('VIOLATED','NOVIOLATION'))]; return l[-1] if l else ''
def main():
    t0=time.time()
    try: exe=build.build(VAR)
    except RuntimeError as e: print('BUILD FAILED',e); return 2
    tb=time.time()-t0
    shutil.rmtree(OUT,ignore_errors=True); os.makedirs(OUT,exist_ok=True); os.makedirs(EV,exist_ok=True)
    base=SEED*1000003%2000000011
    if PAR: n,runs,cap=PLAN[TIER][PROP]; cmds=[[exe,'search',PROP,str(base+w),str(W),str(n),str(runs),str(cap),OUT] for w in range(W)]
    else: n,cap=SER[TIER]; cmds=[[exe,'search',PROP,str(base+w),str(W),str(n),str(cap),OUT] for w in range(W)]
    print('%s %s: seed %d, first case %d, %d workers'%(PROP,TIER,SEED,base,W)); sys.stdout.flush()
    t1=time.time(); lock=threading.Lock(); cases=[]; fails=[]; errs=[]; procs=[]; late=[]; stop=threading.Event()
    def work(cmd):
        p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=ENV,cwd='/',start_new_session=True); 
        with lock: procs.append(p)
        er=[]; te=threading.Thread(target=lambda: er.append(p.stderr.read())); te.start()
        for l in p.stdout:
            l=l.decode(errors='replace').rstrip('\n')
            if l.startswith('{'):
                try:
                    with lock: cases.append(json.loads(l))
                except ValueError: errs.append('unreadable record: '+l[:200])
            elif l.startswith('FAIL '):
                with lock: fails.append(l.split(' ',3)[1:])
                if ' same=0 ' not in l: stop.set()      # a failure that does not repeat does not end the search for one that does
        p.wait(); te.join()
        if p.returncode not in (0,1) and not stop.is_set() and p not in late: errs.append('worker exit %s: %s'%(p.returncode,er[0][-400:].decode(errors='replace')))
    th=[threading.Thread(target=work,args=(c,)) for c in cmds]
    for t in th: t.start()
    end=t1+cap+260
    while any(t.is_alive() for t in th):
        time.sleep(0.2)
        if stop.is_set() or time.time()>end:
            time.sleep(1)
            for p in procs:
                if p.poll() is None:
                    late.append(p)
                    try: os.killpg(p.pid,signal.SIGKILL)
                    except OSError: pass
            for t in th: t.join(20)
            break
    ts=time.time()-t1
    viol=None; unrep=[]
    for f in sorted(fails,key=lambda f:(f[1]!='same=1',f)):
        path,same,what=f[0],f[1],f[2] if len(f)>2 else ''
        a=sh([exe,'replay',path],300); b=sh([exe,'replay',path],300)
        if same=='same=1' and a[0]==1 and b[0]==1 and tail(a[1])==tail(b[1]):
            mn=path[:-7]+'.min.replay'; left=max(20,min(90,560-(time.time()-t0)))
            m=sh([exe,'min',path,mn,str(left)],left+320)
            c=sh([exe,'replay',mn],300) if m[0]==0 and os.path.exists(mn) else (0,'')
            if c[0]==1: viol=(mn,tail(c[1]),m[1].strip())
            else: viol=(path,tail(a[1]),'')
            break
        unrep.append(what)
        if len(unrep)<=12: print('not reproducible, not reported: %s %s'%(path,what))
    known=[]
    try:
        for l in open(os.path.join(V,'known-findings.txt')):
            if l.startswith('KNOWN-FINDING: property=%s '%PROP): known.append(l.strip())
    except OSError: pass
    evidence(cases,ts,tb,time.time()-t0,viol,unrep,errs,0 if stop.is_set() else len(late))
    for k in known: print(k)
    if viol:
        print(viol[1]); 
        if viol[2]: print('minimised:',viol[2])
        print('VIOLATION property=%s replay=%s'%(PROP,viol[0])); return 1
    if unrep or errs: print('ERROR',unrep,errs); return 2
    ran=[c for c in cases if not c.get('skip')]
    if len(ran)<0.5*max(1,len(cases)) or not cases: print('ERROR: %d of %d cases could not be decided'%(len(cases)-len(ran),len(cases))); return 2
    print('OK: %d cases, %.0f s'%(len(ran),time.time()-t0)); return 0
COMMON=['gsKLShell and G+Smo core compiled from source; no component is stubbed except those named','geometries with 1-3 patches, degree 1-3, at most 3x3 elements per patch; the laws, implementations and couplings listed in DESIGN.md']
def evidence(cases,ts,tb,wall,viol,unrep,errs,late):
    ran=[c for c in cases if not c.get('skip')]; cov={}
    if PAR:
        rs=[r for c in ran for r in c['runs']]; ev=len(rs); h=set(r['h'] for r in rs if r['pre']>0); st={}
        for r in rs: st[r['s']]=st.get(r['s'],0)+1
        cov=dict(evaluations=ev,distinct_nontrivial=len(h),rule='a run is one problem, one list of operations, one team size and one seeded interleaving; distinct = different hash of the sequence of context switches (region, thread, position, next thread) with at least one preemption inside a parallel region',
            samples=[{'case':c['case'],'problem':c['text'],'operations':c.get('ops',[]),'runs':[{'strategy':r['s'],'threads':r['t'],'switches':r['sw'],'hash':r['h']} for r in c['runs'][:3]]} for c in ran[:6]],
            cases=len(ran),skipped=len(cases)-len(ran),strategies=st,team_sizes=sorted(set(r['t'] for r in rs)),
            simulated_steps=sum(r['steps'] for r in rs),switches=sum(r['sw'] for r in rs),preemptions=sum(r['pre'] for r in rs),blocked=sum(r['blk'] for r in rs),parallel_regions=sum(r['reg'] for r in rs),critical_sections=sum(r['crit'] for r in rs),conflicting_locations=sum(r['conf'] for r in rs),
            runs_per_hour=int(ev/max(ts,1e-9)*3600),seeds_per_hour=int(len(ran)/max(ts,1e-9)*3600),simulated_time='logical: one step per instrumented memory access or synchronisation operation',
            faults={'preemption':sum(r['pre'] for r in rs),'blocked on a lock or barrier':sum(r['blk'] for r in rs)},
            components={'real':'gsKLShell, G+Smo core (gsExprAssembler, gsExprEvaluator, bases, geometries), Eigen','simulated':'OpenMP runtime (teams, static/dynamic loops, single, critical, locks, barriers), thread identity, scheduling','adapted':'gsExprHelper::iface first-touch of its mirror is serialised'})
    else:
        ev=sum(c['steps'] for c in ran); f={}
        for c in ran:
            for k,v in c['faults'].items(): f[k]=f.get(k,0)+v
        cov=dict(evaluations=len(ran),distinct_nontrivial=len(set(c['h'] for c in ran if c['compared']+c['checked']+c['fired']>0 or PROP in('M01','X01'))),rule='a run is one history: a problem and a sequence of operations, configuration changes, copies, destructions and faults on a pool of objects; distinct = different hash of problem, steps and fault positions, counted only if at least one step was judged',
            samples=[{'case':c['case'],'problem':c['text'],'history':c['hist']} for c in ran[:6]],
            histories=len(ran),skipped=len(cases)-len(ran),steps=ev,judged_steps=sum(c['checked'] for c in ran),comparisons=sum(c['compared'] for c in ran),effect_checks=sum(c.get('effects',0) for c in ran),references=sum(c['refs'] for c in ran),distinct_outcomes=len(set(c['oh'] for c in ran)),
            runs_per_hour=int(len(ran)/max(ts,1e-9)*3600),seeds_per_hour=int(len(ran)/max(ts,1e-9)*3600),simulated_time='logical: one step per public operation, %d steps'%ev,
            faults=f,faults_fired=sum(c['fired'] for c in ran),
            components={'real':'gsKLShell, G+Smo core, Eigen, under the address sanitizer','simulated':'the disk: write, read and open of the material files, and what a crash leaves of them' if PROP=='X01' else "the caller's functions (force, thickness, density, parameters, pressure, foundation, boundary values), which fail at the call the simulator chooses; the heap (accounting of live blocks)",'stub':'none'})
    cov['build_s']=round(tb,1); cov['search_s']=round(ts,1); cov['first_case']=SEED*1000003%2000000011; cov['workers']=W; cov['workers_stopped_at_deadline']=late
    e=dict(property=PROP,tier=TIER,seed=SEED,level='exploration',coverage=cov,wall_s=round(wall,1),assumptions=COMMON+(['OpenMP memory model reduced to sequential consistency: weaker orderings of the hardware are not simulated','the team size is constant during the life of an object'] if PAR else ['references are the same operation on a freshly constructed object with the same configuration, in a process of its own','the operator new / malloc of the core library does not fail']),violations=[dict(replay=viol[0],what=viol[1])] if viol else [])
    if unrep or errs: e['coverage']['errors']=unrep+errs
    p=os.path.join(EV,PROP+'.json')
    with open(p+'.tmp','w') as h: json.dump(e,h,indent=1)
    os.replace(p+'.tmp',p)
if __name__=='__main__': sys.exit(main())
