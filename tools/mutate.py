"""mut.py FILE...: AST mutants of the given pytspl files against the checks."""
import ast, copy, os, sys, json, shutil, time, signal, importlib, multiprocessing as mp, random, contextlib, io, traceback
os.environ.update(MPLBACKEND='Agg',OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1',MKL_NUM_THREADS='1',PYTHONHASHSEED='0')
VER=os.environ.get('VSRC','/tmp/vw')
NC=int(os.environ.get('NC','250'))
CHK={
 'simplicial_complex/simplicial_complex.py':'C01 C02 C03 C05 C04 C06 C09 C25 C07 C24 C23 C22',
 'simplicial_complex/scbuilder.py':'C03 C01 C23 C24 C22 C12',
 'decomposition/eigendecomposition.py':'C06 C04 C15 C25 C14 C17 C16 C19 C20 C22 C23 C24',
 'decomposition/hodge_decomposition.py':'C04 C05 C06 C22 C23 C24',
 'decomposition/frequency_component.py':'C04 C06 C24 C25',
 'filters/base_filter.py':'C13 C16 C25 C17 C15 C24',
 'filters/edge_flow_denoising.py':'C14 C13 C24 C07 C23 C26',
 'filters/grid_based_filter_design.py':'C16 C13 C24 C07 C23',
 'filters/ls_filter_design.py':'C15 C13 C24 C07 C23',
 'filters/chebyshev_filter_design.py':'C17 C13 C24 C23 C26',
 'filters/simplicial_trend_filter.py':'C18 C13 C24 C23',
 'plot/plot.py':'C22 C24 C23',
 'hogde_gp/hodge_gp_trainer.py':'C20 C21 C24 C23',
 'hogde_gp/kernel_serializer.py':'C19 C24 C21','hogde_gp/kernels.py':'C19 C24 C21','hogde_gp/exact_gp.py':'C21',
 'io/network_reader.py':'C08 C09 C23','io/sc_generator.py':'C12 C23',
}
for k in ('diffusion','matern','matern_non_hc','laplacian','diffusion_non_hc'): CHK[f'hogde_gp/forex/{k}.py']='C19 C21 C23'
CMP={ast.Lt:ast.LtE,ast.LtE:ast.Lt,ast.Gt:ast.GtE,ast.GtE:ast.Gt,ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.In:ast.NotIn,ast.NotIn:ast.In,ast.Is:ast.IsNot,ast.IsNot:ast.Is}
BIN={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Div,ast.Div:ast.Mult,ast.Pow:ast.Mult,ast.MatMult:None}
NAMES={'zeros':'ones','ones':'zeros','sum':'mean','mean':'sum','max':'min','min':'max','sorted':'list','sort':'copy','vstack':'hstack','abs':'asarray','append':None,'any':'all','all':'any','unique':'sort','union':None,'sqrt':'abs','exp':'log','std':'var','copy':None,'round':'floor','concatenate':None,'argsort':'sort','toarray':None}
def mutants(src):
    tree=ast.parse(src)
    par={}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n): par[c]=n
    out=[]
    nodes=list(ast.walk(tree))
    def infn(n):
        while n in par:
            n=par[n]
            if isinstance(n,(ast.FunctionDef,)): return True
        return False
    for k,n in enumerate(nodes):
        if not hasattr(n,'lineno') : continue
        def add(desc,f):
            t=copy.deepcopy(tree); nn=list(ast.walk(t))[k]
            try:
                p=f(nn,t,k)
            except Exception: return
            try: s=ast.unparse(ast.fix_missing_locations(t))
            except Exception: return
            if s!=base: out.append((n.lineno,desc,s))
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            c=CMP.get(type(n.ops[0]))
            if c: add(f'{type(n.ops[0]).__name__}->{c.__name__}',lambda nn,t,k:nn.ops.__setitem__(0,c()))
        elif isinstance(n,ast.BinOp):
            c=BIN.get(type(n.op))
            if c: add(f'{type(n.op).__name__}->{c.__name__}',lambda nn,t,k:setattr(nn,'op',c()))
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.USub,ast.Not)):
            add('drop '+type(n.op).__name__,lambda nn,t,k:setattr(nn,'op',ast.UAdd()) if isinstance(nn.op,ast.USub) else repl(t,nn,nn.operand))
        elif isinstance(n,ast.Constant) and infn(n) and not isinstance(par.get(n),ast.Expr):
            v=n.value
            if v is True or v is False: add(f'{v}->{not v}',lambda nn,t,k:setattr(nn,'value',not v))
            elif isinstance(v,int): 
                add(f'{v}->{v+1}',lambda nn,t,k:setattr(nn,'value',v+1))
                if v>0: add(f'{v}->{v-1}',lambda nn,t,k:setattr(nn,'value',v-1))
            elif isinstance(v,float): add(f'{v}->{v*2+.1}',lambda nn,t,k:setattr(nn,'value',v*2+.1))
        elif isinstance(n,(ast.If,ast.While,ast.IfExp)):
            add('if->True',lambda nn,t,k:setattr(nn,'test',ast.Constant(True)) if not isinstance(nn,ast.While) else 1/0)
            add('if->False',lambda nn,t,k:setattr(nn,'test',ast.Constant(False)) if not isinstance(nn,ast.While) else 1/0)
        elif isinstance(n,ast.BoolOp):
            add('and<->or',lambda nn,t,k:setattr(nn,'op',ast.Or() if isinstance(nn.op,ast.And) else ast.And()))
        elif isinstance(n,(ast.AugAssign,)) and infn(n):
            add('augassign->pass',lambda nn,t,k:delstmt(t,nn))
        elif isinstance(n,ast.Expr) and isinstance(n.value,ast.Call) and infn(n):
            if getattr(n.value.func,'id','')=='print' : continue
            add('stmt->pass '+ast.unparse(n)[:40],lambda nn,t,k:delstmt(t,nn))
        elif isinstance(n,(ast.Break,ast.Continue)):
            add('stmt->pass',lambda nn,t,k:delstmt(t,nn))
        elif isinstance(n,ast.Assign) and infn(n):
            # re-assignment of an existing name: dropping it is meaningful
            tg=n.targets[0]
            if isinstance(tg,(ast.Name,ast.Subscript,ast.Attribute)):
                add('assign->pass '+ast.unparse(tg)[:30],lambda nn,t,k:delstmt(t,nn))
        if isinstance(n,ast.Call):
            f=n.func
            nm=f.attr if isinstance(f,ast.Attribute) else getattr(f,'id',None)
            if nm in NAMES and NAMES[nm]:
                def g(nn,t,k):
                    if isinstance(nn.func,ast.Attribute): nn.func.attr=NAMES[nm]
                    else: nn.func.id=NAMES[nm]
                add(f'{nm}->{NAMES[nm]}',g)
            if isinstance(f,ast.Attribute) and nm in ('copy','ravel','flatten','sort','tolist','astype','deepcopy','squeeze','asarray','array','transpose','normalized') :
                add(f'drop .{nm}()',lambda nn,t,k:repl(t,nn,nn.func.value if not (isinstance(nn.func.value,ast.Name) and nn.func.value.id in('np','copy','torch')) else nn.args[0]))
            for j,kw in enumerate(n.keywords):
                if infn(n) and kw.arg: add(f'drop kw {kw.arg}',lambda nn,t,k,j=j:nn.keywords.pop(j))
            if len(n.args)==2 and infn(n) and nm not in('isinstance','range','print'):
                add(f'swap args {nm}',lambda nn,t,k:nn.args.reverse())
        if isinstance(n,ast.Attribute) and n.attr=='T':
            add('drop .T',lambda nn,t,k:repl(t,nn,nn.value))
        if isinstance(n,ast.BinOp) and isinstance(n.op,(ast.Add,ast.Sub)):
            add('drop rhs',lambda nn,t,k:repl(t,nn,nn.left))
        if isinstance(n,ast.Raise):
            add('raise->pass',lambda nn,t,k:delstmt(t,nn))
        if isinstance(n,ast.Return) and n.value is not None and isinstance(n.value,ast.Tuple) and len(n.value.elts)==2:
            add('swap returned',lambda nn,t,k:nn.value.elts.reverse())
        if isinstance(n,ast.Subscript) and isinstance(n.slice,ast.Slice):
            add('drop slice',lambda nn,t,k:repl(t,nn,nn.value))
    seen=set();o=[]
    for l,d,s in out:
        if s not in seen: seen.add(s);o.append((l,d,s))
    return o
def repl(t,old,new):
    for p in ast.walk(t):
        for f,v in ast.iter_fields(p):
            if v is old: setattr(p,f,new); return
            if isinstance(v,list):
                for i,x in enumerate(v):
                    if x is old: v[i]=new; return
def delstmt(t,old): repl(t,old,ast.Pass())
base=None
def runmut(f,i,line,desc,src,tmp):
    d=f'{tmp}/{os.getpid()}'; os.makedirs(d,exist_ok=True)
    dst=d+'/pytspl'
    shutil.copytree('/repo/pytspl',dst,ignore=shutil.ignore_patterns('data','__pycache__'))
    os.symlink('/repo/pytspl/data',dst+'/data')
    open(os.path.join(dst,f),'w').write(src)
    os.environ['PYTSPL_REPO']=d
    sys.path.insert(0,VER); sys.path.insert(0,d)
    sys.dont_write_bytecode=True
    os.chdir(VER)
    dn=open(os.devnull,'w')
    so=sys.stdout; sys.stdout=dn; sys.stderr=dn
    res='SURVIVED'; t0=time.time()
    try:
        from mon import common
        import warnings; warnings.simplefilter('ignore')
        import pytspl
        assert os.path.dirname(pytspl.__file__)==dst
        for c in CHK[f].split():
            try: mod=importlib.import_module('mon.checks.'+c.lower())
            except ModuleNotFoundError as e:
                if 'mon.checks' in str(e): continue
                raise
            if hasattr(mod,'prepare'): mod.prepare('quick')
            ev={}
            hit=None
            for idx in range(NC):
                m,v=common.run_case(mod,c,'quick',1,idx,limit=60)
                if v: hit=(c,idx,v[0],v[1]); break
                if time.time()-t0>400: break
            if hasattr(mod,'cleanup'): mod.cleanup()
            if hit: res=f'killed {hit}'; break
    except BaseException as e:
        res=f'killed import/prepare {type(e).__name__} {e}'
    shutil.rmtree(d,ignore_errors=True)
    sys.stdout=so
    return (f,i,line,desc,res,round(time.time()-t0,1))
def main():
    global base
    files=sys.argv[1:] or list(CHK)
    jobs=[]
    for f in files:
        s=open('/repo/pytspl/'+f).read(); base=ast.unparse(ast.parse(s))
        ms=mutants(s)
        random.Random(1).shuffle(ms)
        lim=int(os.environ.get('LIM','0'))
        if lim: ms=ms[:lim]
        print(f,len(ms),flush=True)
        jobs+= [(f,i,l,d,s) for i,(l,d,s) in enumerate(ms)]
    if os.environ.get('LIST'): return
    # preload
    import numpy,scipy.sparse.linalg,scipy.optimize,networkx,matplotlib.pyplot,pandas,torch,gpytorch,sklearn.model_selection,cvxpy,scipy.linalg
    torch.set_num_threads(1)
    tmp='/tmp/mut/work'; os.makedirs(tmp,exist_ok=True)
    NW=int(os.environ.get('NW','8'))
    out=open(os.environ.get('OUT','/tmp/mut/out.txt'),'a')
    run={}; jobs=jobs[::-1]
    surv=os.environ.get('SURV','/tmp/mut/surv'); os.makedirs(surv,exist_ok=True)
    k=0
    while jobs or run:
        while jobs and len(run)<NW:
            j=jobs.pop(); r,w=os.pipe()
            pid=os.fork()
            if pid==0:
                os.close(r)
                try: x=runmut(*j,tmp)
                except BaseException as e: x=(j[0],j[1],j[2],j[3],'killed harness '+repr(e),0)
                os.write(w,json.dumps(x,default=str).encode()[:60000]); os._exit(0)
            os.close(w); run[pid]=(j,r,time.time())
        time.sleep(.02)
        for pid in list(run):
            j,r,t=run[pid]
            p,_=os.waitpid(pid,os.WNOHANG)
            if not p and time.time()-t>600: os.kill(pid,9); os.waitpid(pid,0); p=pid
            if p:
                b=os.read(r,65000); os.close(r); del run[pid]
                x=json.loads(b) if b else [*j[:4],'killed died/timeout',0]
                k+=1
                if x[4]=='SURVIVED':
                    open(f'{surv}/{j[0].replace("/","_")}.{j[1]}.py','w').write(j[4])
                    print(x[0],x[1],'L',x[2],x[3],x[4],x[5],file=out,flush=True)
                elif os.environ.get('V') or 'prepare' in x[4] and 'import/prepare' in x[4] and os.environ.get('V2'): print(*x,file=out,flush=True)
    print('finished',k,'mutants',files,file=out,flush=True)
main()
