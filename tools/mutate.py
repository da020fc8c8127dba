"""Automatic mutants of /repo/cocotbext/axi, run against the quick checks.
A development tool, not a check: shows which small changes no check notices.
usage: mutate.py OUT file.py [start step]    (MW workers, MJ processes each, MINI seconds per job, MTMP scratch directory)"""
import ast, sys, os, subprocess, json, random, shutil
from concurrent.futures import ThreadPoolExecutor
import threading, queue
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO='/repo'
TMP=os.environ.get('MTMP','/tmp/mut')
REL={
 'stream.py':['C02','C01','C03','C05','C15'],
 'axis.py':['C06','C07','C04','C05','C01','C03','C15'],
 'axi_channels.py':['C02','C08','C17','C10'],
 'axil_channels.py':['C02','C11','C19'],
 'axi_master.py':['C16','C14','C13','C08','C09','C10','C15','C24'],
 'axil_master.py':['C16','C14','C13','C11','C15','C24'],
 'apb.py':['C16','C14','C12','C13','C19','C15','C24','C20'],
 'axi_slave.py':['C18','C14','C17','C15'],
 'axil_slave.py':['C19','C14','C15'],
 'axi_ram.py':['C20','C18','C17','C15'],'axil_ram.py':['C20','C19','C15'],
 'address_space.py':['C22','C21','C23','C24'],
 'buddy_allocator.py':['C23'],'memory.py':['C24','C21','C20'],'sparse_memory.py':['C24','C21','C20'],
 'reset.py':['C15'],'utils.py':['C21','C20'],'constants.py':['C14','C08'],
}
def muts(src):
    tree=ast.parse(src); lines=src.split('\n')
    out=[]
    def seg(n): return ast.get_source_segment(src,n)
    def rep(n,new,desc): 
        s=off(n.lineno,n.col_offset); e=off(n.end_lineno,n.end_col_offset)
        out.append((s,e,new,n.lineno,desc))
    starts=[0]
    for l in lines: starts.append(starts[-1]+len(l)+1)
    def off(l,c): return starts[l-1]+len(lines[l-1].encode()[:c].decode())
    CMP={ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.Eq:'!=',ast.NotEq:'==',ast.Is:'is not',ast.IsNot:'is',ast.In:'not in',ast.NotIn:'in'}
    BIN={ast.Add:'-',ast.Sub:'+',ast.Mult:'+',ast.FloorDiv:'*',ast.Mod:'//',ast.LShift:'>>',ast.RShift:'<<',ast.BitAnd:'|',ast.BitOr:'&'}
    skip=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.Raise) or (isinstance(n,ast.Expr) and isinstance(n.value,ast.Call) and 'log.' in (seg(n) or '')) :
            for m in ast.walk(n): skip.add(id(m))
        if isinstance(n,(ast.FunctionDef,)) and n.name in('__repr__','__str__'):
            for m in ast.walk(n): skip.add(id(m))
    for n in ast.walk(tree):
        if id(n) in skip: continue
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            o=CMP.get(type(n.ops[0]))
            if o: rep(n,'%s %s %s'%(seg(n.left),o,seg(n.comparators[0])),'cmp')
        elif isinstance(n,ast.BinOp):
            o=BIN.get(type(n.op))
            if o and not isinstance(n.left,ast.Constant) and not(isinstance(n.left,ast.Constant) and isinstance(n.left.value,str)): rep(n,'(%s %s %s)'%(seg(n.left),o,seg(n.right)),'bin')
        elif isinstance(n,ast.BoolOp):
            j=' or ' if isinstance(n.op,ast.And) else ' and '
            rep(n,'('+j.join(seg(v) for v in n.values)+')','bool')
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
            rep(n,'(%s)'%seg(n.operand),'not')
        elif isinstance(n,ast.Constant) and isinstance(n.value,(int,)) and not isinstance(n.value,bool) and seg(n) and seg(n).isdigit():
            rep(n,str(n.value+1),'const')
        elif isinstance(n,ast.Constant) and isinstance(n.value,bool):
            rep(n,str(not n.value),'boolconst')
        elif isinstance(n,(ast.If,ast.While)) :
            if isinstance(n,ast.If): rep(n.test,'(False)','iff'); rep(n.test,'(True)','ift')
        elif isinstance(n,(ast.Expr,ast.Assign,ast.AugAssign,ast.Continue,ast.Break,ast.Return)):
            if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant): continue
            if isinstance(n,ast.Return) and n.value is not None: continue
            rep(n,'pass','del')
    out.sort()
    return out
lock=threading.Lock()
def main():
    outf=sys.argv[1]; fn=sys.argv[2]; st=int(sys.argv[3]) if len(sys.argv)>3 else 0; step=int(sys.argv[4]) if len(sys.argv)>4 else 1
    W=int(os.environ.get('MW','3')); J=os.environ.get('MJ','2')
    path='cocotbext/axi/'+fn
    src=open(REPO+'/'+path).read()
    ms=muts(src)
    random.Random(5).shuffle(ms)
    ms=ms[st::step]
    print(fn,len(ms),'mutants',flush=True)
    q=queue.Queue()
    for i,m in enumerate(ms): q.put((i,m))
    def worker(w):
        d=TMP+'/w%s%d'%(os.path.basename(outf),w)
        if os.path.exists(d): shutil.rmtree(d)
        os.makedirs(d+'/cocotbext')
        shutil.copytree(REPO+'/cocotbext/axi',d+'/cocotbext/axi')
        v=TMP+'/v%s%d'%(os.path.basename(outf),w)
        if os.path.exists(v): shutil.rmtree(v)
        os.makedirs(v)
        for x in('check','tools','mc','known_findings.jsonl'):
            s=HERE+'/'+x
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s,v+'/'+x)
        while True:
            try: i,(s,e,new,ln,desc)=q.get_nowait()
            except queue.Empty: break
            m=src[:s]+new+src[e:]
            try: ast.parse(m)
            except SyntaxError: continue
            open(d+'/'+path,'w').write(m)
            res='SURVIVED'
            for c in REL[fn]:
                try:
                    r=subprocess.run(['timeout','-k','5','600','./check',c,'quick'],cwd=v,env=dict(os.environ,VERIF_REPO=d,VERIF_JOBS=J,VERIF_NOCONF='1',MC_JOBCAP=os.environ.get('MINI','')),capture_output=True,text=True)
                except Exception as ex: res='ERR'; break
                if r.returncode==1: res='killed '+c; break
                if r.returncode!=0:
                    res='rc%d %s %s'%(r.returncode,c,r.stdout[-300:].replace('\n',' | ')); break
            with lock:
                with open(outf,'a') as f: f.write('%s:%d %s [%s] => [%s] :: %s\n'%(fn,ln,desc,src[s:e].replace('\n','\\n')[:90],new[:90].replace('\n','\\n'),res))
        shutil.rmtree(d); shutil.rmtree(v)
    ts=[threading.Thread(target=worker,args=(w,)) for w in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(fn,'done',flush=True)
main()
