import sys
from driver import *
import importlib
def show(st):
    out=[]
    for f in st.frames:
        out.append('  frame %s b%d i%d %r'%(f.fn.name,f.bi,f.ii,{k:st.nv(v) if not isinstance(v,list) else v for k,v in f.env.items()}))
    for o,x in st.heap.items():
        out.append('  %s %r %r'%(o,x.head(),x.parts()))
    out.append('  seqs %r'%(st.seqs,))
    out.append('  facts %r dst %r ghost %r terms %r flags %r'%(st.facts,st.dst,st.ghost,st.terms,st.flags))
    out.append('  num %r | %r'%(st.num.eqs,[Lin(k,t) for t,k in st.num.ineqs.items()]))
    return '\n'.join(out)
if __name__=='__main__':
    prog=program()
    mod=importlib.import_module(sys.argv[1])
    import interp
    oh=interp.Analyzer.at_head
    def ah(self,st):
        r=oh(self,st)
        print('HEAD',r); print(show(st))
        return r
    interp.Analyzer.at_head=ah
    orp=interp.Analyzer.report
    def rp(self,st,rule,msg,tags=()):
        print('REPORT',rule,msg); print(show(st)); orp(self,st,rule,msg,tags)
    interp.Analyzer.report=rp
    for t in mod.tasks(prog):
        if t['name']==sys.argv[2]:
            run_task(prog,t,timeout=20)
