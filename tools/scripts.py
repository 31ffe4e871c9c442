#!/usr/bin/env python3
"""Operation scripts for the harness: random histories of several profiles.

The generator keeps a mirror of what it expects only in order to choose interesting operations; it
judges nothing (the specification does)."""
import random, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen_groups import groups
GROUPS=groups()
DOM={1:1<<30,2:256,3:1,4:1<<30,5:1<<30,6:1<<23,7:65536}
for k in range(8,15): DOM[k]=1<<20
for k in range(15,25): DOM[k]=2048
for k in range(25,34): DOM[k]=1<<20
BYSET={}
for g in GROUPS:
    if len(set(g))==len(g): BYSET.setdefault(frozenset(g),[]).append(g)
DUPS=[g for g in GROUPS if len(set(g))!=len(g)]
VALID=[g for g in GROUPS if len(set(g))==len(g)]
def gs(g): return ','.join(map(str,g))

class Gen:
    def __init__(s, rng, kinds, maxpop=10, weights=None, regs=1, threads=0.0, wide=False):
        s.r=rng; s.kinds=list(kinds); s.maxpop=maxpop; s.out=[]; s.n=0; s.regs=regs; s.threads=threads
        s.live={}      # (reg,label) -> {kind: tok}
        s.dead=[]      # labels
        s.labelreg={}
        s.valid=[g for g in VALID if set(g)<=set(s.kinds)]
        s.dups=[g for g in DUPS if set(g)<=set(s.kinds)] or DUPS[:3]
        s.small=[g for g in s.valid if len(g)<=3]
        s.wide=wide
        s.w=dict(create=10,destroy=5,remove=4,add=9,rmc=7,has=2,get=3,getm=3,hasg=2,getg=4,getgm=4,
                 perm=2,ents=1,iter=8,dup=2,badh=3,bomb=0,mv=0,par=0,other=0,reread=0,part=0,look=0)
        if weights: s.w.update(weights)
        s.tokc=0
    def emit(s,*a,thr=True):
        l=' '.join(map(str,a))
        if thr and s.r.random()<s.threads: l='@ '+l
        s.out.append(l)
    def tok(s,k):
        s.tokc+=1
        d=DOM[k]
        if d<=2048: return s.r.randrange(d)
        return s.tokc if s.r.random()<0.8 else s.r.randrange(d)
    def toks(s,g): return [s.tok(k) for k in g]
    def begin(s):
        s.out.append('reset'); s.live={}; s.dead=[]; s.labelreg={}
        for r in range(s.regs): s.emit('new',r)
    def end(s,bomb=0):
        order=list(range(s.regs)); s.r.shuffle(order)
        for r in order:
            l=s.pick(r)
            if l and s.r.random()<bomb:
                k=s.r.choice(list(s.live[(r,l)])); s.emit('bombdrop',r,k,s.live[(r,l)][k])
            else: s.emit('drop',r)
    def pick(s,r):
        ls=[l for (q,l) in s.live if q==r]
        return s.r.choice(ls) if ls else None
    def anyh(s,r,bad=0.12):
        """a handle expression and the label it resolves to (or None)"""
        x=s.r.random()
        if x<bad:
            y=s.r.random()
            if y<0.45 and s.dead: return s.r.choice(s.dead),None
            if y<0.55: return 'inv',None
            if y<0.7:
                l=s.pick(r)
                if l: return '%s+%d'%(l,s.r.choice([1,2,128,255])),None
            if y<0.8: return '#%d.%d'%(s.r.choice([0,1,5,127,128,1000,16777214,16777215]),s.r.choice([0,1,255])),None
            if s.regs>1:
                o=s.pick((r+1)%s.regs)
                if o: return o,o if (r,o) in s.live else None
        l=s.pick(r)
        return (l,l) if l else ('inv',None)
    def group_for(s,r,l,exact=False):
        """a group, mostly one that fits the entity"""
        if l and s.r.random()<0.75:
            c=set(s.live[(r,l)])
            if exact:
                o=BYSET.get(frozenset(c))
                if o: return s.r.choice(o)
            o=[g for g in s.valid if set(g)<=c]
            if o:
                o=s.r.sample(o,min(4,len(o)))
                return max(o,key=len) if s.r.random()<0.5 else o[0]
        return s.r.choice(s.valid)
    def create(s,r,g=None):
        g=g or s.r.choice(s.valid if s.wide and s.r.random()<0.5 else s.small)
        t=s.toks(g); s.n+=1; l='e%d'%s.n
        s.emit('create',r,l,gs(g),gs(t))
        if len(set(g))==len(g):
            s.live[(r,l)]=dict(zip(g,t)); s.labelreg[l]=r
        return l
    def kill(s,r,l):
        s.live.pop((r,l),None); s.dead.append(l)
    def pred(s):
        x=s.r.randrange(8); k=s.r.choice(s.kinds)
        return ['all','nothing','has:%d'%k,'lacks:%d'%k,'leneq:%d'%s.r.randrange(1,5),'lenle:%d'%s.r.randrange(1,4),
                'contains:%s'%gs(s.r.choice(s.valid)),'excludes:%s'%gs(s.r.choice(s.small))][x]
    def iterop(s,r,g=None,modes=('match','filt','exact')):
        m=s.r.choice(modes)
        if g is None:
            l=s.pick(r)
            if l and s.r.random()<0.85: g=s.group_for(r,l,exact=(m=='exact'))
            else: g=s.r.choice(s.valid)
        p=s.pred() if m=='filt' else 'none'
        s.emit('iter',r,m,s.r.randrange(2),1 if s.r.random()<0.4 else 0,gs(g),p)
        # the mirror does not follow the values written by mutable iteration
    def partop(s,r):
        '''an iteration that is given up on the way, or that a predicate ends by panicking'''
        ways=[g for g in s.valid if g[0]==2 or (len(g)==1 and g[0]<16)]
        if not ways: return
        l=s.pick(r); c=set(s.live[(r,l)]) if l else set()
        fit=[g for g in ways if set(g)<=c]
        g=s.r.choice(fit) if fit and s.r.random()<0.85 else s.r.choice(ways+[g for g in s.dups if g[0]==2])
        m=s.r.choice(['match','filt','filt'])
        p='none' if m=='match' else 'bang:%d'%s.r.choice([1,1,2,2,3,4,6]) if s.r.random()<0.4 else s.pred()
        s.emit('part',r,m,s.r.randrange(2),gs(g),p,s.r.choice([0,1,1,1,2,2,3,4,8,200,200]))
    def step(s):
        r=s.r.randrange(s.regs)
        ops=list(s.w); op=s.r.choices(ops,[s.w[o] for o in ops])[0]
        pop=sum(1 for (q,_) in s.live if q==r)
        if op in('create',) and pop>=s.maxpop: op='destroy'
        if pop==0 and op not in('create','dup','iter','ents','badh'): op='create'
        s.do(op,r)
    def do(s,op,r):
        if op=='create': s.create(r)
        elif op in('destroy','bomb'):
            h,l=s.anyh(r)
            if op=='bomb' and l:
                k=s.r.choice(list(s.live[(r,l)])); s.emit('bomb',r,h,k,s.live[(r,l)][k])
            else: s.emit('destroy',r,h)
            if l: s.kill(r,l)
        elif op=='remove':
            h,l=s.anyh(r); g=s.group_for(r,l,exact=True)
            s.emit('remove',r,h,gs(g))
            if l and set(g)==set(s.live[(r,l)]): s.kill(r,l)
        elif op=='add':
            h,l=s.anyh(r); k=s.r.choice(s.kinds); t=s.tok(k)
            s.emit('add',r,h,k,t)
            if l and k not in s.live[(r,l)] and len(s.live[(r,l)])<14: s.live[(r,l)][k]=t
        elif op=='rmc':
            h,l=s.anyh(r)
            k=s.r.choice(list(s.live[(r,l)])) if l and s.r.random()<0.8 else s.r.choice(s.kinds)
            s.emit('rmc',r,h,k)
            if l and k in s.live[(r,l)] and len(s.live[(r,l)])>1: del s.live[(r,l)][k]
        elif op in('has','get','getm'):
            h,l=s.anyh(r)
            k=s.r.choice(list(s.live[(r,l)])) if l and s.r.random()<0.7 else s.r.choice(s.kinds)
            if op=='getm':
                t=s.tok(k); s.emit(op,r,h,k,t)
                if l and k in s.live[(r,l)]: s.live[(r,l)][k]=t
            else: s.emit(op,r,h,k)
        elif op in('hasg','getg','getgm'):
            h,l=s.anyh(r); g=s.group_for(r,l)
            if op=='getgm':
                t=s.toks(g); s.emit(op,r,h,gs(g),gs(t))
                if l and set(g)<=set(s.live[(r,l)]): s.live[(r,l)].update(zip(g,t))
            else: s.emit(op,r,h,gs(g))
        elif op=='perm':
            h,l=s.anyh(r); g=s.group_for(r,l)
            o=BYSET[frozenset(g)]
            if len(o)<2:
                c=set(s.live[(r,l)]) if l else set(s.kinds)
                cand=[q for q in s.valid if set(q)<=c and len(BYSET[frozenset(q)])>1]
                if cand: o=BYSET[frozenset(s.r.choice(cand))]
            s.emit('perm',r,h,';'.join(gs(x) for x in o[:6]))
        elif op=='ents': s.emit('ents',r)
        elif op=='iter': s.iterop(r)
        elif op=='dup':
            g=s.r.choice(s.dups); h,l=s.anyh(r,0.05); x=s.r.randrange(8)
            if x==0: s.n+=1; s.emit('create',r,'x%d'%s.n,gs(g),gs(s.toks(g)))
            elif x==1: s.emit('remove',r,h,gs(g))
            elif x==2: s.emit('hasg',r,h,gs(g))
            elif x==3: s.emit('getg',r,h,gs(g))
            elif x==4: s.emit('getgm',r,h,gs(g),gs(s.toks(g)))
            else: s.iterop(r,g=g)
        elif op=='badh':
            h,l=s.anyh(r,1.0)
            if l is None:
                x=s.r.randrange(9); k=s.r.choice(s.kinds); g=s.r.choice(s.small)
                [lambda:s.emit('destroy',r,h),lambda:s.emit('remove',r,h,gs(g)),lambda:s.emit('add',r,h,k,s.tok(k)),
                 lambda:s.emit('rmc',r,h,k),lambda:s.emit('get',r,h,k),lambda:s.emit('getm',r,h,k,s.tok(k)),
                 lambda:s.emit('getg',r,h,gs(g)),lambda:s.emit('has',r,h,k),lambda:s.emit('hasg',r,h,gs(g))][x]()
        elif op=='mv': s.emit('mv',r)
        elif op=='par': s.emit('par',r,s.r.choice([2,3,4,6]),';'.join(gs(s.r.choice(s.small)) for _ in range(s.r.choice([1,2,3]))))
        elif op=='part': s.partop(r)
        elif op=='look': s.iterop(r); s.emit('snap',r)
        elif op=='other': s.emit('snap',s.r.randrange(s.regs))
        elif op=='reread':
            for _ in range(3): s.do(s.r.choice(['get','getg','getgm','getm','iter']),r)

def history(g,n,bomb=0):
    g.begin()
    for _ in range(n): g.step()
    g.end(bomb)

MAIN=[1,2,3,5,6]
def p_mix(r,n):
    out=[]
    while n>0:
        k=r.choice([40,80,150]); ks=MAIN if r.random()<0.6 else MAIN+r.sample(range(4,25),4)
        g=Gen(r,ks,maxpop=r.choice([3,6,12])); history(g,k); out+=g.out; n-=k
    return out
def p_life(r,n):
    """creation and destruction heavy"""
    out=[]
    while n>0:
        g=Gen(r,MAIN if r.random()<0.7 else [1,2,4,7,10,15],maxpop=r.choice([2,5,9]),weights=dict(create=14,destroy=9,remove=8,badh=8,iter=3,ents=3,dup=1)); history(g,100); out+=g.out; n-=100
    return out
def p_move(r,n):
    """component changes: entities wander between component sets"""
    out=[]
    while n>0:
        g=Gen(r,r.choice([MAIN,[1,2,3,4,5,6,7],[3,5,8,9,11,15,16,20]]),maxpop=r.choice([4,8]),weights=dict(create=5,destroy=2,remove=2,add=16,rmc=14,badh=2,iter=6)); history(g,120); out+=g.out; n-=120
    return out
def p_wide(r,n):
    """up to fourteen components and one more"""
    out=[]
    while n>0:
        g=Gen(r,range(1,25),maxpop=5,wide=True,weights=dict(create=3,destroy=1,remove=2,add=24,rmc=6,perm=6,dup=2,badh=1,getg=6,getgm=6,hasg=4)); history(g,110); out+=g.out; n-=110
        # a set of every size, both ways, by creation and one at a time
        g=Gen(r,range(1,25),maxpop=99,wide=True); g.begin()
        order=list(range(1,25)); r.shuffle(order)
        l=g.create(0,(order[0],)); m=g.create(0,(order[15],))
        for k in order[1:15]: g.emit('add',0,l,k,g.tok(k)); g.emit('add',0,m,k,g.tok(k))
        for gg in [x for x in VALID if len(x)==14]: g.create(0,gg); g.emit('iter',0,'exact',1,0,gs(gg),'none')
        for k in r.sample(order[:15],15): g.emit('rmc',0,l,k)
        big=[x for x in VALID if len(x) in(12,13,14)]; r.shuffle(big)
        for gg in big[:5]:
            q=g.create(0,gg); extra=[k for k in range(1,25) if k not in gg]; r.shuffle(extra)
            for k in extra[:3]: g.emit('add',0,q,k,g.tok(k))
            g.emit('getg',0,q,gs(gg)); g.emit('remove',0,q,gs(gg))
            for k in r.sample(list(gg),2): g.emit('rmc',0,q,k)
        g.end(); out+=g.out; n-=90
    return out
def p_iter(r,n):
    out=[]
    while n>0:
        g=Gen(r,r.choice([MAIN,[1,2,3,4,5,6,7,9],[2,3,15,16,17,18]]),maxpop=r.choice([8,16]),weights=dict(create=14,destroy=3,remove=2,add=10,rmc=6,iter=40,perm=0,badh=0,dup=3,has=0,get=0,getm=1,hasg=0,getg=0,getgm=1)); history(g,100); out+=g.out; n-=100
    return out
def p_part(r,n):
    '''iterations that end early, between ordinary calls'''
    out=[]
    while n>0:
        k=r.choice([1,1,2])
        g=Gen(r,r.choice([MAIN,[1,2,3,4,5,6,7,9],[2,3,15,1,5]]),maxpop=r.choice([6,14]),regs=k,weights=dict(create=14,destroy=4,remove=4,add=12,rmc=8,iter=6,look=8,part=34,bomb=r.choice([0,0,2]),perm=0,badh=0,dup=0,has=0,get=2,getm=2,hasg=0,getg=2,getgm=2)); history(g,110); out+=g.out; n-=110
    return out
def p_write(r,n):
    out=[]
    while n>0:
        g=Gen(r,r.choice([MAIN,[1,2,4,5,6,7]]),maxpop=r.choice([4,8]),weights=dict(create=8,destroy=2,remove=1,add=5,rmc=4,iter=14,perm=2,badh=1,dup=3,getm=14,getgm=20,get=6,getg=6,reread=4)); history(g,110); out+=g.out; n-=110
    return out
def p_dup(r,n):
    out=[]
    while n>0:
        g=Gen(r,MAIN if r.random()<0.7 else range(1,25),maxpop=6,weights=dict(dup=30,create=8,add=8)); history(g,110); out+=g.out; n-=110
    return out
def p_perm(r,n):
    out=[]
    while n>0:
        g=Gen(r,r.choice([MAIN,range(1,25)]),maxpop=6,wide=True,weights=dict(perm=25,remove=10,getg=6,getgm=8,dup=0,badh=1,create=14)); history(g,110)
        out+=g.out; n-=110
        # every order of a group, for every kind of call
        g=Gen(r,range(1,34),maxpop=99); g.begin()
        sets=[s for s in BYSET if len(BYSET[s])>1]; r.shuffle(sets)
        for st in sets[:7]:
            o=BYSET[st]
            ls=[g.create(0,x) for x in r.sample(o,min(3,len(o)))]
            for l in ls:
                g.emit('perm',0,l,';'.join(gs(x) for x in o[:6]))
                x=r.choice(o); g.emit('getgm',0,l,gs(x),gs(g.toks(x)))
            for m in('match','exact'):
                x=r.choice(o); g.emit('iter',0,m,1,r.randrange(2),gs(x),'none')
            g.emit('remove',0,ls[0],gs(r.choice(o)))
        g.end(); out+=g.out; n-=60
    return out
def p_bomb(r,n):
    out=[]
    while n>0:
        g=Gen(r,r.choice([[1,2,5],MAIN,[1,3,4,5,6]]),maxpop=r.choice([3,7]),weights=dict(bomb=8,create=14,destroy=4)); k=r.choice([12,30,90]); history(g,k,0.6); out+=g.out; n-=k
    return out
def p_multi(r,n):
    """several registries, several threads, in turns and at the same time"""
    out=[]
    while n>0:
        k=r.choice([2,2,3])
        g=Gen(r,r.choice([MAIN,[1,2,4,5,7]]),maxpop=5,regs=k,threads=r.choice([0,0.3,0.5]),weights=dict(par=4,mv=2,other=10,badh=5)); g.begin()
        for _ in range(5):
            for _ in range(12): g.step()
            g.out.append('fork'); th,g.threads=g.threads,0
            for _ in range(r.choice([8,20])): g.step()
            if r.random()<0.3:
                q=r.randrange(k); g.emit('drop',q); g.emit('new',q)
                for (x,l) in [x for x in g.live if x[0]==q]: g.kill(x,l)
                for _ in range(6): g.step()
            g.out.append('join'); g.threads=th
            for q in range(k): g.emit('snap',q)
        g.end(); out+=g.out; n-=130
    return out
def p_reuse(r,n):
    """the same few slots over and over, past the wrap of the version"""
    out=[]
    g=Gen(r,MAIN,maxpop=4); g.begin()
    pre=[g.create(0) for _ in range(r.randrange(0,3))]
    ages={}; i=0
    out_n=0
    keep=[g.create(0) for _ in range(2)]
    cyc=[]
    while out_n<n:
        l=g.create(0,(r.choice(MAIN),) if r.random()<0.8 else None); cyc.append(l); g.kill(0,l)
        for back in r.sample([1,2,3,127,128,129,254,255,256,257,258,511,512,513],3):
            if len(cyc)>back:
                h=cyc[-1-back]; x=r.randrange(6); k=r.choice(MAIN)
                if x<2: g.emit('get',0,h,k)
                elif x==2: g.emit('has',0,h,k)
                elif x==3: g.emit('getg',0,h,gs(r.choice(g.small)))
                elif x==4 and back not in(256,512): g.emit('destroy',0,h)
                elif x==5 and back not in(256,512): g.emit('add',0,h,k,g.tok(k))
        x=r.random()
        if x<0.9: g.emit('destroy',0,l)
        else: g.emit('remove',0,l,gs(list(g.live.get((0,l),{})) or (1,)) if False else gs(r.choice(g.small))); g.emit('destroy',0,l)
        if r.random()<0.05: g.emit('ents',0)
        if r.random()<0.03 and keep:
            k=keep.pop(); g.emit('destroy',0,k); keep.append(g.create(0))
        out_n+=3
    g.end(); return g.out
def p_aged(r,n):
    """ordinary life in slots that have been used before, around every turn of the version"""
    out=[]; age=0
    while n>0:
        ks=r.choice([[1,2],[1,2,3],[2,5],[1,6]])
        g=Gen(r,ks,maxpop=r.choice([4,5]),weights=dict(create=14,destroy=4,remove=9,add=8,rmc=7,has=1,get=2,getm=3,hasg=1,getg=3,getgm=3,perm=1,ents=1,iter=4,dup=0,badh=3))
        g.begin(); w=r.choice([3,4])
        age=126 if age>200 else 251+r.randrange(2)
        for _ in range(age-r.randrange(2)):
            ls=[g.create(0,(r.choice(ks),)) for _ in range(w)]
            for l in ls: g.emit('destroy',0,l); g.kill(0,l)
            n-=2*w
        for _ in range(9):
            gg=r.choice([x for x in g.small if len(x)<=2]); ls=[g.create(0,gg) for _ in range(w)]
            k=r.choice(ks)
            while ls:                      # leaves the set, mostly from before the last row
                l=ls.pop(0 if r.random()<0.7 else -1); x=r.randrange(6); c=g.live[(0,l)]
                if x<3: g.emit('remove',0,l,gs(r.choice(BYSET[frozenset(c)]))); g.kill(0,l)
                elif x==3: g.do('get',0); g.emit('destroy',0,l); g.kill(0,l)
                elif x==4 and k not in c: t=g.tok(k); g.emit('add',0,l,k,t); c[k]=t
                elif len(c)>1: q=r.choice(list(c)); g.emit('rmc',0,l,q); del c[q]
                else: g.emit('destroy',0,l); g.kill(0,l)
                n-=1
            for l in [l for (_,l) in list(g.live)][::-1 if r.random()<0.5 else 1]:
                g.emit('destroy',0,l); g.kill(0,l); n-=1
        for _ in range(60): g.step(); n-=1
        g.end(); out+=g.out
    return out
def p_grow(r,n):
    """populations crossing every growth of storage"""
    out=[]
    while n>0:
        ks=r.choice([[1,2],[1,2,3],[1,2,5],[4,7],[5,6],[1]])
        g=Gen(r,MAIN+[4,7],maxpop=10**9); g.begin(); g.out.append('snapauto 1 3')
        base=[x for x in BYSET[frozenset(ks)]] if frozenset(ks) in BYSET else [(ks[0],)]
        ls=[]; total=r.choice([129,131,257,300]) if 7 in ks else r.choice([130,257,260,520])
        def look():
            g.out.append('snapauto 1 100000'); g.emit('snap',0); g.out.append('snapauto 1 3')
        def mk(): ls.append(g.create(0,r.choice(base)))
        marks={128,129,256,257,512,513}
        while len(ls)<total:
            mk(); n-=0.2
            if len(ls) in marks: look()
        # take out of the middle, the ends, and put back
        for _ in range(25):
            i=r.choice([0,len(ls)-1,r.randrange(len(ls))]); l=ls.pop(i); x=r.randrange(4)
            if x==0: g.emit('destroy',0,l); g.kill(0,l)
            elif x==1: g.emit('remove',0,l,gs(r.choice(base))); g.kill(0,l)
            elif x==2:
                k=r.choice([q for q in MAIN if q not in base[0]]); t=g.tok(k); g.emit('add',0,l,k,t); g.live[(0,l)][k]=t; ls.append(l)
            else: g.emit('getm',0,l,base[0][0],g.tok(base[0][0])); ls.append(l)
            n-=1
        look()
        # a second set filled by moving entities into it one by one
        k=r.choice([q for q in MAIN if q not in base[0]])
        for l in ls[:140]:
            if k in g.live[(0,l)]: continue
            t=g.tok(k); g.emit('add',0,l,k,t); g.live[(0,l)][k]=t; n-=0.2
        look()
        for l in ls[:140:2]: g.emit('rmc',0,l,k); n-=0.2
        look()
        g.emit('iter',0,'match',1,1,gs(base[0]),'none'); g.emit('iter',0,'exact',1,0,gs(base[0]),'none')
        g.emit('ents',0); look()
        g.end(); out+=g.out; out.append('snapauto 1 100000'); n-=20
    return out
def p_coll(r,n):
    """component sets whose identifiers collide"""
    out=[]
    ks=[25,26,27,28,29,30,31,32,33]
    while n>0:
        # colliding sets with further components in common: 12, 16 and 24 sort behind all of 25..28
        g=Gen(r,ks+[1,12,16,24],maxpop=99); g.begin()
        ls=[]
        for _ in range(r.randrange(4,9)):
            l=g.create(0,r.choice([(25,26),(26,25),(27,28),(28,27)])); ls.append(l)
        common=r.sample([12,16,24],r.randrange(1,4))
        def ask():
            for k in r.sample(common,1)+[r.choice([25,27])]:
                for p in r.sample(['has:25','lacks:25','has:27','contains:25,26','excludes:27,28','leneq:3','has:26','all'],3):
                    g.emit('iter',0,'filt',r.randrange(2),r.randrange(2),k,p)
                g.emit('iter',0,'match',1,r.randrange(2),k,'none')
            for l in r.sample(ls,2):
                o=r.choice(['25,26','27,28','28,27','26,25'])
                g.emit(r.choice(['hasg','getg','remove']),0,l,o)
        for k in common:
            for l in ls: g.emit('add',0,l,k,g.tok(k))
            ask()
        for m in (0,1):
            for o in ('25,26','28,27'): g.emit('iter',0,'exact',1,m,o,'none')
        for k in common:
            for l in ls[::2]: g.emit('rmc',0,l,k)
            ask()
        g.end(); out+=g.out; n-=60
        g=Gen(r,ks+[1],maxpop=8,weights=dict(create=16,add=14,rmc=12,remove=6,iter=16,dup=0)); history(g,110); out+=g.out; n-=110
    return out
def p_oom(r,n):
    """calls whose requests for memory are refused, each in a copy of the process"""
    out=[]
    while n>0:
        # three sets that differ by one component each, of which some hold as many rows as they have room for
        base=r.choice([x for x in VALID if 1<=len(x)<=4 and len(set(x)|{5,1,7,9})<=8])
        more=r.choice([q for q in MAIN+[4,7,8,10] if q not in base])
        up=tuple(sorted(base+(more,)))
        g=Gen(r,range(1,34),maxpop=10**9,regs=0); g.begin(); g.out.append('snapauto 0')
        g.emit('new',1); g.emit('new',2)
        def mk(q,x=None):
            x=x or r.choice([base]+[y for y in VALID if set(y)==set(base)]); g.n+=1; l='e%d'%g.n
            g.emit('create',q,l,gs(x),gs(g.toks(x))); return l
        others=[mk(2,r.choice([base,g.r.choice(g.small)])) for _ in range(r.randrange(1,6))]
        full=r.choice([0,128,128,256]); ups=r.choice([0,0,128,128,256]); few=full or r.choice([3,20])
        if up in VALID: us=[mk(1,up) for _ in range(ups)]
        else:
            us=[]
            for _ in range(ups): us.append(mk(1)); g.emit('add',1,us[-1],more,g.tok(more))
        ls=[mk(1) for _ in range(few)]
        # the calls that need memory now
        needy=['addup'] if ls else []
        if full and us: needy+=['rmc','rmc']
        if full: needy+=['base','base']
        if up in VALID: needy+=['up']
        needy+=['new','addnew']
        n-=(len(ls)+len(us))//20
        g.emit('snap',1)
        for _ in range(24):
            g.out.append('branch')
            x=r.choice(needy); k=r.randrange(1,len(base)+4)
            if x in ('base','up','new'):
                o=base if x=='base' else up if x=='up' else r.choice(g.small); g.n+=1
                g.emit('oom',1,k,'create',1,'e%d'%g.n,gs(o),gs(g.toks(o)))
            elif x=='addup': g.emit('oom',1,k,'add',1,r.choice(ls),more,g.tok(more))
            elif x=='rmc': g.emit('oom',1,k,'rmc',1,r.choice(us),more)
            else:
                q=r.choice([z for z in MAIN if z not in base]); g.emit('oom',1,k,'add',1,r.choice(ls or ['inv']),q,g.tok(q))
            def other():
                g.emit('snap',2)
                if r.random()<0.5: mk(2)
                if r.random()<0.5: g.emit('destroy',2,r.choice(others))
                if r.random()<0.5: g.emit('iter',2,'match',1,0,gs(base),'none')
            a=r.random()
            if a<0.5: other()
            g.emit('drop',1)
            if r.random()<0.4:
                g.emit('new',1); l=mk(1); g.emit('snap',1); g.emit('destroy',1,l); g.emit('drop',1)
            if a>0.4: other()
            g.emit('drop',2)
            g.out.append('endbranch'); n-=2
        g.emit('snap',1); g.emit('snap',2)
        g.emit('drop',2); g.emit('drop',1); g.out.append('snapauto 1 100000'); out+=g.out
    return out
def p_sets(r,n):
    """hundreds of component sets in one registry"""
    g=Gen(r,range(1,25),maxpop=6,weights=dict(create=3,destroy=1,remove=1,add=30,rmc=22,perm=0,dup=1,badh=1,iter=3,get=2,getm=2,getg=2,getgm=2))
    g.begin()
    for _ in range(n): g.step()
    g.end(); return g.out
PROFILES={k[2:]:v for k,v in list(globals().items()) if k.startswith('p_')}
def script(profile,seed,n):
    return '\n'.join(PROFILES[profile](random.Random('%s/%s'%(profile,seed)),n))+'\n'
if __name__=='__main__':
    sys.stdout.write(script(sys.argv[1],sys.argv[2],int(sys.argv[3])))
