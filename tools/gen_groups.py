#!/usr/bin/env python3
"""Writes harness/src/groups.rs: the component groups (tuple types) the harness can use."""
import itertools, random, os
NAMES={1:'A',2:'B',3:'Z',4:'L',5:'H',6:'P',7:'X'}
for k in range(8,34): NAMES[k]='N%d'%k
NK=33
def groups():
    r=random.Random(20240607); out=[]
    out+= [(k,) for k in range(1,NK+1)]
    main=[1,2,3,5,6]
    out+= [p for p in itertools.product(main,repeat=2)]
    out+= [p for p in itertools.permutations([1,2,3,5],3)]
    out+= [(1,1,2),(1,2,1),(2,1,1),(3,3,3),(5,5,6),(6,5,5),(3,6,3)]
    out+= [(4,7),(7,4),(1,4),(4,1),(2,7),(7,2),(4,3),(3,4),(4,5,7),(7,5,4),(5,4,7)]
    # sets with equal hashes, with hash 0, and with the hash reserved for the invalid id
    out+= [(25,26),(26,25),(27,28),(28,27),(25,27),(26,28),(29,30),(30,29),(31,32,33),(33,31,32),(25,26,1),(27,28,1)]
    allk=list(range(1,25))
    for n in range(4,15):
        base=r.sample(allk,n)
        for _ in range(2):
            p=base[:]; r.shuffle(p); out.append(tuple(p))
        p=r.sample(allk,n); out.append(tuple(p))
        out.append(tuple(sorted(p)))
    # groups repeating a type
    for n in (4,7,14):
        p=r.sample(allk,n-1); i=r.randrange(n-1); p.insert(r.randrange(n),p[i]); out.append(tuple(p))
    out.append((6,)+tuple(r.sample([k for k in allk if k!=6],12))+(6,))
    out.append((2,2,2,2))
    seen=[]
    for g in out:
        if g not in seen: seen.append(g)
    return seen
def small():
    return [(k,) for k in range(1,NK+1)]+[(1,2),(2,1),(2,3),(3,2),(3,15),(15,16),(16,15),(15,3,16),(1,2,3),(6,8),(5,2)]
def write(g,fn):
    L=['// Generated by tools/gen_groups.py.']
    for x in g:
        if len(x)==1: L.append('grp1!(%s);'%NAMES[x[0]])
        else: L.append('grpn!(%s);'%', '.join('%s %d'%(NAMES[k],i) for i,k in enumerate(x)))
    L.append('pub fn visit<V: Visitor>(v: &mut V) {')
    for x in g:
        L.append('    v.visit::<%s>();'%(NAMES[x[0]] if len(x)==1 else '(%s)'%', '.join(NAMES[k] for k in x)))
    L.append('}')
    L.append('pub trait Visitor { fn visit<G: Grp>(&mut self); }')
    L.append('#[macro_export] macro_rules! each_kind { ($m:ident) => { $m!(%s) } }'%', '.join(NAMES[k] for k in range(1,NK+1)))
    p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','src',fn)
    open(p,'w').write('\n'.join(L)+'\n')
    print(len(g))
if __name__=='__main__':
    write(groups(),'groups.rs'); write(small(),'groups_bulk.rs')
