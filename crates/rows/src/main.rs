//! The storage of one component set (Archetype), used directly.
#[macro_use]
#[path = "../../../harness/src/grp.rs"]
mod grp;
#[path = "../../../harness/src/alloc.rs"]
mod alloc;
#[path = "../../common.rs"]
mod common;
#[path = "../../../harness/src/kinds.rs"]
mod kinds;
use crate::alloc::*;
use crate::grp::*;
use crate::kinds::*;
use common::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::*;
use std::collections::HashMap;
use std::sync::atomic::Ordering::SeqCst;

#[global_allocator]
static ALLOC: Checking = Checking;

type A_ = Archetype;
/// What can be done with a group of components.
struct GV {
    desc: fn() -> &'static ArchetypeDescriptor,
    push: unsafe fn(&mut A_, Entity, &[u32]) -> u32,
    over: unsafe fn(&mut A_, u32, Entity, &[u32]) -> Vec<i64>,
    remove: unsafe fn(&mut A_, u32) -> (Vec<i64>, bool),
    get: unsafe fn(&A_, u32) -> Vec<i64>,
    getm: unsafe fn(&mut A_, u32, Option<&[u32]>) -> Vec<i64>,
    /// all columns, in every way that is allowed (the second argument: the group is the whole set)
    slices: unsafe fn(&mut A_, bool) -> (Vec<Vec<i64>>, bool),
    bump: unsafe fn(&mut A_, bool) -> Vec<Vec<i64>>,
}
fn lib<T>(f: impl FnOnce() -> T) -> T {
    IN_API.store(true);
    let r = f();
    IN_API.store(false);
    r
}
fn gv<G: Grp>() -> GV {
    GV {
        desc: || G::DESCRIPTOR_REF.archetype(),
        push: |a, h, t| unsafe {
            let v = G::mk(t);
            lib(|| a.push_entity_unchecked(h, v))
        },
        over: |a, i, h, t| unsafe {
            let o = lib(|| a.read_components_exact_unchecked::<G>(i));
            let r = o.toks();
            drop(o);
            let v = G::mk(t);
            lib(|| a.write_entity_unchecked(i, h, v));
            r
        },
        remove: |a, i| unsafe {
            let (v, f) = lib(|| a.swap_remove_unchecked::<G>(i));
            (v.toks(), f)
        },
        get: |a, i| unsafe { G::refs(lib(|| a.get_fuzzy_components_unchecked::<G>(i))) },
        getm: |a, i, n| unsafe { G::muts(lib(|| a.get_fuzzy_components_unchecked_mut::<G>(i)), n, &mut vec![]) },
        slices: |a, exact| unsafe {
            let x = G::slices(lib(|| a.get_fuzzy_slices_unchecked::<G>()));
            let mut same = x == G::slices_mut(lib(|| a.get_fuzzy_slices_unchecked_mut::<G>()), false, &mut vec![]);
            let ents = a.entities().to_vec();
            {
                let (e, y) = lib(|| a.get_entity_fuzzy_slices_unchecked::<G>());
                same &= e == ents && x == G::slices(y);
            }
            {
                let (e, y) = lib(|| a.get_entity_fuzzy_slices_unchecked_mut::<G>());
                same &= e == ents && x == G::slices_mut(y, false, &mut vec![]);
            }
            if exact {
                same &= x == G::slices(lib(|| a.get_slices_unchecked_exact::<G>()));
                same &= x == G::slices_mut(lib(|| a.get_slices_unchecked_exact_mut::<G>()), false, &mut vec![]);
            }
            (x, same)
        },
        bump: |a, exact| unsafe {
            if exact {
                G::slices_mut(lib(|| a.get_slices_unchecked_exact_mut::<G>()), true, &mut vec![])
            } else {
                G::slices_mut(lib(|| a.get_entity_fuzzy_slices_unchecked_mut::<G>()).1, true, &mut vec![])
            }
        },
    }
}
trait DescRef: Grp {
    const DESCRIPTOR_REF: &'static shard_ecs::component_group_descriptor::ComponentGroupDescriptor;
}
impl<G: Grp> DescRef for G {
    const DESCRIPTOR_REF: &'static shard_ecs::component_group_descriptor::ComponentGroupDescriptor = &G::DESCRIPTOR;
}
/// What can be done with one component.
struct KV {
    has: fn(&A_) -> bool,
    get: unsafe fn(&A_, u32) -> i64,
    getm: unsafe fn(&mut A_, u32) -> i64,
    /// Takes the value out.
    take: unsafe fn(&mut A_, u32) -> i64,
    write: unsafe fn(&mut A_, u32, u32),
}
fn kv<C: K>() -> KV {
    KV {
        has: |a| a.descriptor().has_component::<C>(),
        get: |a, i| unsafe { rd(lib(|| a.get_component_unchecked::<C>(i))) },
        getm: |a, i| unsafe { rd(lib(|| a.get_component_unchecked_mut::<C>(i))) },
        take: |a, i| unsafe {
            let v = lib(|| a.read_component_unchecked::<C>(i));
            v.tok()
        },
        write: |a, i, t| unsafe {
            let v = C::mk(t);
            lib(|| a.write_single_component_unchecked::<C>(i, v))
        },
    }
}
struct Reg(HashMap<Vec<u32>, GV>);
impl Visitor for Reg {
    fn visit<G: Grp>(&mut self) {
        self.0.insert(G::KINDS.to_vec(), gv::<G>());
    }
}

struct Slot {
    a: A_,
    kinds: Vec<u32>, // sorted
}
fn snap(s: &Slot, r: usize, ks: &HashMap<u32, KV>, full: bool) -> String {
    let a = &s.a;
    let mut set: Vec<u32> = ks.keys().copied().filter(|k| (ks[k].has)(a)).collect();
    set.sort();
    let mut f = format!(
        "{{\"r\":{r},\"set\":{},\"ks\":{},\"len\":{},\"cap\":{},\"full\":{},\"full_seen\":{}",
        js(&set),
        js(&s.kinds),
        a.len(),
        a.capacity(),
        a.is_full() as u8,
        full as u8
    );
    if full {
        let e: Vec<u32> = a.entities().iter().map(|e| e.raw()).collect();
        let rows: Vec<String> = (0..a.len())
            .map(|i| js(&s.kinds.iter().map(|k| unsafe { (ks[k].get)(a, i) }).collect::<Vec<_>>()))
            .collect();
        f += &format!(",\"ents\":{},\"rows\":[{}]", js(&e), rows.join(","));
    }
    f + "}"
}

fn main() {
    let mut groups = Reg(HashMap::new());
    visit(&mut groups);
    let groups = groups.0;
    let mut ks: HashMap<u32, KV> = HashMap::new();
    macro_rules! each { ($($t:ident),*) => { $( ks.insert(<$t as K>::K, kv::<$t>()); )* } }
    each_kind!(each);
    let mut regs: HashMap<usize, Slot> = HashMap::new();
    let mut light = false;
    let mut doms = vec![0u32; ks.len()];
    let mut dropping = vec![];
    macro_rules! doms { ($($t:ident),*) => { $(
        doms[<$t as K>::K as usize - 1] = <$t as K>::DOM;
        if <$t as K>::DROPS { dropping.push(<$t as K>::K) }
    )* } }
    each_kind!(doms);
    run(&format!(",\"doms\":{},\"dropping\":{}", js(&doms), js(&dropping)), |w| {
        let at = |i: usize| -> u32 { num(w.get(i).unwrap_or_else(|| bad("too few words"))) };
        let toks = |i: usize| list(w.get(i).unwrap_or_else(|| bad("too few words")));
        let g = |i: usize| groups.get(&toks(i)).unwrap_or_else(|| bad(w[i]));
        if w[0] == "reset" {
            regs.clear();
            DROPLOG.lock().unwrap_or_else(|e| e.into_inner()).clear();
            take_faults();
            REFFAULTS.lock().unwrap_or_else(|e| e.into_inner()).clear();
            light = w.len() > 1;
            return String::new();
        }
        let r = at(1) as usize;
        CUR.store(r);
        let mut f = format!(",\"r\":{r}");
        let mut touched = vec![r];
        if w[0] == "anew" {
            // anew r group cap|d
            let d = (g(2).desc)();
            let mut kinds = toks(2);
            kinds.sort();
            if regs.contains_key(&r) {
                bad("register in use");
            }
            let a = match w[3] {
                "d" => lib(|| Archetype::new(d)),
                c => lib(|| Archetype::with_capacity(d, num(c))),
            };
            f += &format!(",\"want\":{}", if w[3] == "d" { -1 } else { at(3) as i64 });
            regs.insert(r, Slot { a, kinds });
        } else if w[0] == "adrop" {
            let s = regs.remove(&r).unwrap_or_else(|| bad("no register"));
            lib(|| drop(s.a));
            touched.clear();
        } else {
            let other = if w[0] == "move" { Some(at(2) as usize) } else { None };
            let mut dst = other.map(|o| regs.remove(&o).unwrap_or_else(|| bad("no register")));
            let s = regs.get_mut(&r).unwrap_or_else(|| bad("no register"));
            let kinds = s.kinds.clone();
            let a = &mut s.a;
            // A row the storage does not have cannot be asked for.
            let rows: Vec<u32> = match w[0] {
                "over" | "srem" | "get" | "getm" | "gets" | "sing" | "move" => vec![at(3)],
                "sdrop" | "tolast" => vec![at(2)],
                "swap" => vec![at(2), at(3)],
                _ => vec![],
            };
            if rows.iter().any(|i| *i >= a.len()) {
                f += ",\"norow\":1";
            } else {
                f += ",\"norow\":0";
                unsafe {
                    match w[0] {
                        // push r group handle tokens
                        "push" => {
                            let i = (g(2).push)(a, Entity::from_raw(at(3)), &toks(4));
                            f += &format!(",\"g\":{},\"h\":{},\"t\":{},\"row\":{}", js(&toks(2)), at(3), js(&toks(4)), i);
                        }
                        "pushu" => {
                            let i = lib(|| a.push_uninitialized_entity());
                            f += &format!(",\"g\":{},\"h\":{},\"t\":{},\"row\":{}", js(&toks(2)), at(3), js(&toks(4)), i);
                            if i < a.len() {
                                lib(|| a.entities_mut())[i as usize] = Entity::from_raw(at(3));
                                for (k, t) in toks(2).iter().zip(toks(4)) {
                                    (ks[k].write)(a, i, t);
                                }
                            }
                        }
                        // over r group row handle tokens
                        "over" => {
                            let o = (g(2).over)(a, at(3), Entity::from_raw(at(4)), &toks(5));
                            f += &format!(",\"g\":{},\"i\":{},\"h\":{},\"t\":{},\"old\":{}", js(&toks(2)), at(3), at(4), js(&toks(5)), js(&o));
                        }
                        // sing r kind row token
                        "sing" => {
                            let k = &ks[&at(2)];
                            let o = (k.take)(a, at(3));
                            (k.write)(a, at(3), at(4));
                            f += &format!(",\"k\":{},\"i\":{},\"t\":{},\"old\":{}", at(2), at(3), at(4), o);
                        }
                        "sdrop" => f += &format!(",\"i\":{},\"flag\":{}", at(2), lib(|| a.swap_drop_unchecked(at(2))) as u8),
                        "srem" => {
                            let (o, b) = (g(2).remove)(a, at(3));
                            f += &format!(",\"g\":{},\"i\":{},\"old\":{},\"flag\":{}", js(&toks(2)), at(3), js(&o), b as u8);
                        }
                        "tolast" => f += &format!(",\"i\":{},\"flag\":{}", at(2), lib(|| a.swap_to_last_unchecked(at(2))) as u8),
                        "swap" => {
                            lib(|| a.swap_entities(at(2), at(3)));
                            f += &format!(",\"i\":{},\"j\":{}", at(2), at(3));
                        }
                        "get" => f += &format!(",\"g\":{},\"i\":{},\"got\":{}", js(&toks(2)), at(3), js(&(g(2).get)(a, at(3)))),
                        "getm" => {
                            let n = toks(4);
                            let o = (g(2).getm)(a, at(3), if n.is_empty() { None } else { Some(&n) });
                            f += &format!(",\"g\":{},\"i\":{},\"t\":{},\"got\":{}", js(&toks(2)), at(3), js(&n), js(&o));
                        }
                        "gets" => {
                            let k = &ks[&at(2)];
                            f += &format!(",\"k\":{},\"i\":{},\"got\":[{},{}]", at(2), at(3), (k.get)(a, at(3)), (k.getm)(a, at(3)));
                        }
                        "slices" | "bump" => {
                            let g_ = g(2);
                            let exact = toks(2).len() == kinds.len();
                            let (x, same) = if w[0] == "bump" { ((g_.bump)(a, exact), true) } else { (g_.slices)(a, exact) };
                            let x: Vec<String> = x.iter().map(|c| js(c)).collect();
                            f += &format!(",\"g\":{},\"cols\":[{}],\"same\":{}", js(&toks(2)), x.join(","), same as u8);
                        }
                        "clear" => lib(|| {
                            a.drop_entities();
                            for _ in 0..a.len() {
                                a.decrement_len_unchecked()
                            }
                        }),
                        "snap" => (),
                        // move r s row handle tokens-for-the-new-kinds
                        "move" => {
                            let d = dst.as_mut().unwrap();
                            CUR.store(at(2) as usize);
                            let i = at(3);
                            let j = lib(|| d.a.push_uninitialized_entity());
                            let new: Vec<u32> = d.kinds.iter().copied().filter(|k| !kinds.contains(k)).collect();
                            let gone: Vec<u32> = kinds.iter().copied().filter(|k| !d.kinds.contains(k)).collect();
                            let mut old = vec![];
                            let mut flag = false;
                            if j < d.a.len() {
                                lib(|| {
                                    Archetype::copy_common_components_between_archetypes_unchecked(a, i, &mut d.a, j);
                                    d.a.entities_mut()[j as usize] = Entity::from_raw(at(4));
                                });
                                for (k, t) in new.iter().zip(toks(5)) {
                                    (ks[k].write)(&mut d.a, j, t);
                                }
                                CUR.store(r);
                                for k in &gone {
                                    old.push((ks[k].take)(a, i));
                                }
                                lib(|| {
                                    flag = a.swap_to_last_unchecked(i);
                                    a.decrement_len_unchecked();
                                });
                            }
                            f += &format!(",\"s\":{},\"i\":{},\"h\":{},\"t\":{},\"row\":{},\"gone\":{},\"old\":{},\"flag\":{}",
                                at(2), i, at(4), js(&toks(5)), j, js(&gone), js(&old), flag as u8);
                        }
                        x => bad(x),
                    }
                }
            }
            if let (Some(o), Some(d)) = (other, dst) {
                regs.insert(o, d);
                touched.push(o);
            }
        }
        let full = !light || w[0] == "snap";
        let st: Vec<String> = touched.iter().map(|t| snap(&regs[t], *t, &ks, full)).collect();
        let drops: Vec<String> = DROPLOG.lock().unwrap_or_else(|e| e.into_inner()).drain(..).map(|(_, k, t)| format!("[{k},{t}]")).collect();
        if w[0] == "adrop" {
            sweep();
        }
        let faults = take_faults().iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",");
        let reff = REFFAULTS.lock().unwrap_or_else(|e| e.into_inner()).drain(..).map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",");
        f += &format!(
            ",\"st\":[{}],\"drops\":[{}],\"faults\":[{}],\"reff\":[{}],\"live\":{}",
            st.join(","),
            drops.join(","),
            faults,
            reff,
            LIVE[r].load(SeqCst)
        );
        f
    });
}
