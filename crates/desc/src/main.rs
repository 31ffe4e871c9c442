//! Descriptions of component sets.
#[path = "../../common.rs"]
mod common;
use common::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::component_descriptor::ComponentDescriptorFnPointers;
use shard_ecs::component_group_descriptor::ComponentGroupDescriptor;
use shard_ecs::*;
use std::collections::HashMap;

unsafe fn drop0(_: *mut u8, _: usize) {}
const fn cd(id: u32) -> ComponentDescriptor {
    ComponentDescriptor {
        component_type_id: ComponentTypeId::from_u16(id as u16),
        size: (id * 7 % 997) as u16,
        align: 1 << (id % 8),
        fns: ComponentDescriptorFnPointers { drop_handler: drop0 },
    }
}
/// A type with a given identifier.
struct T<const I: u16>;
impl<const I: u16> Component for T<I> {
    const NAME: &'static str = "T";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(I);
    const DESCRIPTOR: ComponentDescriptor = cd(I as u32);
}
macro_rules! typed {
    ($($i:literal)*) => {
        /// The identifiers that types exist for.
        const TYPED: &[u32] = &[$($i),*];
        fn has(d: &ArchetypeDescriptor, id: u32) -> bool {
            match id { $($i => d.has_component::<T<$i>>(),)* _ => bad("no such type") }
        }
        fn add_typed(d: &ArchetypeDescriptor, id: u32) -> Option<ArchetypeDescriptor> {
            match id { $($i => d.add_component_from::<T<$i>>(),)* _ => bad("no such type") }
        }
    };
}
typed!(0 1 2 3 5 8 255 256 257 4660 13330 32767 32768 65279 65280 65533 65534);

struct G {
    valid: bool,
    len: u8,
    a: ArchetypeDescriptor,
    u2s: Vec<u8>,
    s2u: Vec<u8>,
}
fn group(ids: &[u32]) -> G {
    fn of<const N: usize>(ids: &[u32]) -> G {
        let d: [ComponentDescriptor; N] = core::array::from_fn(|i| cd(ids[i]));
        let g = ComponentGroupDescriptor::new(&d);
        let n = if g.is_valid() { N as u8 } else { 0 };
        G {
            valid: g.is_valid(),
            len: g.len(),
            a: g.archetype().clone(),
            u2s: (0..n).map(|i| g.unsorted_to_sorted(i)).collect(),
            s2u: (0..n).map(|i| g.sorted_to_unsorted(i)).collect(),
        }
    }
    macro_rules! pick { ($($n:literal)*) => { match ids.len() { $($n => of::<$n>(ids),)* _ => bad("too long") } } }
    pick!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 20 28)
}
fn show(d: &ArchetypeDescriptor) -> String {
    let c: Vec<String> = d
        .components()
        .iter()
        .map(|c| format!("[{},{},{}]", c.component_type_id().into_u16(), c.size(), c.align()))
        .collect();
    let a: Vec<u32> = unsafe { d.components_unchecked() }[..d.len() as usize].iter().map(|c| c.component_type_id.into_u16() as u32).collect();
    let id = d.archetype_id().into_u32();
    format!(
        "{{\"valid\":{},\"idvalid\":{},\"len\":{},\"comps\":[{}],\"raw\":{},\"id\":[{},{}]}}",
        d.is_valid() as u8,
        d.archetype_id().is_valid() as u8,
        d.len(),
        c.join(","),
        js(&a),
        id >> 16,
        id & 0xFFFF
    )
}
const NONE: &str = "{\"valid\":0,\"idvalid\":0,\"len\":0,\"comps\":[],\"raw\":[],\"id\":[0,0]}";

fn main() {
    let mut regs: HashMap<u32, ArchetypeDescriptor> = HashMap::new();
    run("", |w| {
        let reg = |regs: &HashMap<u32, ArchetypeDescriptor>, i: usize| regs.get(&num(w[i])).cloned();
        match w[0] {
            "reset" => {
                regs.clear();
                String::new()
            }
            // grp d ids
            "grp" => {
                let g = group(&list(w[2]));
                let f = format!(
                    ",\"d\":{},\"ids\":{},\"gvalid\":{},\"glen\":{},\"u2s\":{},\"s2u\":{},\"got\":{}",
                    w[1],
                    js(&list(w[2])),
                    g.valid as u8,
                    g.len,
                    js(&g.u2s),
                    js(&g.s2u),
                    show(&g.a)
                );
                if g.valid {
                    regs.insert(num(w[1]), g.a);
                } else {
                    regs.remove(&num(w[1]));
                }
                f
            }
            "one" => {
                let d: ArchetypeDescriptor = (&cd(num(w[2]))).into();
                let f = format!(",\"d\":{},\"ids\":[{}],\"got\":{}", w[1], w[2], show(&d));
                regs.insert(num(w[1]), d);
                f
            }
            // add d e id: d becomes e with id
            "add" | "addt" | "rem" => {
                let e = match reg(&regs, 2) {
                    Some(e) => e,
                    None => return format!(",\"d\":{},\"e\":{},\"k\":{},\"skip\":1,\"some\":0,\"got\":{NONE},\"src\":{NONE}", w[1], w[2], w[3]),
                };
                let k = num(w[3]);
                let x = match w[0] {
                    "add" => e.add_component(&cd(k)),
                    "addt" => add_typed(&e, k),
                    _ => e.remove_component(ComponentTypeId::from_u16(k as u16)),
                };
                let f = format!(
                    ",\"d\":{},\"e\":{},\"k\":{},\"skip\":0,\"some\":{},\"got\":{},\"src\":{}",
                    w[1],
                    w[2],
                    k,
                    x.is_some() as u8,
                    x.as_ref().map_or(NONE.into(), show),
                    show(&e)
                );
                match x {
                    Some(x) => regs.insert(num(w[1]), x),
                    None => regs.remove(&num(w[1])),
                };
                f
            }
            "pair" => match (reg(&regs, 1), reg(&regs, 2)) {
                (Some(a), Some(b)) => format!(
                    ",\"d\":{},\"e\":{},\"skip\":0,\"sub\":{},\"exc\":{}",
                    w[1],
                    w[2],
                    a.contains_subset(&b) as u8,
                    a.excludes_subset(&b) as u8
                ),
                _ => format!(",\"d\":{},\"e\":{},\"skip\":1,\"sub\":0,\"exc\":0", w[1], w[2]),
            },
            "has" => match reg(&regs, 1) {
                Some(a) => format!(
                    ",\"d\":{},\"skip\":0,\"typed\":{},\"has\":{}",
                    w[1],
                    js(TYPED),
                    js(&TYPED.iter().copied().filter(|i| has(&a, *i)).collect::<Vec<_>>())
                ),
                None => format!(",\"d\":{},\"skip\":1,\"typed\":[],\"has\":[]", w[1]),
            },
            // What stands for no set.
            "inv" => {
                const fn arr() -> [ComponentDescriptor; MAX_COMPONENTS_PER_ENTITY] {
                    [ComponentDescriptor::INVALID; MAX_COMPONENTS_PER_ENTITY]
                }
                let good = ArchetypeId::from_u32(7);
                let bad = [
                    ArchetypeDescriptor::INVALID,
                    ArchetypeDescriptor::new(good, 0, arr()),
                    ArchetypeDescriptor::new(ArchetypeId::INVALID, 1, arr()),
                ];
                let ok = bad.iter().all(|d| !d.is_valid() && d.len() == 0 && d.components().is_empty())
                    && !ComponentGroupDescriptor::INVALID.is_valid()
                    && ComponentGroupDescriptor::INVALID.len() == 0
                    && !ArchetypeDescriptor::compute_archetype_id(&[]).is_valid()
                    && !ComponentTypeId::INVALID.is_valid()
                    && !ComponentDescriptor::INVALID.component_type_id().is_valid()
                    && (0..65535u32).all(|i| ComponentTypeId::from_u16(i as u16).is_valid())
                    && (0..=65535u32).all(|i| {
                        let t = ComponentTypeId::from_u16(i as u16);
                        let a: ArchetypeId = t.into();
                        t.into_u16() as u32 == i && a.into_u32() == i && a.is_valid() && ComponentTypeId::from(i as u16) == t
                    });
                format!(",\"ok\":{}", ok as u8)
            }
            x => bad(x),
        }
    });
}
