//! The component-set index (ArchetypeRegistry), used directly, and the descriptions of component sets.
#[path = "../../common.rs"]
mod common;
use common::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::*;

unsafe fn no_drop(_: *mut u8, _: usize) {}
fn cd(id: u32) -> ComponentDescriptor {
    ComponentDescriptor {
        component_type_id: ComponentTypeId::from_u16(id as u16),
        size: [0, 1, 8, 12][id as usize % 4],
        align: [1, 1, 8, 4][id as usize % 4],
        fns: shard_ecs::component_descriptor::ComponentDescriptorFnPointers { drop_handler: no_drop },
    }
}
/// The description of a set, built one by one in the given order.
fn desc(ids: &[u32]) -> ArchetypeDescriptor {
    let mut d: ArchetypeDescriptor = cd(ids[0]).into();
    for i in &ids[1..] {
        d = d.add_component(&cd(*i)).unwrap();
    }
    d
}
fn ids(d: &ArchetypeDescriptor) -> Vec<u32> {
    d.components().iter().map(|c| c.component_type_id().into_u16() as u32).collect()
}
/// What one storage shows: its set and its rows' handles.
fn show(a: &Archetype) -> String {
    format!("[{},{}]", js(&ids(a.descriptor())), js(&a.entities().iter().map(|e| e.raw()).collect::<Vec<_>>()))
}
fn mark(a: &mut Archetype, m: u32) {
    unsafe {
        let i = a.push_uninitialized_entity();
        a.entities_mut()[i as usize] = Entity::from_raw(m);
    }
}

/// Pairs of different sets with the same identifier, found by search.
fn collisions(seed: u32, size: usize, tries: u32) -> Vec<Vec<u32>> {
    let mut x = (seed as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let mut next = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 20) as u32 % 65535
    };
    let mut seen: std::collections::HashMap<u32, Vec<u32>> = Default::default();
    let mut out = vec![];
    for _ in 0..tries {
        let mut v: Vec<u32> = (0..size).map(|_| next()).collect();
        v.sort();
        v.dedup();
        if v.len() != size {
            continue;
        }
        let id = ArchetypeDescriptor::compute_archetype_id(&v.iter().map(|i| cd(*i)).collect::<Vec<_>>()).into_u32();
        match seen.get(&id) {
            Some(o) if *o != v => {
                if !out.contains(o) {
                    out.push(o.clone());
                }
                if !out.contains(&v) {
                    out.push(v);
                }
            }
            Some(_) => {}
            None => {
                seen.insert(id, v);
            }
        }
        if out.len() >= 12 {
            break;
        }
    }
    out
}

fn main() {
    let mut rs: Vec<ArchetypeRegistry> = vec![];
    let mut marker = 0u32;
    let mut known: Vec<Vec<u32>> = vec![]; // sets found by search
    run("", |w| {
        let r: usize = if w.len() > 1 { num(w[1]) as usize } else { 0 };
        // a set: ids, or c<n> for a found one
        let set = |known: &Vec<Vec<u32>>, s: &str| match s.strip_prefix('c') {
            Some(n) if known.is_empty() => vec![num(n), num(n) + 100],
            Some(n) => known[num(n) as usize % known.len()].clone(),
            None => list(s),
        };
        let f = match w[0] {
            "reset" => {
                rs = vec![ArchetypeRegistry::default(), ArchetypeRegistry::default()];
                marker = 0;
                return String::new();
            }
            // search seed size tries
            "search" => {
                known.extend(collisions(num(w[1]), num(w[2]) as usize, num(w[3])));
                return format!(",\"found\":{}", known.len());
            }
            "find" => {
                let s = set(&known, w[2]);
                let x = rs[r].find_archetype(&desc(&s)).map_or("[]".into(), show);
                let y = rs[r].find_archetype_mut(&desc(&s)).map_or("[]".into(), |a| show(a));
                format!(",\"set\":{},\"got\":{},\"gotm\":{}", js(&s), x, y)
            }
            // find or create, then leave a mark
            "foc" => {
                let s = set(&known, w[2]);
                marker += 1;
                match rs[r].find_or_create_archetype(&desc(&s)) {
                    Some((i, a)) => {
                        let sh = show(a);
                        mark(a, marker);
                        format!(",\"set\":{},\"idx\":{},\"got\":{},\"m\":{}", js(&s), i, sh, marker)
                    }
                    None => format!(",\"set\":{},\"idx\":-1,\"got\":[],\"m\":0", js(&s)),
                }
            }
            "addc" | "remc" => {
                let (i, k) = (num(w[2]), num(w[3]));
                marker += 1;
                let x = if w[0] == "addc" {
                    rs[r].find_or_create_archetype_adding_component(i as u16, &cd(k))
                } else {
                    rs[r].find_or_create_archetype_removing_component(i as u16, &cd(k))
                };
                match x {
                    Some((a, j, b)) => {
                        let (x, y) = (show(a), show(b));
                        mark(a, marker);
                        mark(b, marker + 1);
                        marker += 1;
                        format!(",\"i\":{},\"k\":{},\"idx\":{},\"src\":{},\"got\":{},\"m\":{}", i, k, j, x, y, marker)
                    }
                    None => format!(",\"i\":{},\"k\":{},\"idx\":-1,\"src\":[],\"got\":[],\"m\":0", i, k),
                }
            }
            "get" => {
                let i = num(w[2]) as u16;
                let x = show(&rs[r][i]);
                let y = show(&mut rs[r][i]);
                let z = unsafe { (show(rs[r].get_unchecked(i)), show(rs[r].get_unchecked_mut(i))) };
                format!(",\"i\":{},\"got\":{},\"same\":{}", i, x, (x == y && x == z.0 && x == z.1) as u8)
            }
            // Rejected descriptions
            "inv" => {
                let d = ArchetypeDescriptor::INVALID;
                let ok = rs[r].find_archetype(&d).is_none()
                    && rs[r].find_archetype_mut(&d).is_none()
                    && rs[r].find_or_create_archetype(&d).is_none();
                format!(",\"ok\":{}", ok as u8)
            }
            x => bad(x),
        };
        format!(",\"r\":{}{}", r, f)
    });
}
