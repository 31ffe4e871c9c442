//! The entity table, used directly.
#[path = "../../common.rs"]
mod common;
use common::*;
use shard_ecs::*;

fn row(v: u32) -> IndexInArchetype {
    IndexInArchetype::new(v).unwrap()
}
fn sto(v: u32) -> ArchetypeIndex {
    ArchetypeIndex::new(v as u16).unwrap()
}
fn look(t: &EntityRegistry, h: Entity) -> String {
    match t.entity_entry(h) {
        None => "[]".into(),
        Some(e) => format!(
            "[{},{},{},{}]",
            e.version(), e.index_in_archetype().value(), e.archetype_index(), e.is_valid() as u8
        ),
    }
}

fn main() {
    let mut ts: Vec<EntityRegistry> = vec![];
    let mut hs: Vec<Vec<Entity>> = vec![]; // every handle ever obtained
    run("", |w| unsafe {
        let r: usize = if w.len() > 1 { num(w[1]) as usize } else { 0 };
        // h<n>: the n-th handle obtained from this table; h<n>+: with the version after; i.v: any handle
        let handle = |hs: &Vec<Vec<Entity>>, s: &str| match s.strip_prefix('h') {
            Some(n) if n.ends_with('+') => {
                let h = hs[r][num(&n[..n.len() - 1]) as usize % hs[r].len().max(1)];
                Entity::new_unchecked(h.index(), h.version().wrapping_add(1))
            }
            Some(n) => hs[r][num(n) as usize % hs[r].len().max(1)],
            None => {
                let (a, b) = s.split_once('.').unwrap();
                Entity::new_unchecked(num(a), num(b) as u8)
            }
        };
        let f = match w[0] {
            "reset" => {
                ts = vec![];
                hs = vec![];
                for _ in 0..2 {
                    ts.push(EntityRegistry::default());
                    hs.push(vec![]);
                }
                return String::new();
            }
            "create" => {
                let can = ts[r].can_register_new_entity();
                match ts[r].create_entity(row(num(w[2])), sto(num(w[3]))) {
                    Some(h) => {
                        hs[r].push(h);
                        format!(",\"loc\":[{},{}],\"can\":{},\"ok\":1,\"h\":[{},{}]", num(w[2]), num(w[3]), can as u8, h.index(), h.version())
                    }
                    None => format!(",\"loc\":[{},{}],\"can\":{},\"ok\":0,\"h\":[]", num(w[2]), num(w[3]), can as u8),
                }
            }
            // A table without handles has nothing to name.
            "destroy" | "look" | "set" if w[2].starts_with('h') && hs[r].is_empty() => {
                return format!(",\"r\":{},\"none\":1", r);
            }
            "destroy" => {
                let h = handle(&hs, w[2]);
                format!(",\"h\":[{},{}],\"ok\":{}", h.index(), h.version(), ts[r].destroy_entity(h) as u8)
            }
            "look" => {
                let h = handle(&hs, w[2]);
                format!(",\"h\":[{},{}],\"e\":{}", h.index(), h.version(), look(&ts[r], h))
            }
            // set r h row storage what(1 row, 2 storage, 3 both)
            "set" => {
                let h = handle(&hs, w[2]);
                let what = num(w[5]);
                let ok = match ts[r].entity_entry_mut(h) {
                    None => 0,
                    Some(e) => {
                        if what & 1 != 0 {
                            e.set_index_in_archetype(row(num(w[3])));
                        }
                        if what & 2 != 0 {
                            e.set_archetype_index(sto(num(w[4])).value());
                        }
                        1
                    }
                };
                format!(",\"h\":[{},{}],\"loc\":[{},{}],\"what\":{},\"ok\":{}", h.index(), h.version(), num(w[3]), num(w[4]), what, ok)
            }
            // fill r n: n creations; the m-th of the table goes to row m, storage m mod 65535
            "fill" => {
                let n = num(w[2]);
                let (mut okn, mut wrongcan, mut first) = (0u32, 0u32, hs[r].len());
                for _ in 0..n {
                    let m = hs[r].len() as u32;
                    let can = ts[r].can_register_new_entity();
                    match ts[r].create_entity(row(m % 16_777_215), sto(m % 65535)) {
                        Some(h) => {
                            wrongcan += !can as u32;
                            hs[r].push(h);
                            okn += 1;
                        }
                        None => {
                            wrongcan += can as u32;
                            break;
                        }
                    }
                }
                let can = ts[r].can_register_new_entity() as u8;
                let mut bad = 0u32;
                let mut seen = std::collections::HashSet::new();
                let slots = hs[r].iter().map(|h| h.index()).max().unwrap_or(0) as usize + 1;
                let mut taken = vec![false; slots];
                if first > 0 {
                    first = hs[r].len() - okn as usize;
                }
                for m in first..hs[r].len() {
                    let h = hs[r][m];
                    if std::mem::replace(&mut taken[h.index() as usize], true) {
                        seen.insert(m);
                    }
                    match ts[r].entity_entry(h) {
                        Some(e) if e.version() == h.version() && e.index_in_archetype().value() == m as u32 % 16_777_215
                            && e.archetype_index() as u32 == m as u32 % 65535 => {}
                        _ => bad += 1,
                    }
                }
                return format!(",\"r\":{},\"n\":{},\"okn\":{},\"can\":{},\"wrongcan\":{},\"dup\":{},\"bad\":{},\"en\":{}",
                    r, n, okn, can, wrongcan, seen.len(), bad, ts[r].iter().count());
            }
            // mdestroy r from to step: destroys every step-th handle ever obtained
            "mdestroy" => {
                let (from, to, step) = (num(w[2]) as usize, num(w[3]) as usize, num(w[4]) as usize);
                let (mut n, mut ok) = (0u32, 0u32);
                for m in (from..to.min(hs[r].len())).step_by(step) {
                    n += 1;
                    ok += ts[r].destroy_entity(hs[r][m]) as u32;
                }
                let stale = (from..to.min(hs[r].len())).step_by(step).filter(|m| ts[r].entity_entry(hs[r][*m]).is_some()).count();
                return format!(",\"r\":{},\"n\":{},\"okn\":{},\"stale\":{},\"can\":{},\"en\":{}",
                    r, n, ok, stale, ts[r].can_register_new_entity() as u8, ts[r].iter().count());
            }
            x => bad(x),
        };
        // Everything that can be seen, the dead handles included.
        let all: Vec<String> = hs[r].iter().rev().take(60).map(|h| format!("[[{},{}],{}]", h.index(), h.version(), look(&ts[r], *h))).collect();
        let en: Vec<String> = ts[r].iter().map(|h| format!("[{},{}]", h.index(), h.version())).collect();
        let mut it = ts[r].iter();
        let mut n = 0;
        while let Some(h) = it.next() {
            n += h.is_valid() as usize;
        }
        format!(",\"r\":{}{},\"snap\":[{}],\"en\":[{}],\"en2\":{}", r, f, all.join(","), en.join(","), n)
    });
}
