//! Packed handles and table entries.
#[path = "../../common.rs"]
mod common;
use common::*;
use shard_ecs::*;

fn ent(e: Entity) -> Fields {
    let r = unsafe { Entity::from_raw(e.raw()) };
    format!(
        ",\"f\":[{},{}],\"raw\":[{},{}],\"valid\":{},\"again\":[{},{}],\"same\":{}",
        e.index(), e.version(), e.raw() >> 16, e.raw() & 0xFFFF, e.is_valid() as u8, r.index(), r.version(),
        (r == e) as u8
    )
}
fn ety(e: &EntityEntry) -> Fields {
    let c = e.clone();
    format!(
        ",\"f\":[{},{},{}],\"valid\":{},\"again\":[{},{},{}]",
        e.version(), e.index_in_archetype().value(), e.archetype_index(), e.is_valid() as u8,
        c.version(), c.index_in_archetype().value(), c.archetype_index()
    )
}

fn main() {
    let mut es = vec![Entity::default(); 8];
    let mut ts = vec![EntityEntry::default(); 8];
    run("", |w| unsafe {
        let r = if w.len() > 1 { w[1].parse().unwrap_or(0usize) % 8 } else { 0 };
        match w[0] {
            "reset" => {
                es = vec![Entity::default(); 8];
                ts = vec![EntityEntry::default(); 8];
                String::new()
            }
            // Handles
            "enew" => {
                es[r] = Entity::new_unchecked(num(w[2]), num(w[3]) as u8);
                format!(",\"r\":{},\"a\":[{},{}]{}", r, num(w[2]), num(w[3]), ent(es[r]))
            }
            "einv" => {
                es[r] = match w[2] { "0" => Entity::INVALID, "1" => Entity::invalid(), _ => Entity::default() };
                format!(",\"r\":{}{}", r, ent(es[r]))
            }
            "eidx" => {
                es[r].set_index(num(w[2]));
                format!(",\"r\":{},\"a\":[{}]{}", r, num(w[2]), ent(es[r]))
            }
            "ever" => {
                es[r].set_version(num(w[2]) as u8);
                format!(",\"r\":{},\"a\":[{}]{}", r, num(w[2]), ent(es[r]))
            }
            "eraw" => {
                es[r] = Entity::from_raw(num(w[2]) << 16 | num(w[3]));
                format!(",\"r\":{},\"a\":[{},{}]{}", r, num(w[2]), num(w[3]), ent(es[r]))
            }
            "eeq" => {
                let s: usize = w[2].parse().unwrap();
                format!(",\"r\":{},\"s\":{},\"eq\":{},\"ne\":{}", r, s, (es[r] == es[s]) as u8, (es[r] != es[s]) as u8)
            }
            // Table entries
            "tnew" => {
                ts[r] = EntityEntry::default();
                format!(",\"r\":{}{}", r, ety(&ts[r]))
            }
            "tver" => {
                ts[r].set_version(num(w[2]) as u8);
                format!(",\"r\":{},\"a\":{}{}", r, num(w[2]), ety(&ts[r]))
            }
            "trow" => {
                ts[r].set_index_in_archetype(IndexInArchetype::new(num(w[2])).unwrap());
                format!(",\"r\":{},\"a\":{}{}", r, num(w[2]), ety(&ts[r]))
            }
            "tarch" => {
                ts[r].set_archetype_index(num(w[2]) as u16);
                format!(",\"r\":{},\"a\":{}{}", r, num(w[2]), ety(&ts[r]))
            }
            "tinv" => {
                ts[r].invalidate(num(w[2]));
                format!(",\"r\":{},\"a\":{}{}", r, num(w[2]), ety(&ts[r]))
            }
            // Row and storage numbers
            "iia" => {
                let v = num(w[1]) << 16 | num(w[2]);
                let x = IndexInArchetype::new(v);
                let y = x.map(|x| x.value());
                let z = x.map(|x| IndexInArchetype::from_bytes(x.to_bytes()).value());
                format!(
                    ",\"a\":[{},{}],\"some\":{},\"v\":{},\"bytes\":{}",
                    v >> 16, v & 0xFFFF, y.is_some() as u8, y.unwrap_or(0), z.unwrap_or(0)
                )
            }
            "iiab" => {
                let b = [num(w[1]) as u8, num(w[2]) as u8, num(w[3]) as u8];
                format!(",\"a\":{},\"b\":{}", js(&b), js(&IndexInArchetype::from_bytes(b).to_bytes()))
            }
            "iiad" => format!(",\"v\":{}", IndexInArchetype::default().value()),
            "ai" => {
                let x = ArchetypeIndex::new(num(w[1]) as u16);
                format!(",\"a\":{},\"some\":{},\"v\":{}", num(w[1]), x.is_some() as u8, x.map_or(0, |x| x.value()))
            }
            // Whole ranges: how many of the indexes from..to (with version v set before or after, or as part
            // of construction) do not read back as they were set.
            "esweep" => {
                let (from, to, v) = (num(w[1]), num(w[2]), num(w[3]) as u8);
                let (mut n, mut bad) = (0u32, 0u32);
                for i in from..to {
                    n += 1;
                    let a = Entity::new_unchecked(i, v);
                    let mut b = Entity::new_unchecked(i ^ 0xFF_FFFF, v);
                    b.set_index(i);
                    let mut c = Entity::new_unchecked(i, !v);
                    c.set_version(v);
                    let d = Entity::from_raw(i << 8 | v as u32);
                    let ok = [a, b, c, d].iter().all(|e| {
                        e.index() == i && e.version() == v && *e == a && e.is_valid() == !(i == 0xFF_FFFF && v == 255)
                    });
                    bad += !ok as u32;
                }
                format!(",\"from\":{},\"to\":{},\"n\":{},\"bad\":{}", from, to, n, bad)
            }
            "tsweep" => {
                let (from, to, v, a) = (num(w[1]), num(w[2]), num(w[3]) as u8, num(w[4]) as u16);
                let (mut n, mut bad) = (0u32, 0u32);
                for i in from..to {
                    n += 1;
                    let ii = match IndexInArchetype::new(i) {
                        Some(x) => x,
                        None => {
                            bad += 1;
                            continue;
                        }
                    };
                    let same = |e: &EntityEntry, a: u16| {
                        e.version() == v && e.index_in_archetype().value() == i && e.archetype_index() == a
                            && e.is_valid() == (a != u16::MAX)
                    };
                    let mut x = EntityEntry::default();
                    x.set_version(v);
                    x.set_archetype_index(a);
                    x.set_index_in_archetype(ii);
                    let mut y = EntityEntry::default();
                    y.set_index_in_archetype(ii);
                    y.set_archetype_index(a);
                    y.set_version(v);
                    let mut z = x.clone();
                    z.set_index_in_archetype(IndexInArchetype::new_unchecked(i ^ 0xFF_FFFF));
                    z.invalidate(i);
                    let mut ok = same(&x, a) && same(&y, a) && same(&z, u16::MAX) && ii.value() == i;
                    ok &= IndexInArchetype::from_bytes(ii.to_bytes()) == ii;
                    bad += !ok as u32;
                }
                format!(",\"from\":{},\"to\":{},\"n\":{},\"bad\":{}", from, to, n, bad)
            }
            "asweep" => {
                let (i, v) = (num(w[1]), num(w[2]) as u8);
                let mut bad = 0u32;
                for a in 0..=u16::MAX {
                    let mut x = EntityEntry::default();
                    x.set_version(v);
                    x.set_index_in_archetype(IndexInArchetype::new(i).unwrap());
                    x.set_archetype_index(!a);
                    x.set_archetype_index(a);
                    let ok = x.version() == v && x.index_in_archetype().value() == i && x.archetype_index() == a
                        && x.is_valid() == (a != u16::MAX)
                        && ArchetypeIndex::new(a).map(|x| x.value()) == if a == u16::MAX { None } else { Some(a) };
                    bad += !ok as u32;
                }
                format!(",\"n\":65536,\"bad\":{}", bad)
            }
            x => bad(x),
        }
    });
}
