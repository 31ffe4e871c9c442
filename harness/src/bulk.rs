//! Operations on very large populations, recorded as one event each.
use crate::api;
use crate::grp::*;
use crate::Tables;
use shard_ecs::{Entity, Registry};

#[derive(Default)]
pub struct Bulk {
    ents: Vec<Entity>,
    group: Vec<u32>,
    groups: Vec<Vec<u32>>, // per cohort (one fill)
    alive: Vec<bool>,
    by_slot: Vec<u32>, // slot -> 1 + ordinal of the last entity in it
    prev: Vec<u32>,    // ordinal -> 1 + ordinal of the entity in the same slot before it
    shift: Vec<[u32; 34]>, // per cohort and kind: how often all its components were advanced
}
#[derive(Default)]
pub struct FillOut {
    pub ok: u32,
    pub refused: u32,
    pub backok: bool,
    pub dup: u32,
}
impl Bulk {
    pub fn slots(&self) -> usize {
        self.by_slot.len()
    }
    pub fn is_live(&self, e: Entity) -> bool {
        let s = e.index() as usize;
        match self.by_slot.get(s) {
            None | Some(0) => false,
            Some(o) => self.alive[*o as usize - 1] && self.ents[*o as usize - 1] == e,
        }
    }
    /// Notes an entity that was issued; false if its handle should not have been issued.
    fn issued(&mut self, e: Entity, cohort: u32, alive: bool) -> bool {
        let s = e.index() as usize;
        if s >= self.by_slot.len() {
            self.by_slot.resize(s + 1, 0);
        }
        let mut o = self.by_slot[s] as usize;
        let before = o as u32;
        let mut good = e != Entity::INVALID && (o == 0 || !self.alive[o - 1]);
        for _ in 0..255 {
            if o == 0 {
                break;
            }
            good &= self.ents[o - 1] != e;
            o = self.prev[o - 1] as usize;
        }
        self.by_slot[s] = self.ents.len() as u32 + 1;
        self.ents.push(e);
        self.group.push(cohort);
        self.alive.push(alive);
        self.prev.push(before);
        good
    }
    fn cohort(&mut self, kinds: &[u32]) -> u32 {
        self.groups.push(kinds.to_vec());
        self.shift.push([0; 34]);
        self.groups.len() as u32 - 1
    }
    /// What the component k of the entity should hold.
    fn tok(&self, ord: usize, k: u32) -> u32 {
        let h = self.shift[self.group[ord] as usize][k as usize] as u64;
        ((ord as u64 * 7 + k as u64 + h) % dom(k) as u64) as u32
    }
    pub fn live_in(&self, k: &[u32]) -> u32 {
        let mut n = 0;
        for i in 0..self.ents.len() {
            if self.alive[i] && k.iter().all(|x| self.groups[self.group[i] as usize].contains(x)) {
                n += 1;
            }
        }
        n
    }
}

fn tok(ord: usize, k: u32) -> u32 {
    ((ord as u64 * 7 + k as u64) % dom(k) as u64) as u32
}
fn dom(k: u32) -> u32 {
    use crate::kinds::*;
    macro_rules! f { ($($t:ident),*) => { [$(<$t as K>::DOM),*] } }
    const D: [u32; 33] = each_kind!(f);
    D[k as usize - 1]
}

/// Creates n entities (stops after the first refusal, then tries twice more).
pub fn fill<G: Grp>(r: &mut Registry, n: u32, _m: u32, b: &mut Bulk) -> Result<FillOut, ()> {
    let mut o = FillOut { backok: true, ..Default::default() };
    let gi = b.cohort(G::KINDS);
    let mut t = vec![0u32; G::KINDS.len()];
    for _ in 0..n {
        let ord = b.ents.len();
        for (i, k) in G::KINDS.iter().enumerate() {
            t[i] = tok(ord, *k);
        }
        let g = G::mk(&t);
        match api(|| r.create_entity(g))? {
            Ok(e) => {
                o.ok += 1;
                o.dup += !b.issued(e, gi, true) as u32;
            }
            Err(g) => {
                o.refused += 1;
                if g.toks() != t.iter().map(|x| *x as i64).collect::<Vec<_>>() {
                    o.backok = false;
                }
                if o.refused == 3 {
                    break;
                }
            }
        }
    }
    Ok(o)
}

/// Destroys every stride-th live entity starting at the offset-th; returns how many were asked for
/// and how many calls reported success.
pub fn destroy(r: &mut Registry, b: &mut Bulk, stride: usize, off: usize) -> Result<(u32, u32), ()> {
    let (mut n, mut ok) = (0, 0);
    let mut i = 0;
    for o in 0..b.ents.len() {
        if !b.alive[o] {
            continue;
        }
        if i >= off && (i - off) % stride == 0 {
            let e = b.ents[o];
            n += 1;
            if api(|| r.destroy_entity(e))? {
                ok += 1;
            }
            b.alive[o] = false;
        }
        i += 1;
    }
    Ok((n, ok))
}

pub fn cycle<G: Grp>(r: &mut Registry, n: u32, b: &mut Bulk) -> Result<(u32, u32, u32), ()> {
    let t = vec![0u32; G::KINDS.len()];
    let (mut c, mut d, mut dup) = (0, 0, 0);
    for _ in 0..n {
        let g = G::mk(&t);
        if let Ok(e) = api(|| r.create_entity(g))? {
            c += 1;
            dup += !b.issued(e, 0, false) as u32;
            if api(|| r.destroy_entity(e))? {
                d += 1;
            }
        }
    }
    Ok((c, d, dup))
}

pub fn tcycle<G: Grp>(r: &mut Registry, n: u32, b: &mut Bulk) -> Result<(u32, u32, u32), ()> {
    let t = vec![0u32; G::KINDS.len()];
    let (mut c, mut d, mut dup) = (0, 0, 0);
    for _ in 0..n {
        let g = G::mk(&t);
        if let Ok(e) = api(|| r.create_entity(g))? {
            c += 1;
            dup += !b.issued(e, 0, false) as u32;
            if let Some(g) = api(|| r.remove_entity::<G>(e))? {
                d += g.toks().iter().all(|x| *x == 0) as u32;
            }
        }
    }
    Ok((c, d, dup))
}

/// n times: m entities are created, then all ended again: in the order of their creation (0), the other
/// way round (1), every third first (2), or taken out in the order of their creation (3).
pub fn waves<G: Grp>(r: &mut Registry, m: u32, n: u32, ord: u32, b: &mut Bulk) -> Result<(u32, u32, u32), ()> {
    let t = vec![0u32; G::KINDS.len()];
    let (mut c, mut d, mut dup) = (0, 0, 0);
    let mut own: Vec<(Entity, usize)> = Vec::new();
    for _ in 0..n {
        own.clear();
        for _ in 0..m {
            let g = G::mk(&t);
            if let Ok(e) = api(|| r.create_entity(g))? {
                c += 1;
                own.push((e, b.ents.len()));
                dup += !b.issued(e, 0, true) as u32;
            }
        }
        let k = own.len();
        for i in 0..k {
            let (e, o) = match ord {
                1 => own[k - 1 - i],
                2 => own[(0..3).map(|q| (k + 2 - q) / 3).scan(0, |a, x| { let s = *a; *a += x; Some((s, x)) })
                    .enumerate().find(|(_, (s, x))| i < s + x).map(|(q, (s, _))| q + 3 * (i - s)).unwrap()],
                _ => own[i],
            };
            b.alive[o] = false;
            if ord == 3 {
                if let Some(g) = api(|| r.remove_entity::<G>(e))? {
                    d += g.toks().iter().all(|x| *x == 0) as u32;
                }
            } else {
                d += api(|| r.destroy_entity(e))? as u32;
            }
        }
    }
    Ok((c, d, dup))
}

fn first_of(b: &Bulk, c: usize) -> Option<usize> {
    (0..b.ents.len()).find(|o| b.alive[*o] && b.group[*o] as usize == c)
}

/// An entity of the cohort gets a component and loses it, n times.
pub fn spin(r: &mut Registry, b: &Bulk, c: usize, kv: &crate::KV, n: u32) -> Result<(u32, u32, u32), ()> {
    let (mut up, mut down, mut bad) = (0, 0, 0);
    let o = first_of(b, c).ok_or(())?;
    let e = b.ents[o];
    for i in 0..n {
        let tk = i % kv.dom;
        match (kv.add)(r, e, tk)? {
            Ok(()) => {
                up += 1;
                match (kv.rmc)(r, e)? {
                    Ok(x) => {
                        down += 1;
                        bad += (x != tk as i64) as u32;
                    }
                    Err(()) => bad += 1,
                }
            }
            Err(x) => bad += (x != tk as i64) as u32,
        }
    }
    Ok((up, down, bad))
}

/// An entity of every cohort loses the component if it has it and gets it if not, and afterwards is
/// what it was: any two of them in turn, the second between the first's two changes.
pub fn flips(r: &mut Registry, b: &Bulk, t: &crate::Tables, k: u32) -> Result<(u32, u32, u32), ()> {
    let firsts: Vec<usize> = (0..b.groups.len()).filter_map(|c| first_of(b, c)).collect();
    let kv = &t.kinds[k as usize - 1];
    let (mut done, mut undone, mut bad) = (0, 0, 0);
    let has = |o: usize, k: u32| b.groups[b.group[o] as usize].contains(&k);
    let flip = |r: &mut Registry, o: usize, back: bool, bad: &mut u32| -> Result<bool, ()> {
        let tk = b.tok(o, k);
        Ok(if has(o, k) == back {
            match (kv.add)(r, b.ents[o], tk)? {
                Ok(()) => true,
                Err(x) => {
                    *bad += (x != tk as i64) as u32;
                    false
                }
            }
        } else {
            match (kv.rmc)(r, b.ents[o])? {
                Ok(x) => {
                    *bad += (x != tk as i64) as u32;
                    true
                }
                Err(()) => false,
            }
        })
    };
    let look = |r: &Registry, o: usize, flipped: bool, all: bool, bad: &mut u32| -> Result<(), ()> {
        for kv in &t.kinds {
            let want = has(o, kv.k) != (flipped && kv.k == k);
            *bad += (api(|| (kv.has)(r, b.ents[o]))? != want) as u32;
            if all || (want && kv.k == k) {
                let v = if want { Some(b.tok(o, kv.k) as i64) } else { None };
                *bad += (api(|| (kv.get)(r, b.ents[o]))? != v) as u32;
            }
        }
        Ok(())
    };
    for i in &firsts {
        for j in &firsts {
            if i == j {
                continue;
            }
            let x = flip(r, *i, false, &mut bad)?;
            let y = flip(r, *j, false, &mut bad)?;
            done += x as u32 + y as u32;
            look(r, *j, y, false, &mut bad)?;
            if x {
                undone += flip(r, *i, true, &mut bad)? as u32;
            }
            if y {
                undone += flip(r, *j, true, &mut bad)? as u32;
            }
            look(r, *j, false, false, &mut bad)?;
        }
    }
    for i in &firsts {
        look(r, *i, false, true, &mut bad)?;
    }
    Ok((done, undone, bad))
}

/// Reads, tests, iterations and refused calls, n times; how often something was not as it should be.
pub fn idle<G: Grp>(r: &mut Registry, b: &Bulk, n: u32) -> Result<u32, ()> {
    let mut bad = 0;
    let live = (0..b.ents.len()).find(|o| b.alive[*o]).map(|o| b.ents[o]).unwrap_or(Entity::INVALID);
    let has = api(|| r.has_components::<G>(live))?;
    let count = |r: &Registry| api(|| r.iter_components_matching::<G>().count());
    let sets = count(r)?;
    for i in 0..n {
        bad += api(|| r.has_components::<G>(live))?.ne(&has) as u32;
        bad += api(|| r.get_components::<G>(live).is_some())?.ne(&has) as u32;
        bad += api(|| r.get_components_mut::<G>(live).is_some())?.ne(&has) as u32;
        bad += api(|| r.destroy_entity(Entity::INVALID))? as u32;
        bad += api(|| r.remove_entity::<G>(Entity::INVALID).is_some())? as u32;
        if i % 16 == 0 {
            bad += (count(r)? != sets) as u32;
            bad += (api(|| r.iter_components_matching_mut::<G>().count())? != sets) as u32;
            bad += (api(|| r.iter_entity_components_matching::<G>().count())? != sets) as u32;
            bad += (api(|| r.iter_entity_components_matching_mut::<G>().count())? != sets) as u32;
            bad += (api(|| r.iter_filtered_components_matching::<G, _>(|_| true).count())? != sets) as u32;
            bad += (api(|| r.iter_filtered_components_matching_mut::<G, _>(|_| true).count())? != sets) as u32;
            bad += (api(|| r.iter_filtered_entity_components_matching::<G, _>(|_| true).count())? != sets) as u32;
            bad += (api(|| r.iter_filtered_entity_components_matching_mut::<G, _>(|_| true).count())? != sets) as u32;
            api(|| r.iter_components_exact::<G>())?;
            api(|| r.iter_components_exact_mut::<G>())?;
        }
    }
    Ok(bad)
}

/// Rows yielded by entity iteration for the group, and how many of them are wrong.
pub fn check<G: Grp>(r: &Registry, b: &Bulk) -> Result<(u32, u32), ()> {
    let (mut n, mut bad) = (0u32, 0u32);
    let mut seen = vec![false; b.by_slot.len()];
    let mut it = api(|| r.iter_entity_components_matching::<G>())?;
    while let Some((es, s)) = api(|| it.next())? {
        let cols = G::slices(s);
        for (i, e) in es.iter().enumerate() {
            n += 1;
            if !b.is_live(*e) {
                bad += 1;
                continue;
            }
            bad += std::mem::replace(&mut seen[e.index() as usize], true) as u32;
            let ord = b.by_slot[e.index() as usize] as usize - 1;
            for (c, k) in cols.iter().zip(G::KINDS) {
                if c.len() != es.len() || c[i] != b.tok(ord, *k) as i64 {
                    bad += 1;
                    break;
                }
            }
        }
    }
    // Handles, dead ones included, too.
    for o in (0..b.ents.len()).step_by(if b.ents.len() > 2_000_000 { 13 } else { 1 }) {
        let e = b.ents[o];
        let x = api(|| r.get_components::<G>(e))?.map(|x| G::refs(x));
        let has = b.alive[o] && G::KINDS.iter().all(|k| b.groups[b.group[o] as usize].contains(k));
        if !b.alive[o] && b.is_live(e) {
            continue; // its handle was issued again, 256 entities later or more
        }
        let want = if has { Some(G::KINDS.iter().map(|k| b.tok(o, *k) as i64).collect::<Vec<_>>()) } else { None };
        if x != want {
            bad += 1;
        }
    }
    Ok((n, bad))
}

/// Every component of the group advanced twice for every entity, through grouped and through single
/// references, and read again one by one; also with handles of entities that are gone.
/// Returns how many references there were of each sort, and how often something was not as it should be.
pub fn poke<G: Grp>(r: &mut Registry, b: &mut Bulk, kinds: &[crate::KV]) -> Result<([u32; 3], u32), ()> {
    let (mut n, mut bad) = ([0u32; 3], 0u32);
    // All the entities alive, and of large populations every seventeenth of those destroyed.
    let asked = |b: &Bulk, o: usize| {
        b.alive[o] || ((b.ents.len() <= 100_000 || o % 17 == 0) && !b.is_live(b.ents[o]))
    };
    let all = |b: &Bulk, o: usize| b.alive[o] && G::KINDS.iter().all(|k| b.groups[b.group[o] as usize].contains(k));
    let advance = |b: &mut Bulk, ks: &[u32]| {
        for c in 0..b.groups.len() {
            if ks.iter().all(|k| b.groups[c].contains(k)) {
                ks.iter().for_each(|k| b.shift[c][*k as usize] += 1);
            }
        }
    };
    let next = |b: &Bulk, o: usize, k: u32| ((b.tok(o, k) as u64 + 1) % dom(k) as u64) as u32;
    let mut rs: Ranges = vec![];
    let mut o = 0;
    while o < b.ents.len() {
        if asked(b, o) {
            rs.clear();
            let has = all(b, o);
            let new: Vec<u32> = if has { G::KINDS.iter().map(|k| next(b, o, *k)).collect() } else { vec![0; G::KINDS.len()] };
            let got = api(|| r.get_components_mut::<G>(b.ents[o]))?.map(|x| G::muts(x, Some(&new), &mut rs));
            bad += (got.is_some() != has) as u32;
            if let Some(v) = got {
                n[0] += 1;
                bad += (has && v.iter().zip(G::KINDS).any(|(x, k)| *x != b.tok(o, *k) as i64)) as u32;
            }
        }
        o += 1;
    }
    advance(b, G::KINDS);
    for k in G::KINDS {
        let kv = &kinds[*k as usize - 1];
        let mut o = 0;
        while o < b.ents.len() {
            if asked(b, o) {
                let has = b.alive[o] && b.groups[b.group[o] as usize].contains(k);
                let new = if has { next(b, o, *k) } else { 0 };
                let got = api(|| (kv.getm)(r, b.ents[o], Some(new)))?;
                n[1] += got.is_some() as u32;
                bad += (got != if has { Some(b.tok(o, *k) as i64) } else { None }) as u32;
            }
            o += 1;
        }
        advance(b, &[*k]);
    }
    let mut o = 0;
    while o < b.ents.len() {
        if asked(b, o) {
            let e = b.ents[o];
            let has = all(b, o);
            let h = api(|| r.has_components::<G>(e))?;
            n[2] += h as u32;
            bad += (h != has) as u32;
            for k in G::KINDS {
                let kv = &kinds[*k as usize - 1];
                let has = b.alive[o] && b.groups[b.group[o] as usize].contains(k);
                bad += (api(|| (kv.has)(r, e))? != has) as u32;
                bad += (api(|| (kv.get)(r, e))? != if has { Some(b.tok(o, *k) as i64) } else { None }) as u32;
            }
        }
        o += 1;
    }
    Ok((n, bad))
}

/// What the iterations of a group yielded: rows per variant (component slices only, with entities,
/// and both again for changing), in turn for matching, filtered and exact iteration.
#[derive(Default)]
pub struct AllOut {
    pub rows: [u32; 12],
    pub bad: [u32; 12],
}

struct Tally<'a> {
    b: &'a Bulk,
    kinds: &'static [u32],
    seen: Vec<bool>,
    sums: Vec<i64>,
    rows: u32,
    bad: u32,
}
impl<'a> Tally<'a> {
    fn new(b: &'a Bulk, kinds: &'static [u32]) -> Self {
        Tally { b, kinds, seen: vec![], sums: vec![0; kinds.len()], rows: 0, bad: 0 }
    }
    fn cols(&mut self, es: Option<&[Entity]>, cols: Vec<Vec<i64>>) {
        let n = cols.iter().map(|c| c.len()).min().unwrap_or(0);
        self.bad += cols.iter().any(|c| c.len() != n) as u32 + es.map_or(false, |e| e.len() != n) as u32;
        for (s, c) in self.sums.iter_mut().zip(&cols) {
            *s += c.iter().sum::<i64>();
        }
        if n == 0 {
            return;
        }
        self.rows += n as u32;
        if let Some(es) = es {
            if !check_ptr(es.as_ptr(), es.len()) {
                self.bad += 1;
                return;
            }
            self.seen.resize(self.b.by_slot.len(), false);
            for (i, e) in es.iter().enumerate().take(n) {
                if !self.b.is_live(*e) || std::mem::replace(&mut self.seen[e.index() as usize], true) {
                    self.bad += 1;
                    continue;
                }
                let ord = self.b.by_slot[e.index() as usize] as usize - 1;
                self.bad += cols.iter().zip(self.kinds).any(|(c, k)| c[i] != self.b.tok(ord, *k) as i64) as u32;
            }
        }
    }
    /// The rows should be those of these cohorts: the sums of their components must agree.
    fn done(mut self, of: &[bool]) -> (u32, u32) {
        for (s, k) in self.sums.iter().zip(self.kinds) {
            let want: i64 = (0..self.b.ents.len())
                .filter(|o| self.b.alive[*o] && of[self.b.group[*o] as usize])
                .map(|o| self.b.tok(o, *k) as i64)
                .sum();
            self.bad += (want != *s) as u32;
        }
        (self.rows, self.bad)
    }
}

/// Every kind of iteration of the group; those that may change components advance every one of them.
pub fn all<G: Grp>(r: &mut Registry, b: &mut Bulk, m: u32) -> Result<AllOut, ()> {
    let mut o = AllOut::default();
    let has = |b: &Bulk, f: &dyn Fn(&Vec<u32>) -> bool| -> Vec<bool> {
        b.groups.iter().map(|g| G::KINDS.iter().all(|k| g.contains(k)) && f(g)).collect()
    };
    let of = [has(b, &|_| true), has(b, &|g| g.len() as u32 <= m), has(b, &|g| g.len() == G::KINDS.len())];
    let mut rs: Ranges = vec![];
    macro_rules! variant {
        ($i:expr, $w:expr, |$t:ident| $body:block) => {{
            let mut $t = Tally::new(b, G::KINDS);
            rs.clear();
            $body
            let (n, bad) = $t.done(&of[$i / 4]);
            o.rows[$i] = n;
            o.bad[$i] = bad;
            if $w {
                for c in (0..b.groups.len()).filter(|c| of[$i / 4][*c]) {
                    for k in G::KINDS {
                        b.shift[c][*k as usize] += 1;
                    }
                }
            }
        }};
    }
    macro_rules! each { ($it:expr, $x:ident, $e:expr) => {{
        let mut it = api(|| $it)?;
        while let Some($x) = api(|| it.next())? { $e }
    }} }
    variant!(0, false, |t| { each!(r.iter_components_matching::<G>(), s, t.cols(None, G::slices(s))) });
    variant!(1, false, |t| { each!(r.iter_entity_components_matching::<G>(), s, t.cols(Some(s.0), G::slices(s.1))) });
    variant!(2, true, |t| { each!(r.iter_components_matching_mut::<G>(), s, t.cols(None, G::slices_mut(s, true, &mut rs))) });
    variant!(3, true, |t| { each!(r.iter_entity_components_matching_mut::<G>(), s, t.cols(Some(s.0), G::slices_mut(s.1, true, &mut rs))) });
    variant!(4, false, |t| { each!(r.iter_filtered_components_matching::<G, _>(move |d| d.len() as u32 <= m), s, t.cols(None, G::slices(s))) });
    variant!(5, false, |t| { each!(r.iter_filtered_entity_components_matching::<G, _>(move |d| d.len() as u32 <= m), s, t.cols(Some(s.0), G::slices(s.1))) });
    variant!(6, true, |t| { each!(r.iter_filtered_components_matching_mut::<G, _>(move |d| d.len() as u32 <= m), s, t.cols(None, G::slices_mut(s, true, &mut rs))) });
    variant!(7, true, |t| { each!(r.iter_filtered_entity_components_matching_mut::<G, _>(move |d| d.len() as u32 <= m), s, t.cols(Some(s.0), G::slices_mut(s.1, true, &mut rs))) });
    variant!(8, false, |t| { t.cols(None, G::slices(api(|| r.iter_components_exact::<G>())?)) });
    variant!(9, false, |t| { let s = api(|| r.iter_entity_components_exact::<G>())?; t.cols(Some(s.0), G::slices(s.1)) });
    variant!(10, true, |t| { t.cols(None, G::slices_mut(api(|| r.iter_components_exact_mut::<G>())?, true, &mut rs)) });
    variant!(11, true, |t| { let s = api(|| r.iter_entity_components_exact_mut::<G>())?; t.cols(Some(s.0), G::slices_mut(s.1, true, &mut rs)) });
    Ok(o)
}

#[derive(Default)]
pub struct WalkOut {
    pub visited: u32,
    pub refused: u32,
    pub bad: u32,
}

/// Adds (or removes) a kind to every live entity of a cohort.
pub fn change(r: &mut Registry, b: &mut Bulk, c: usize, kv: &crate::KV, add: bool) -> Result<(u32, u32, u32, u32), ()> {
    let (mut n, mut ok, mut refused, mut bad) = (0, 0, 0, 0);
    for o in 0..b.ents.len() {
        if !b.alive[o] || b.group[o] as usize != c {
            continue;
        }
        n += 1;
        let e = b.ents[o];
        let tk = if add { tok(o, kv.k) } else { b.tok(o, kv.k) };
        if add {
            match (kv.add)(r, e, tk)? {
                Ok(()) => ok += 1,
                Err(x) => {
                    refused += 1;
                    bad += (x != tk as i64) as u32;
                }
            }
        } else {
            match (kv.rmc)(r, e)? {
                Ok(x) => {
                    ok += 1;
                    bad += (x != tk as i64) as u32;
                }
                Err(()) => refused += 1,
            }
        }
    }
    if ok > 0 {
        if add {
            b.groups[c].push(kv.k);
            b.shift[c][kv.k as usize] = 0;
        } else {
            b.groups[c].retain(|k| *k != kv.k);
        }
    }
    Ok((n, ok, refused, bad))
}

/// Takes every live entity of a cohort out of the registry with its group.
pub fn take<G: Grp>(r: &mut Registry, b: &mut Bulk, c: usize) -> Result<(u32, u32, u32), ()> {
    let (mut n, mut ok, mut bad) = (0, 0, 0);
    for o in 0..b.ents.len() {
        if !b.alive[o] || b.group[o] as usize != c {
            continue;
        }
        n += 1;
        let e = b.ents[o];
        if let Some(g) = api(|| r.remove_entity::<G>(e))? {
            ok += 1;
            let want: Vec<i64> = G::KINDS.iter().map(|k| b.tok(o, *k) as i64).collect();
            bad += (g.toks() != want) as u32;
            b.alive[o] = false;
        }
    }
    Ok((n, ok, bad))
}

/// The first live entity of cohort c must have exactly the component ks[0]; it ends with exactly ks[0] again.
pub fn walk(r: &mut Registry, b: &Bulk, c: usize, t: &Tables, ks: &[u32], max: u32) -> Result<WalkOut, ()> {
    let e = match (0..b.ents.len()).find(|o| b.alive[*o] && b.group[*o] as usize == c) {
        Some(o) => b.ents[o],
        None => return Err(()),
    };
    let mut o = WalkOut { visited: 1, ..Default::default() };
    fn go(r: &mut Registry, e: Entity, t: &Tables, ks: &[u32], from: usize, size: usize, max: u32, o: &mut WalkOut) -> Result<(), ()> {
        for i in from..ks.len() {
            if size >= 14 || o.visited >= max {
                return Ok(());
            }
            let kv = &t.kinds[ks[i] as usize - 1];
            let tk = (o.visited as u64 % kv.dom as u64) as u32;
            match (kv.add)(r, e, tk)? {
                Ok(()) => {}
                Err(b) => {
                    o.refused += 1;
                    if b != tk as i64 {
                        o.bad += 1;
                    }
                    if o.refused > 10 {
                        return Ok(());
                    }
                    continue;
                }
            }
            o.visited += 1;
            if (kv.get)(r, e) != Some(tk as i64) {
                o.bad += 1;
            }
            go(r, e, t, ks, i + 1, size + 1, max, o)?;
            match (kv.rmc)(r, e)? {
                Ok(b) if b == tk as i64 => {}
                _ => {
                    o.bad += 1;
                    return Ok(());
                }
            }
        }
        Ok(())
    }
    go(r, e, t, ks, 1, 1, max, &mut o)?;
    for k in &t.kinds {
        if (k.has)(r, e) != (k.k == ks[0]) {
            o.bad += 1;
        }
    }
    Ok(o)
}

/// Several threads read one registry at the same time, each the components of its own group one by one
/// and together, all of them of the same entities; then each goes through all the rows of its group.
/// Returns the rows of each, and how often something was not as it should be.
pub fn race(reg: &Registry, b: &Bulk, t: &Tables, turns: u32, gs: &[&crate::GV], cur: usize) -> (Vec<u32>, u32) {
    let live: Vec<usize> = (0..b.ents.len()).filter(|o| b.alive[*o]).collect();
    let mut some: Vec<usize> = (0..b.groups.len()).filter_map(|c| first_of(b, c)).take(40).collect();
    some.extend((0..24).filter_map(|i| live.get(i * live.len() / 24)));
    let some = &some;
    let gate = std::sync::Barrier::new(gs.len());
    let (gate, reg) = (&gate, crate::Assume(reg));
    let one = |reg: &Registry, g: &crate::GV| -> Result<(u32, u32), ()> {
        let mut bad = 0;
        for o in some {
            let e = b.ents[*o];
            let has = |k: &u32| b.groups[b.group[*o] as usize].contains(k);
            let single: Vec<_> = g
                .kinds
                .iter()
                .map(|k| (&t.kinds[*k as usize - 1], if has(k) { Some(b.tok(*o, *k) as i64) } else { None }))
                .collect();
            let group = if g.kinds.iter().all(has) { Some(g.kinds.iter().map(|k| b.tok(*o, *k) as i64).collect::<Vec<_>>()) } else { None };
            gate.wait();
            for i in 0..turns {
                for (kv, want) in &single {
                    bad += (api(|| (kv.get)(reg, e))? != *want) as u32;
                    if i % 4 == 0 {
                        bad += (api(|| (kv.has)(reg, e))? != want.is_some()) as u32;
                    }
                }
                if i % 4 == 1 {
                    bad += ((g.get)(reg, e)? != group) as u32;
                    bad += ((g.has)(reg, e)? != group.is_some()) as u32;
                }
            }
        }
        let (n, x) = (g.check)(reg, b)?;
        Ok((n, bad + x))
    };
    let one = &one;
    let outs: Vec<Result<(u32, u32), ()>> = std::thread::scope(|s| {
        let hs: Vec<_> = gs
            .iter()
            .map(|g| {
                s.spawn(move || {
                    crate::CUR.store(cur);
                    let x = one(reg.get(), g);
                    if x.is_err() {
                        // the others may wait for this one, which will not come any more
                        std::process::abort();
                    }
                    x
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err(()))).collect()
    });
    let bad = outs.iter().map(|x| x.map_or(1, |x| x.1)).sum();
    (outs.into_iter().map(|x| x.map_or(0, |x| x.0)).collect(), bad)
}
