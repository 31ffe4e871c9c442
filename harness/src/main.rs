//! Interprets operation scripts against the real registry and records one JSON event per operation.
//! usage: ecs-harness SCRIPT EVENTS INTENT
#[macro_use]
mod grp;
mod alloc;
#[cfg(feature = "bulk")]
mod bulk;
mod kinds;

use crate::alloc::*;
use crate::grp::*;
use crate::kinds::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::{Component, Entity, Registry};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;

#[global_allocator]
static ALLOC: Checking = Checking;

/// Runs code of the registry: allocations are attributed to it, drops are recorded, panics caught.
pub fn api<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    IN_API.store(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_API.store(false);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            drop(p);
            Err(())
        }
    }
}

#[derive(Clone, Debug)]
pub enum Pred {
    None,
    All,
    Nothing,
    Has(u32),
    Lacks(u32),
    LenEq(u32),
    LenLe(u32),
    Contains(usize),
    Excludes(usize),
    /// Panics when it is asked as often as BANG_LEFT says, otherwise true.
    Bang,
}
static BANG_LEFT: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
static BANGED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Clone)]
pub struct IterReq {
    pub mode: u8, // 0 match, 1 filtered, 2 exact
    pub ent: bool,
    pub mutable: bool,
    pub pred: Pred,
}

#[derive(Default)]
pub struct IterOut {
    pub rows: Vec<(Option<Entity>, Vec<i64>)>,
    pub ragged: bool,
    pub descs: Vec<Vec<i64>>,
    pub descbad: bool,
}

#[derive(Clone)]
pub struct GV {
    pub kinds: &'static [u32],
    pub desc: fn() -> &'static ArchetypeDescriptor,
    pub create: fn(&mut Registry, &[u32]) -> Result<Result<Entity, Vec<i64>>, ()>,
    pub remove: fn(&mut Registry, Entity) -> Result<Option<Vec<i64>>, ()>,
    pub has: fn(&Registry, Entity) -> Result<bool, ()>,
    pub get: fn(&Registry, Entity) -> Result<Option<Vec<i64>>, ()>,
    pub getm: fn(&mut Registry, Entity, Option<&[u32]>) -> Result<Option<Vec<i64>>, ()>,
    pub iter: fn(&mut Registry, &IterReq, &Tables) -> Result<IterOut, ()>,
    pub iter_shared: fn(&Registry, &IterReq, &Tables) -> Result<IterOut, ()>,
    pub part: fn(&mut Registry, &IterReq, &Tables, usize) -> (IterOut, bool, bool),
    #[cfg(feature = "bulk")]
    pub fill: fn(&mut Registry, u32, u32, &mut bulk::Bulk) -> Result<bulk::FillOut, ()>,
    #[cfg(feature = "bulk")]
    pub cycle: fn(&mut Registry, u32, &mut bulk::Bulk) -> Result<(u32, u32, u32), ()>,
    #[cfg(feature = "bulk")]
    pub poke: fn(&mut Registry, &mut bulk::Bulk, &[KV]) -> Result<([u32; 3], u32), ()>,
    #[cfg(feature = "bulk")]
    pub waves: fn(&mut Registry, u32, u32, u32, &mut bulk::Bulk) -> Result<(u32, u32, u32), ()>,
    #[cfg(feature = "bulk")]
    pub tcycle: fn(&mut Registry, u32, &mut bulk::Bulk) -> Result<(u32, u32, u32), ()>,
    #[cfg(feature = "bulk")]
    pub idle: fn(&mut Registry, &bulk::Bulk, u32) -> Result<u32, ()>,
    #[cfg(feature = "bulk")]
    pub check: fn(&Registry, &bulk::Bulk) -> Result<(u32, u32), ()>,
    #[cfg(feature = "bulk")]
    pub all: fn(&mut Registry, &mut bulk::Bulk, u32) -> Result<bulk::AllOut, ()>,
    #[cfg(feature = "bulk")]
    pub take: fn(&mut Registry, &mut bulk::Bulk, usize) -> Result<(u32, u32, u32), ()>,
}

pub struct KV {
    pub k: u32,
    pub dom: u32,
    pub drops: bool,
    pub size: usize,
    pub id: u16,
    pub has: fn(&Registry, Entity) -> bool,
    pub get: fn(&Registry, Entity) -> Option<i64>,
    pub getm: fn(&mut Registry, Entity, Option<u32>) -> Option<i64>,
    pub add: fn(&mut Registry, Entity, u32) -> Result<Result<(), i64>, ()>,
    pub rmc: fn(&mut Registry, Entity) -> Result<Result<i64, ()>, ()>,
    pub dhas: fn(&ArchetypeDescriptor) -> bool,
}

pub struct Tables {
    pub groups: Vec<GV>,
    pub by_kinds: HashMap<Vec<u32>, usize>,
    pub kinds: Vec<KV>,
    pub by_id: HashMap<u16, u32>,
}

/// What a filter predicate is told, checked for agreement of the description with itself.
fn describe(d: &ArchetypeDescriptor, t: &Tables) -> (Vec<i64>, bool) {
    let ks: Vec<i64> = d
        .components()
        .iter()
        .map(|c| t.by_id.get(&c.component_type_id().into_u16()).map(|k| *k as i64).unwrap_or(-1))
        .collect();
    let mut bad = d.len() as usize != ks.len() || !d.is_valid();
    for kv in &t.kinds {
        if (kv.dhas)(d) != ks.contains(&(kv.k as i64)) {
            bad = true;
        }
    }
    (ks, bad)
}
fn decide(d: &ArchetypeDescriptor, p: &Pred, t: &Tables) -> bool {
    match p {
        Pred::None | Pred::All | Pred::Bang => true,
        Pred::Nothing => false,
        Pred::Has(k) => (t.kinds[*k as usize - 1].dhas)(d),
        Pred::Lacks(k) => !(t.kinds[*k as usize - 1].dhas)(d),
        Pred::LenEq(n) => d.len() as u32 == *n,
        Pred::LenLe(n) => d.len() as u32 <= *n,
        Pred::Contains(g) => d.contains_subset((t.groups[*g].desc)()),
        Pred::Excludes(g) => d.excludes_subset((t.groups[*g].desc)()),
    }
}

const CAP: usize = 200_000;

fn push_cols(out: &mut IterOut, ents: Option<&[Entity]>, cols: Vec<Vec<i64>>) {
    let n = cols.iter().map(|c| c.len()).min().unwrap_or(0);
    if cols.iter().any(|c| c.len() != n) {
        out.ragged = true;
    }
    let mut n = n;
    if let Some(e) = ents {
        if e.len() != n {
            out.ragged = true;
        }
        n = n.min(e.len());
        if !e.is_empty() && !check_ptr(e.as_ptr(), e.len()) {
            return;
        }
    }
    for i in 0..n {
        out.rows
            .push((ents.map(|e| e[i]), cols.iter().map(|c| c[i]).collect()));
    }
}

/// How often an iterator was used: every way of using one gets its turn.
static WAY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
macro_rules! drive {
    (second $it:expr, $n:expr) => {{
        let mut it = api(|| $it)?;
        let mut n = 0usize;
        while n <= CAP && api(|| it.next())?.is_some() {
            n += 1;
        }
        $n = Some(n);
    }};
    // Groups of which only the first way is compiled, which is what nearly all of the time goes into.
    (plain $it:expr, $out:ident) => {{
        let mut it = api(|| $it)?;
        let mut items = Vec::new();
        while let Some(x) = api(|| it.next())? {
            items.push(x);
            if items.len() > CAP {
                break;
            }
        }
        if items.len() > CAP || api(|| it.next().is_some())? {
            $out.ragged = true;
        }
        items
    }};
    (unshared $g:ident, $it:expr, $out:ident) => { if $g::WAYS { drive!(@ $it, $out, n, {}) } else { drive!(plain $it, $out) } };
    (shared $g:ident, $it:expr, $out:ident) => { if $g::WAYS { drive!(shared $it, $out) } else { drive!(plain $it, $out) } };
    (shared $it:expr, $out:ident) => { drive!(@ $it, $out, n, { drive!(second $it, n) }) };
    (@ $it:expr, $out:ident, $n:ident, $second:block) => {{
        let way = WAY.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 7;
        if way == 1 {
            // one that is given up halfway
            let mut it = api(|| $it)?;
            api(|| it.next().is_some())?;
            api(|| drop(it))?;
        }
        #[allow(unused_mut)]
        let mut $n: Option<usize> = None;
        let mut it = api(|| $it)?;
        let mut items = Vec::new();
        let hint = api(|| it.size_hint())?;
        match way {
            2 => items = api(|| it.by_ref().take(CAP).collect::<Vec<_>>())?,
            3 => {
                while let Some(x) = api(|| it.nth(0))? {
                    items.push(x);
                    if items.len() > CAP {
                        break;
                    }
                }
            }
            4 => {
                items = api(|| {
                    it.by_ref().take(CAP).fold(items, |mut v, x| {
                        v.push(x);
                        v
                    })
                })?;
            }
            _ => {
                while let Some(x) = api(|| it.next())? {
                    items.push(x);
                    if items.len() == 1 && way == 5 {
                        // another one at the same time
                        $second
                    }
                    if items.len() > CAP {
                        break;
                    }
                }
            }
        }
        // Nothing comes after the end.
        if items.len() > CAP || api(|| it.next().is_some())? || api(|| it.next().is_some())? {
            $out.ragged = true;
        }
        if hint.0 > items.len() || hint.1.is_some_and(|h| h < items.len()) || $n.is_some_and(|n| n != items.len()) {
            $out.ragged = true;
        }
        items
    }};
}

fn closure<'a>(
    req: &'a IterReq,
    t: &'a Tables,
    seen: &'a std::cell::RefCell<(Vec<Vec<i64>>, bool)>,
) -> impl Fn(&ArchetypeDescriptor) -> bool + 'a {
    move |d: &ArchetypeDescriptor| {
        let was = IN_API.swap(false);
        if matches!(req.pred, Pred::Bang) && BANG_LEFT.fetch_sub(1, SeqCst) == 1 {
            BANGED.store(true, SeqCst);
            let p: Box<dyn std::any::Any + Send> = Box::new("predicate");
            IN_API.store(was);
            std::panic::resume_unwind(p);
        }
        let (ks, bad) = describe(d, t);
        let r = decide(d, &req.pred, t);
        let mut s = seen.borrow_mut();
        s.1 |= bad;
        if !s.0.contains(&ks) {
            s.0.push(ks);
        }
        drop(s);
        IN_API.store(was);
        r
    }
}

fn iter_shared_of<G: Grp>(r: &Registry, q: &IterReq, t: &Tables) -> Result<IterOut, ()> {
    let mut out = IterOut::default();
    let seen = std::cell::RefCell::new((vec![], false));
    match (q.mode, q.ent) {
        (0, false) => {
            for s in drive!(shared G, r.iter_components_matching::<G>(), out) {
                push_cols(&mut out, None, G::slices(s));
            }
        }
        (0, true) => {
            for (e, s) in drive!(shared G, r.iter_entity_components_matching::<G>(), out) {
                push_cols(&mut out, Some(e), G::slices(s));
            }
        }
        (1, false) => {
            for s in drive!(shared G, r.iter_filtered_components_matching::<G, _>(closure(unsafe_static(q), unsafe_static(t), unsafe_static(&seen))), out) {
                push_cols(&mut out, None, G::slices(s));
            }
        }
        (1, true) => {
            for (e, s) in drive!(shared G, r.iter_filtered_entity_components_matching::<G, _>(closure(unsafe_static(q), unsafe_static(t), unsafe_static(&seen))), out) {
                push_cols(&mut out, Some(e), G::slices(s));
            }
        }
        (_, false) => {
            let s = api(|| r.iter_components_exact::<G>())?;
            push_cols(&mut out, None, G::slices(s));
        }
        (_, true) => {
            let (e, s) = api(|| r.iter_entity_components_exact::<G>())?;
            push_cols(&mut out, Some(e), G::slices(s));
        }
    }
    let (d, b) = seen.into_inner();
    out.descs = d;
    out.descbad = b;
    Ok(out)
}

/// The iterators of the registry demand closures that live as long as the registry borrow; the data
/// these refer to outlives the whole call.
fn unsafe_static<'a, 'b, T>(x: &'a T) -> &'b T {
    unsafe { &*(x as *const T) }
}

fn iter_of<G: Grp>(r: &mut Registry, q: &IterReq, t: &Tables) -> Result<IterOut, ()> {
    if !q.mutable {
        return iter_shared_of::<G>(r, q, t);
    }
    let mut out = IterOut::default();
    let mut rs: Ranges = vec![];
    let seen = std::cell::RefCell::new((vec![], false));
    match (q.mode, q.ent) {
        (0, false) => {
            for s in drive!(unshared G, r.iter_components_matching_mut::<G>(), out) {
                push_cols(&mut out, None, G::slices_mut(s, true, &mut rs));
            }
        }
        (0, true) => {
            for (e, s) in drive!(unshared G, r.iter_entity_components_matching_mut::<G>(), out) {
                push_cols(&mut out, Some(e), G::slices_mut(s, true, &mut rs));
            }
        }
        (1, false) => {
            for s in drive!(unshared G, r.iter_filtered_components_matching_mut::<G, _>(closure(unsafe_static(q), unsafe_static(t), unsafe_static(&seen))), out) {
                push_cols(&mut out, None, G::slices_mut(s, true, &mut rs));
            }
        }
        (1, true) => {
            for (e, s) in drive!(unshared G, r.iter_filtered_entity_components_matching_mut::<G, _>(closure(unsafe_static(q), unsafe_static(t), unsafe_static(&seen))), out) {
                push_cols(&mut out, Some(e), G::slices_mut(s, true, &mut rs));
            }
        }
        (_, false) => {
            let s = api(|| r.iter_components_exact_mut::<G>())?;
            push_cols(&mut out, None, G::slices_mut(s, true, &mut rs));
        }
        (_, true) => {
            let (e, s) = api(|| r.iter_entity_components_exact_mut::<G>())?;
            push_cols(&mut out, Some(e), G::slices_mut(s, true, &mut rs));
        }
    }
    let (d, b) = seen.into_inner();
    out.descs = d;
    out.descbad = b;
    Ok(out)
}

/// At most n steps of an iteration with entities, reading (and changing) the components of each step
/// before the next; then the iterator is given up.  Tells whether it ended by itself, and whether
/// something panicked.
fn part_of<G: Grp>(r: &mut Registry, q: &IterReq, t: &Tables, n: usize) -> (IterOut, bool, bool) {
    let mut out = IterOut::default();
    let (mut ended, mut panicked) = (false, false);
    let seen = std::cell::RefCell::new((vec![], false));
    let mut rs: Ranges = vec![];
    macro_rules! steps {
        ($it:expr, $s:ident => $cols:expr) => {
            match api(|| $it) {
                Err(()) => panicked = true,
                Ok(mut it) => {
                    for _ in 0..n {
                        match api(|| it.next()) {
                            Ok(Some((e, $s))) => push_cols(&mut out, Some(e), $cols),
                            Ok(None) => {
                                ended = true;
                                break;
                            }
                            Err(()) => {
                                panicked = true;
                                break;
                            }
                        }
                    }
                    panicked |= api(|| drop(it)).is_err();
                }
            }
        };
    }
    if G::WAYS {
        match (q.mode, q.mutable) {
            (0, false) => steps!(r.iter_entity_components_matching::<G>(), s => G::slices(s)),
            (0, true) => steps!(r.iter_entity_components_matching_mut::<G>(), s => G::slices_mut(s, true, &mut rs)),
            (_, false) => steps!(r.iter_filtered_entity_components_matching::<G, _>(closure(unsafe_static(q), unsafe_static(t), unsafe_static(&seen))), s => G::slices(s)),
            (_, true) => steps!(r.iter_filtered_entity_components_matching_mut::<G, _>(closure(unsafe_static(q), unsafe_static(t), unsafe_static(&seen))), s => G::slices_mut(s, true, &mut rs)),
        }
    } else {
        panic!("part");
    }
    (out, ended, panicked)
}

fn gv<G: Grp>() -> GV {
    GV {
        kinds: G::KINDS,
        desc: || {
            // The descriptor is a constant: promote it once and keep it.
            let b: Box<shard_ecs::ComponentGroupDescriptor> = Box::new(G::DESCRIPTOR);
            Box::leak(b).archetype()
        },
        create: |r, t| {
            let g = G::mk(t);
            let x = api(|| r.create_entity(g))?;
            Ok(x.map_err(|g| g.toks()))
        },
        remove: |r, e| Ok(api(|| r.remove_entity::<G>(e))?.map(|g| g.toks())),
        has: |r, e| api(|| r.has_components::<G>(e)),
        get: |r, e| Ok(api(|| r.get_components::<G>(e))?.map(|x| G::refs(x))),
        getm: |r, e, n| {
            let mut rs = vec![];
            Ok(api(|| r.get_components_mut::<G>(e))?.map(|x| G::muts(x, n, &mut rs)))
        },
        iter: iter_of::<G>,
        iter_shared: iter_shared_of::<G>,
        part: part_of::<G>,
        #[cfg(feature = "bulk")]
        fill: bulk::fill::<G>,
        #[cfg(feature = "bulk")]
        cycle: bulk::cycle::<G>,
        #[cfg(feature = "bulk")]
        tcycle: bulk::tcycle::<G>,
        #[cfg(feature = "bulk")]
        waves: bulk::waves::<G>,
        #[cfg(feature = "bulk")]
        poke: bulk::poke::<G>,
        #[cfg(feature = "bulk")]
        idle: bulk::idle::<G>,
        #[cfg(feature = "bulk")]
        check: bulk::check::<G>,
        #[cfg(feature = "bulk")]
        all: bulk::all::<G>,
        #[cfg(feature = "bulk")]
        take: bulk::take::<G>,
    }
}

fn kv<C: K>() -> KV {
    KV {
        k: C::K,
        dom: C::DOM,
        drops: C::DROPS,
        size: core::mem::size_of::<C>(),
        id: <C as Component>::ID.into_u16(),
        has: |r, e| r.has_component::<C>(e),
        get: |r, e| r.get_component::<C>(e).map(|c| rd(c)),
        getm: |r, e, n| {
            r.get_component_mut::<C>(e).map(|c| {
                if !check_ptr(c as *const C, 1) {
                    return -1;
                }
                let t = c.tok();
                if let (Some(n), true) = (n, t >= 0) {
                    c.set(n);
                }
                t
            })
        },
        add: |r, e, t| {
            let c = C::mk(t);
            Ok(api(|| r.add_component(e, c))?.map_err(|c| c.tok()))
        },
        rmc: |r, e| Ok(api(|| r.remove_component::<C>(e))?.map(|c| c.tok())),
        dhas: |d| d.has_component::<C>(),
    }
}

struct Collect(Vec<GV>);
impl Visitor for Collect {
    fn visit<G: Grp>(&mut self) {
        self.0.push(gv::<G>())
    }
}

fn tables() -> Tables {
    let mut c = Collect(vec![]);
    visit(&mut c);
    let mut by_kinds = HashMap::new();
    for (i, g) in c.0.iter().enumerate() {
        by_kinds.insert(g.kinds.to_vec(), i);
    }
    macro_rules! mk { ($($t:ident),*) => { vec![$(kv::<$t>()),*] } }
    let kinds: Vec<KV> = each_kind!(mk);
    let by_id = kinds.iter().map(|k| (k.id, k.k)).collect();
    Tables {
        groups: c.0,
        by_kinds,
        kinds,
        by_id,
    }
}

/// What is used by several threads, or by another one, as registries may be.
pub struct Assume<T>(T);
unsafe impl<T> Send for Assume<T> {}
unsafe impl<T> Sync for Assume<T> {}
impl<T: Copy> Clone for Assume<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T: Copy> Copy for Assume<T> {}
impl<T> Assume<T> {
    pub fn get(self) -> T {
        self.0
    }
}

pub struct State {
    regs: Vec<Option<Box<Registry>>>,
    #[cfg(feature = "bulk")]
    bulks: HashMap<usize, bulk::Bulk>,
    labels: HashMap<String, Entity>,
    dead: bool,
    /// Registries one of whose calls did not get the memory it needed.
    lost: Vec<usize>,
    snap_auto: bool,
    snap_max: usize,
}

fn ents_json(o: &mut String, key: &str, v: &[Entity]) {
    let _ = write!(o, ",\"{key}\":[");
    for (i, e) in v.iter().enumerate() {
        let _ = write!(o, "{}[{},{}]", if i > 0 { "," } else { "" }, e.index(), e.version());
    }
    o.push(']');
}
fn ints(v: &[i64]) -> String {
    let mut o = String::from("[");
    for (i, e) in v.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, e);
    }
    o.push(']');
    o
}
fn intsu(v: &[u32]) -> String {
    ints(&v.iter().map(|x| *x as i64).collect::<Vec<_>>())
}

/// The entities enumerated; and one that does not exist if the enumeration was not well-behaved.
fn entities(r: &Registry) -> Result<Vec<Entity>, ()> {
    let mut out = IterOut::default();
    let mut v = drive!(shared r.iter_entities(), out);
    if out.ragged {
        v.push(Entity::INVALID);
    }
    Ok(v)
}

/// Everything observable of a registry through enumeration and single reads.
fn snapshot(r: &Registry, t: &Tables, max: usize) -> Result<String, ()> {
    let es = entities(r)?;
    let mut o = String::new();
    if es.len() > max {
        return Ok(",\"sn\":0".into());
    }
    let mut hasbad = 0;
    o.push_str(",\"sn\":1,\"snap\":[");
    for (i, e) in es.iter().enumerate() {
        let _ = write!(o, "{}[[{},{}],[", if i > 0 { "," } else { "" }, e.index(), e.version());
        let mut first = true;
        for k in &t.kinds {
            let g = api(|| (k.get)(r, *e))?;
            let h = api(|| (k.has)(r, *e))?;
            if g.is_some() != h {
                hasbad += 1;
            }
            if let Some(v) = g {
                let _ = write!(o, "{}[{},{}]", if first { "" } else { "," }, k.k, v);
                first = false;
            }
        }
        o.push_str("]]");
    }
    let _ = write!(o, "],\"hb\":{}", hasbad);
    Ok(o)
}

fn parse_handle(s: &str, st: &State) -> Entity {
    if s == "inv" {
        return Entity::INVALID;
    }
    if let Some(r) = s.strip_prefix('#') {
        let (i, v) = r.split_once('.').unwrap();
        return unsafe { Entity::new_unchecked(i.parse().unwrap(), v.parse::<u32>().unwrap() as u8) };
    }
    let (l, d) = match s.split_once('+') {
        Some((l, d)) => (l, d.parse::<u32>().unwrap()),
        None => (s, 0),
    };
    let e = *st.labels.get(l).unwrap_or(&Entity::INVALID);
    if d == 0 {
        return e;
    }
    // the same slot with another version
    unsafe { Entity::new_unchecked(e.index(), e.version().wrapping_add(d as u8)) }
}
fn list(s: &str) -> Vec<u32> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|x| x.parse().unwrap()).collect()
}
fn pred(s: &str, t: &Tables) -> (Pred, String) {
    let (k, a) = s.split_once(':').unwrap_or((s, ""));
    let js = |k: &str, a: &str| format!("[\"{}\",[{}]]", k, a);
    match k {
        "none" => (Pred::None, js(k, "")),
        "all" => (Pred::All, js(k, "")),
        "nothing" => (Pred::Nothing, js(k, "")),
        "has" => (Pred::Has(a.parse().unwrap()), js(k, a)),
        "lacks" => (Pred::Lacks(a.parse().unwrap()), js(k, a)),
        "leneq" => (Pred::LenEq(a.parse().unwrap()), js(k, a)),
        "lenle" => (Pred::LenLe(a.parse().unwrap()), js(k, a)),
        "bang" => {
            BANG_LEFT.store(a.parse().unwrap(), SeqCst);
            (Pred::Bang, js(k, a))
        }
        "contains" => (Pred::Contains(t.by_kinds[&list(a)]), js(k, a)),
        "excludes" => (Pred::Excludes(t.by_kinds[&list(a)]), js(k, a)),
        _ => panic!("predicate {s}"),
    }
}
fn rows_json(x: &IterOut) -> String {
    let mut o = String::from(",\"rows\":[");
    for (i, (e, v)) in x.rows.iter().enumerate() {
        let h = match e {
            Some(e) => format!("[{},{}]", e.index(), e.version()),
            None => "[]".into(),
        };
        let _ = write!(o, "{}[{},{}]", if i > 0 { "," } else { "" }, h, ints(v));
    }
    let _ = write!(o, "],\"ragged\":{},\"descs\":[", x.ragged as u8);
    for (i, d) in x.descs.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, ints(d));
    }
    let _ = write!(o, "],\"descbad\":{}", x.descbad as u8);
    o
}

/// Executes one script line and returns the body of its event (or None if it leaves no event).
fn exec(st: &mut State, t: &Tables, w: &[&str]) -> Option<String> {
    if w[0] == "oom" {
        // oom r n call... : the n-th request for memory of the call is refused
        let auto = std::mem::replace(&mut st.snap_auto, false);
        OOM_FIRED.store(false, SeqCst);
        OOM_LEFT.store(w[2].parse().unwrap(), SeqCst);
        let e = exec(st, t, &w[3..]);
        OOM_LEFT.store(0, SeqCst);
        st.snap_auto = auto;
        let fired = OOM_FIRED.swap(false, SeqCst);
        if fired {
            st.dead = false;
            st.lost.push(w[1].parse().unwrap());
        }
        return e.map(|e| format!("{e},\"oom\":{}", fired as u8));
    }
    let mut o = String::new();
    let op = w[0];
    let r: usize = if w.len() > 1 { w[1].parse().unwrap_or(0) } else { 0 };
    CUR.store(r);
    let _ = write!(o, "\"op\":\"{}\",\"r\":{}", op, r);
    let mut panicked = false;
    let mut snap_after = false;
    macro_rules! reg {
        () => {
            st.regs[r].as_deref_mut().expect("registry")
        };
    }
    macro_rules! call {
        ($e:expr) => {
            match $e {
                Ok(v) => Some(v),
                Err(()) => {
                    panicked = true;
                    None
                }
            }
        };
    }
    match op {
        "new" => {
            let x = call!(api(|| Box::new(Registry::default())));
            st.regs[r] = x;
            #[cfg(feature = "bulk")]
            st.bulks.remove(&r);
            snap_after = true;
        }
        "drop" => {
            let x = st.regs[r].take();
            call!(api(|| drop(x)));
            let left = LIVE[r].load(SeqCst);
            if left != 0 && !panicked {
                if !st.lost.contains(&r) {
                    reffault("leak");
                }
                LIVE[r].store(0, SeqCst);
            }
            st.lost.retain(|x| *x != r);
            BYTES[r].store(0, SeqCst);
            sweep();
        }
        "bombdrop" => {
            // bombdrop r k tok : the registry is dropped, and a destructor panics
            let (k, tok): (u32, i64) = (w[2].parse().unwrap(), w[3].parse().unwrap());
            BOMB_K.store(k, SeqCst);
            BOMB_T.store(tok, SeqCst);
            BOMB_ON.store(true, SeqCst);
            let x = st.regs[r].take();
            let res = api(|| drop(x));
            let fired = !BOMB_ON.swap(false, SeqCst);
            panicked = res.is_err() && !fired;
            if LIVE[r].swap(0, SeqCst) != 0 && !fired {
                reffault("leak");
            }
            BYTES[r].store(0, SeqCst);
            sweep();
            let _ = write!(o, ",\"bomb\":[{},{}],\"fired\":{}", k, tok, fired as u8);
        }
        "create" => {
            // create r label kinds toks
            let (g, tk) = (&t.groups[t.by_kinds[&list(w[3])]], list(w[4]));
            let x = call!((g.create)(reg!(), &tk));
            let _ = write!(o, ",\"g\":{},\"v\":{}", intsu(g.kinds), intsu(&tk));
            match x {
                Some(Ok(e)) => {
                    st.labels.insert(w[2].into(), e);
                    let _ = write!(o, ",\"ok\":1,\"h\":[{},{}],\"back\":[]", e.index(), e.version());
                }
                Some(Err(b)) => {
                    st.labels.insert(w[2].into(), Entity::INVALID);
                    let _ = write!(o, ",\"ok\":0,\"h\":[],\"back\":{}", ints(&b));
                }
                None => {
                    let _ = write!(o, ",\"ok\":-1,\"h\":[],\"back\":[]");
                }
            }
            snap_after = true;
        }
        "destroy" | "bomb" => {
            // destroy r h | bomb r h k tok
            let e = parse_handle(w[2], st);
            let _ = write!(o, ",\"h\":[{},{}]", e.index(), e.version());
            if op == "bomb" {
                let (k, tok): (u32, i64) = (w[3].parse().unwrap(), w[4].parse().unwrap());
                BOMB_K.store(k, SeqCst);
                BOMB_T.store(tok, SeqCst);
                BOMB_ON.store(true, SeqCst);
                let _ = write!(o, ",\"bomb\":[{},{}]", k, tok);
            }
            let x = api(|| reg!().destroy_entity(e));
            let armed = BOMB_ON.swap(false, SeqCst);
            let res = match x {
                Ok(true) => 1,
                Ok(false) => 0,
                Err(()) => -1,
            };
            if res == -1 && !(op == "bomb" && !armed) {
                panicked = true;
            }
            let _ = write!(o, ",\"ok\":{}", res);
            snap_after = true;
        }
        "remove" => {
            let e = parse_handle(w[2], st);
            let g = &t.groups[t.by_kinds[&list(w[3])]];
            let x = call!((g.remove)(reg!(), e));
            let _ = write!(o, ",\"h\":[{},{}],\"g\":{}", e.index(), e.version(), intsu(g.kinds));
            let _ = match x {
                Some(Some(b)) => write!(o, ",\"ok\":1,\"back\":{}", ints(&b)),
                Some(None) => write!(o, ",\"ok\":0,\"back\":[]"),
                None => write!(o, ",\"ok\":-1,\"back\":[]"),
            };
            snap_after = true;
        }
        "add" => {
            let e = parse_handle(w[2], st);
            let (k, tok): (usize, u32) = (w[3].parse().unwrap(), w[4].parse().unwrap());
            let x = call!((t.kinds[k - 1].add)(reg!(), e, tok));
            let _ = write!(o, ",\"h\":[{},{}],\"k\":{},\"v\":{}", e.index(), e.version(), k, tok);
            let _ = match x {
                Some(Ok(())) => write!(o, ",\"ok\":1,\"back\":[]"),
                Some(Err(b)) => write!(o, ",\"ok\":0,\"back\":[{}]", b),
                None => write!(o, ",\"ok\":-1,\"back\":[]"),
            };
            snap_after = true;
        }
        "rmc" => {
            let e = parse_handle(w[2], st);
            let k: usize = w[3].parse().unwrap();
            let x = call!((t.kinds[k - 1].rmc)(reg!(), e));
            let _ = write!(o, ",\"h\":[{},{}],\"k\":{}", e.index(), e.version(), k);
            let _ = match x {
                Some(Ok(b)) => write!(o, ",\"ok\":1,\"back\":[{}]", b),
                Some(Err(())) => write!(o, ",\"ok\":0,\"back\":[]"),
                None => write!(o, ",\"ok\":-1,\"back\":[]"),
            };
            snap_after = true;
        }
        "has" | "get" | "getm" => {
            // getm r h k [tok]
            let e = parse_handle(w[2], st);
            let k: usize = w[3].parse().unwrap();
            let _ = write!(o, ",\"h\":[{},{}],\"k\":{}", e.index(), e.version(), k);
            let kv = &t.kinds[k - 1];
            if op == "has" {
                let x = call!(api(|| (kv.has)(reg!(), e)));
                let _ = write!(o, ",\"ok\":{}", x.map(|b| b as i32).unwrap_or(-1));
            } else {
                let n: Option<u32> = w.get(4).map(|x| x.parse().unwrap());
                let x = if op == "get" {
                    call!(api(|| (kv.get)(reg!(), e)))
                } else {
                    snap_after = true;
                    call!(api(|| (kv.getm)(reg!(), e, n)))
                };
                let _ = match x {
                    Some(Some(v)) => write!(o, ",\"ok\":1,\"got\":[{}]", v),
                    Some(None) => write!(o, ",\"ok\":0,\"got\":[]"),
                    None => write!(o, ",\"ok\":-1,\"got\":[]"),
                };
                if op == "getm" {
                    let _ = write!(o, ",\"new\":{}", intsu(&n.into_iter().collect::<Vec<_>>()));
                }
            }
        }
        "hasg" | "getg" | "getgm" => {
            let e = parse_handle(w[2], st);
            let g = &t.groups[t.by_kinds[&list(w[3])]];
            let _ = write!(o, ",\"h\":[{},{}],\"g\":{}", e.index(), e.version(), intsu(g.kinds));
            if op == "hasg" {
                let x = call!((g.has)(reg!(), e));
                let _ = write!(o, ",\"ok\":{}", x.map(|b| b as i32).unwrap_or(-1));
            } else {
                let n: Option<Vec<u32>> = w.get(4).map(|x| list(x));
                let x = if op == "getg" {
                    call!((g.get)(reg!(), e))
                } else {
                    snap_after = true;
                    call!((g.getm)(reg!(), e, n.as_deref()))
                };
                let _ = match x {
                    Some(Some(v)) => write!(o, ",\"ok\":1,\"got\":{}", ints(&v)),
                    Some(None) => write!(o, ",\"ok\":0,\"got\":[]"),
                    None => write!(o, ",\"ok\":-1,\"got\":[]"),
                };
                if op == "getgm" {
                    let _ = write!(o, ",\"new\":{}", intsu(&n.unwrap_or_default()));
                }
            }
        }
        "perm" => {
            // perm r h kinds;kinds;... : the same read through several orders of a group
            let e = parse_handle(w[2], st);
            let _ = write!(o, ",\"h\":[{},{}],\"q\":[", e.index(), e.version());
            for (i, gs) in w[3].split(';').enumerate() {
                let g = &t.groups[t.by_kinds[&list(gs)]];
                let h = call!((g.has)(reg!(), e));
                let x = call!((g.get)(reg!(), e));
                let y = call!((g.getm)(reg!(), e, None));
                let f = |x: &Option<Option<Vec<i64>>>| match x {
                    Some(Some(v)) => format!("[1,{}]", ints(v)),
                    Some(None) => "[0,[]]".to_string(),
                    None => "[-1,[]]".to_string(),
                };
                let _ = write!(
                    o,
                    "{}[{},{},{},{}]",
                    if i > 0 { "," } else { "" },
                    intsu(g.kinds),
                    h.map(|b| b as i32).unwrap_or(-1),
                    f(&x),
                    f(&y)
                );
            }
            o.push(']');
        }
        "ents" => {
            let reg = reg!();
            let v = call!(entities(reg)).unwrap_or_default();
            ents_json(&mut o, "es", &v);
        }
        "iter" => {
            // iter r mode ent mut kinds pred
            let mode = match w[2] {
                "match" => 0,
                "filt" => 1,
                _ => 2,
            };
            let (p, ps) = pred(w[6], t);
            let q = IterReq {
                mode,
                ent: w[3] == "1",
                mutable: w[4] == "1",
                pred: p,
            };
            let g = &t.groups[t.by_kinds[&list(w[5])]];
            let x = call!((g.iter)(reg!(), &q, t)).unwrap_or_default();
            let _ = write!(
                o,
                ",\"mode\":\"{}\",\"ent\":{},\"mut\":{},\"g\":{},\"pred\":{}",
                w[2], w[3], w[4], intsu(g.kinds), ps
            );
            o.push_str(&rows_json(&x));
            snap_after = q.mutable;
        }
        "part" => {
            // part r mode mut kinds pred n : at most n steps of an iteration with entities
            let (p, ps) = pred(w[5], t);
            let q = IterReq {
                mode: (w[2] == "filt") as u8,
                ent: true,
                mutable: w[3] == "1",
                pred: p,
            };
            let g = &t.groups[t.by_kinds[&list(w[4])]];
            let n: usize = w[6].parse().unwrap();
            BANGED.store(false, SeqCst);
            let (x, ended, p) = (g.part)(reg!(), &q, t, n);
            let banged = BANGED.swap(false, SeqCst);
            panicked = p != banged;
            let _ = write!(
                o,
                ",\"mode\":\"{}\",\"mut\":{},\"g\":{},\"pred\":{},\"n\":{},\"ended\":{},\"banged\":{}",
                w[2], w[3], intsu(g.kinds), ps, n, ended as u8, banged as u8
            );
            o.push_str(&rows_json(&x));
            snap_after = true;
        }
        "par" => {
            // par r nthreads kinds;kinds;.. : several threads iterate and read at the same time
            let n: usize = w[2].parse().unwrap();
            let gs: Vec<&GV> = w[3].split(';').map(|x| &t.groups[t.by_kinds[&list(x)]]).collect();
            let reg: Assume<&Registry> = Assume(st.regs[r].as_deref().expect("registry"));
            o.push_str(",\"outs\":[");
            let start = std::sync::Barrier::new(n);
            let outs: Vec<(Result<IterOut, ()>, Result<String, ()>)> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n)
                    .map(|i| {
                        let (g, start) = (gs[i % gs.len()], &start);
                        s.spawn(move || {
                            let reg: &Registry = reg.get();
                            CUR.store(r);
                            start.wait();
                            let mut first: Option<IterOut> = None;
                            let mut last = Err(());
                            for turn in 0..40 {
                                let q = IterReq {
                                    mode: ((i + turn / 20) % 2) as u8,
                                    ent: true,
                                    mutable: false,
                                    pred: Pred::All,
                                };
                                let mut x = match (g.iter_shared)(reg, &q, t) {
                                    Ok(x) => x,
                                    Err(()) => {
                                        last = Err(());
                                        break;
                                    }
                                };
                                // The entities' grouped reads agree with their rows.
                                for (e, v) in &x.rows {
                                    match (g.get)(reg, e.unwrap()) {
                                        Ok(Some(y)) if y == *v => {}
                                        _ => x.ragged = true,
                                    }
                                }
                                x.rows.sort_by_key(|r| r.0.map(|e| e.raw()));
                                let odd = x.ragged || first.as_ref().is_some_and(|f| f.rows != x.rows);
                                if first.is_none() {
                                    first = Some(IterOut { rows: x.rows.clone(), ..IterOut::default() });
                                }
                                last = Ok(x);
                                if odd {
                                    break;
                                }
                            }
                            (last, snapshot(reg, t, usize::MAX))
                        })
                    })
                    .collect();
                hs.into_iter()
                    .map(|h| h.join().unwrap_or((Err(()), Err(()))))
                    .collect()
            });
            for (i, (a, b)) in outs.into_iter().enumerate() {
                let a = match a {
                    Ok(a) => a,
                    Err(()) => {
                        panicked = true;
                        IterOut::default()
                    }
                };
                let b = match b {
                    Ok(b) => b,
                    Err(()) => {
                        panicked = true;
                        ",\"sn\":0".into()
                    }
                };
                let _ = write!(o, "{}{{\"t\":{},\"g\":{}{}{}}}", if i > 0 { "," } else { "" }, i, intsu(gs[i % gs.len()].kinds), rows_json(&a), b);
            }
            o.push(']');
        }
        "mv" => {
            // moves the registry itself to another place in memory
            let x = st.regs[r].take().expect("registry");
            let moved: Registry = *x;
            st.regs[r] = Some(Box::new(moved));
            snap_after = true;
        }
        "snap" => snap_after = true,
        #[cfg(feature = "bulk")]
        "fill" => {
            // fill r kinds n
            let g = &t.groups[t.by_kinds[&list(w[2])]];
            let n: u32 = w[3].parse().unwrap();
            let b = st.bulks.entry(r).or_default();
            let x = call!((g.fill)(st.regs[r].as_deref_mut().unwrap(), n, n, b));
            let x = x.unwrap_or_default();
            let _ = write!(
                o,
                ",\"g\":{},\"n\":{},\"okn\":{},\"refused\":{},\"backok\":{},\"dup\":{}",
                intsu(g.kinds), n, x.ok, x.refused, x.backok as u8, x.dup
            );
        }
        #[cfg(feature = "bulk")]
        "bdestroy" => {
            // bdestroy r stride offset
            let b = st.bulks.entry(r).or_default();
            let (s, off): (usize, usize) = (w[2].parse().unwrap(), w[3].parse().unwrap());
            let x = call!(bulk::destroy(st.regs[r].as_deref_mut().unwrap(), b, s, off)).unwrap_or((0, 0));
            let _ = write!(o, ",\"stride\":{},\"off\":{},\"n\":{},\"okn\":{}", s, off, x.0, x.1);
        }
        #[cfg(feature = "bulk")]
        "cycle" => {
            let g = &t.groups[t.by_kinds[&list(w[2])]];
            let n: u32 = w[3].parse().unwrap();
            let b = st.bulks.entry(r).or_default();
            let x = call!((g.cycle)(st.regs[r].as_deref_mut().unwrap(), n, b)).unwrap_or((0, 0, 0));
            let _ = write!(o, ",\"g\":{},\"n\":{},\"okn\":{},\"okd\":{},\"dup\":{}", intsu(g.kinds), n, x.0, x.1, x.2);
        }
        #[cfg(feature = "bulk")]
        "tcycle" => {
            // tcycle r kinds n : n times an entity is created and taken out again
            let g = &t.groups[t.by_kinds[&list(w[2])]];
            let n: u32 = w[3].parse().unwrap();
            let b = st.bulks.entry(r).or_default();
            let x = call!((g.tcycle)(st.regs[r].as_deref_mut().unwrap(), n, b)).unwrap_or((0, 0, 0));
            let _ = write!(o, ",\"g\":{},\"n\":{},\"okn\":{},\"okd\":{},\"dup\":{}", intsu(g.kinds), n, x.0, x.1, x.2);
        }
        #[cfg(feature = "bulk")]
        "waves" => {
            // waves r kinds m n ord : n times m entities are created and then ended
            let g = &t.groups[t.by_kinds[&list(w[2])]];
            let (m, n, ord): (u32, u32, u32) = (w[3].parse().unwrap(), w[4].parse().unwrap(), w[5].parse().unwrap());
            let b = st.bulks.entry(r).or_default();
            let x = call!((g.waves)(st.regs[r].as_deref_mut().unwrap(), m, n, ord, b)).unwrap_or((0, 0, 0));
            let _ = write!(
                o,
                ",\"g\":{},\"m\":{},\"n\":{},\"ord\":{},\"okn\":{},\"okd\":{},\"dup\":{}",
                intsu(g.kinds), m, n, ord, x.0, x.1, x.2
            );
        }
        #[cfg(feature = "bulk")]
        "spin" => {
            // spin r cohort kind n : n times an entity of the cohort gets a component and loses it
            let (c, k, n): (usize, usize, u32) = (w[2].parse().unwrap(), w[3].parse().unwrap(), w[4].parse().unwrap());
            let b = st.bulks.entry(r).or_default();
            let x = call!(bulk::spin(st.regs[r].as_deref_mut().unwrap(), b, c, &t.kinds[k - 1], n)).unwrap_or_default();
            let _ = write!(o, ",\"c\":{},\"k\":{},\"n\":{},\"okn\":{},\"okd\":{},\"bad\":{}", c + 1, k, n, x.0, x.1, x.2);
        }
        #[cfg(feature = "bulk")]
        "flips" => {
            // flips r kind : the component taken from, or given to, an entity of every cohort and back, in pairs
            let k: u32 = w[2].parse().unwrap();
            let b = st.bulks.entry(r).or_default();
            let x = call!(bulk::flips(st.regs[r].as_deref_mut().unwrap(), b, t, k)).unwrap_or((0, 0, 1));
            let _ = write!(o, ",\"k\":{},\"okn\":{},\"okd\":{},\"bad\":{}", k, x.0, x.1, x.2);
        }
        #[cfg(feature = "bulk")]
        "idle" => {
            // idle r kinds n : n times calls that change nothing
            let g = &t.groups[t.by_kinds[&list(w[2])]];
            let n: u32 = w[3].parse().unwrap();
            let b = st.bulks.entry(r).or_default();
            let x = call!((g.idle)(st.regs[r].as_deref_mut().unwrap(), b, n)).unwrap_or(1);
            let _ = write!(o, ",\"g\":{},\"n\":{},\"bad\":{}", intsu(g.kinds), n, x);
        }
        #[cfg(feature = "bulk")]
        "check" => {
            // check r kinds : all rows of the group through iteration, and the enumeration
            let g = &t.groups[t.by_kinds[&list(w[2])]];
            let b = st.bulks.entry(r).or_default();
            let reg = st.regs[r].as_deref().unwrap();
            let x = call!((g.check)(reg, b)).unwrap_or((0, 1));
            let en = call!(api(|| {
                let mut n = 0u32;
                let mut bad = 0u32;
                let mut seen = vec![false; b.slots()];
                for e in reg.iter_entities() {
                    n += 1;
                    if !b.is_live(e) || std::mem::replace(&mut seen[e.index() as usize], true) {
                        bad += 1;
                    }
                }
                (n, bad)
            }))
            .unwrap_or((0, 1));
            let _ = write!(
                o,
                ",\"g\":{},\"rows\":{},\"bad\":{},\"want\":{},\"en\":{},\"enbad\":{}",
                intsu(g.kinds), x.0, x.1, b.live_in(g.kinds), en.0, en.1
            );
        }
        #[cfg(feature = "bulk")]
        "all" => {
            // all r kinds m : all rows of the group through every kind of iteration, the filter being
            // "at most m components"
            let g = &t.groups[t.by_kinds[&list(w[2])]];
            let m: u32 = w[3].parse().unwrap();
            let b = st.bulks.entry(r).or_default();
            let x = call!((g.all)(st.regs[r].as_deref_mut().unwrap(), b, m)).unwrap_or_default();
            let _ = write!(o, ",\"g\":{},\"m\":{},\"rows\":{},\"bad\":{}", intsu(g.kinds), m, intsu(&x.rows), intsu(&x.bad));
        }
        #[cfg(feature = "bulk")]
        "poke" => {
            // poke r kinds : every component of the group changed and read through references to it
            let g = &t.groups[t.by_kinds[&list(w[2])]];
            let b = st.bulks.entry(r).or_default();
            let x = call!((g.poke)(st.regs[r].as_deref_mut().unwrap(), b, &t.kinds)).unwrap_or(([0; 3], 1));
            let _ = write!(o, ",\"g\":{},\"rows\":{},\"bad\":{}", intsu(g.kinds), intsu(&x.0), x.1);
        }
        #[cfg(feature = "bulk")]
        "race" => {
            // race r turns kinds;kinds;... : a thread for each group reads its components, all at the same time
            let turns: u32 = w[2].parse().unwrap();
            let gs: Vec<&GV> = w[3].split(';').map(|x| &t.groups[t.by_kinds[&list(x)]]).collect();
            let b = st.bulks.entry(r).or_default();
            let x = bulk::race(st.regs[r].as_deref().expect("registry"), b, t, turns, &gs, r);
            let _ = write!(o, ",\"gs\":[{}],\"turns\":{},\"rows\":{},\"bad\":{}",
                gs.iter().map(|g| intsu(g.kinds)).collect::<Vec<_>>().join(","), turns, intsu(&x.0), x.1);
        }
        #[cfg(feature = "bulk")]
        "walk" => {
            // walk r cohort kinds max : depth first through all component sets over kinds that contain
            // the entity's first component, until max sets were visited
            let c: usize = w[2].parse().unwrap();
            let ks = list(w[3]);
            let max: u32 = w[4].parse().unwrap();
            let b = st.bulks.entry(r).or_default();
            let x = call!(bulk::walk(st.regs[r].as_deref_mut().unwrap(), b, c, t, &ks, max)).unwrap_or_default();
            let _ = write!(
                o,
                ",\"c\":{},\"g\":{},\"max\":{},\"visited\":{},\"refused\":{},\"bad\":{}",
                c + 1, intsu(&ks), max, x.visited, x.refused, x.bad
            );
        }
        #[cfg(feature = "bulk")]
        "badd" | "brmc" => {
            // badd r cohort kind
            let (c, k): (usize, usize) = (w[2].parse().unwrap(), w[3].parse().unwrap());
            let b = st.bulks.entry(r).or_default();
            let kv = &t.kinds[k - 1];
            let x = call!(bulk::change(st.regs[r].as_deref_mut().unwrap(), b, c, kv, op == "badd")).unwrap_or_default();
            let _ = write!(o, ",\"c\":{},\"k\":{},\"n\":{},\"okn\":{},\"refused\":{},\"bad\":{}", c + 1, k, x.0, x.1, x.2, x.3);
        }
        #[cfg(feature = "bulk")]
        "btake" => {
            // btake r cohort kinds
            let c: usize = w[2].parse().unwrap();
            let g = &t.groups[t.by_kinds[&list(w[3])]];
            let b = st.bulks.entry(r).or_default();
            let x = call!((g.take)(st.regs[r].as_deref_mut().unwrap(), b, c)).unwrap_or_default();
            let _ = write!(o, ",\"c\":{},\"g\":{},\"n\":{},\"okn\":{},\"bad\":{}", c + 1, intsu(g.kinds), x.0, x.1, x.2);
        }
        _ => panic!("unknown operation {op}"),
    }
    if snap_after && st.snap_auto && !panicked {
        if let Some(x) = st.regs[r].as_deref() {
            match snapshot(x, t, st.snap_max) {
                Ok(s) => o.push_str(&s),
                Err(()) => {
                    panicked = true;
                    o.push_str(",\"sn\":0")
                }
            }
        } else {
            o.push_str(",\"sn\":0");
        }
    } else if snap_after {
        o.push_str(",\"sn\":0");
    }
    if panicked {
        st.dead = true;
    }
    #[cfg(feature = "bulk")]
    {
        let mut en = 0u32;
        if let (Some(x), false) = (st.regs[r].as_deref(), panicked) {
            match api(|| x.iter_entities().count()) {
                Ok(n) => en = n as u32,
                Err(()) => {
                    panicked = true;
                    st.dead = true
                }
            }
        }
        let _ = write!(o, ",\"alive\":{en},\"mem\":{}", BYTES[r].load(SeqCst).max(0) / 1024);
        o.push_str(",\"dropc\":[");
        let mut first = true;
        for (k, c) in DROPCOUNT[r].iter().enumerate() {
            let n = c.swap(0, SeqCst);
            if n > 0 {
                let _ = write!(o, "{}[{},{}]", if first { "" } else { "," }, k, n);
                first = false;
            }
        }
        o.push(']');
    }
    let d = take_drops(r);
    o.push_str(",\"drops\":[");
    for (i, (k, v)) in d.iter().enumerate() {
        let _ = write!(o, "{}[{},{}]", if i > 0 { "," } else { "" }, k, v);
    }
    let mut f = take_faults();
    f.extend(std::mem::take(&mut *REFFAULTS.lock().unwrap_or_else(|e| e.into_inner())));
    o.push_str("],\"faults\":[");
    for (i, x) in f.iter().enumerate() {
        let _ = write!(o, "{}\"{}\"", if i > 0 { "," } else { "" }, x);
    }
    let _ = write!(o, "],\"panic\":{}", panicked as u8);
    Some(o)
}

/// The lines of a block, each registry's on a thread of its own, all at the same time.  What one registry
/// does cannot depend on another, so the events are recorded registry after registry.
fn concurrently(st: &mut State, t: &Tables, q: Vec<(usize, Vec<&str>)>, intent: &std::fs::File) -> Vec<String> {
    if st.dead {
        return vec![];
    }
    let mut by: Vec<(usize, Vec<(usize, Vec<&str>)>)> = vec![];
    for (ln, w) in q {
        let r: usize = w[1].parse().unwrap();
        match by.iter_mut().find(|x| x.0 == r) {
            Some(x) => x.1.push((ln, w)),
            None => by.push((r, vec![(ln, w)])),
        }
    }
    let gate = std::sync::Barrier::new(by.len());
    let gate = &gate;
    let parts: Vec<(usize, Assume<State>, Vec<String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = by
            .into_iter()
            .map(|(r, q)| {
                let mut own = State {
                    regs: (0..MAXR).map(|_| None).collect(),
                    #[cfg(feature = "bulk")]
                    bulks: HashMap::new(),
                    labels: st.labels.clone(),
                    dead: false,
                    lost: vec![],
                    snap_auto: st.snap_auto,
                    snap_max: st.snap_max,
                };
                own.regs[r] = st.regs[r].take();
                #[cfg(feature = "bulk")]
                if let Some(b) = st.bulks.remove(&r) {
                    own.bulks.insert(r, b);
                }
                let own = Assume(own);
                s.spawn(move || {
                    let mut own = own.get();
                    let mut out = vec![];
                    gate.wait();
                    for (ln, w) in q {
                        if own.dead {
                            break;
                        }
                        intent.write_at(format!("{:10}\n", ln + 1).as_bytes(), 0).unwrap();
                        if let Some(mut e) = exec(&mut own, t, &w) {
                            e.insert(0, '{');
                            let _ = writeln!(e, ",\"th\":1,\"ln\":{}}}", ln + 1);
                            out.push(e);
                        }
                    }
                    (r, Assume(own), out)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut out = vec![];
    for (r, own, mut e) in parts {
        let mut own = own.get();
        st.regs[r] = own.regs[r].take();
        #[cfg(feature = "bulk")]
        if let Some(b) = own.bulks.remove(&r) {
            st.bulks.insert(r, b);
        }
        for (l, e) in own.labels {
            st.labels.entry(l).or_insert(e);
        }
        st.dead |= own.dead;
        out.append(&mut e);
    }
    out
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let script = std::fs::read_to_string(&a[1]).unwrap();
    let out = std::fs::File::create(&a[2]).unwrap();
    let intent = std::fs::File::create(&a[3]).unwrap();
    let t = tables();
    let mut st = State {
        regs: (0..MAXR).map(|_| None).collect(),
        #[cfg(feature = "bulk")]
        bulks: HashMap::new(),
        labels: HashMap::new(),
        dead: false,
        lost: vec![],
        snap_auto: true,
        snap_max: usize::MAX,
    };
    let mut o = String::from("{\"op\":\"header\",\"kinds\":[");
    for (i, k) in t.kinds.iter().enumerate() {
        let _ = write!(o, "{}[{},{},{},{}]", if i > 0 { "," } else { "" }, k.k, k.dom, k.drops as u8, k.size);
    }
    o.push_str("]}\n");
    (&out).write_all(o.as_bytes()).unwrap();
    let mut forked: Option<Vec<(usize, Vec<&str>)>> = None;
    let (mut child, mut skip) = (false, false);
    for (ln, line) in script.lines().chain(["join"]).enumerate() {
        let mut w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with("//") {
            continue;
        }
        if w[0] == "endbranch" {
            if child {
                unsafe { _exit(0) };
            }
            skip = false;
            (&out).write_all(b"{\"op\":\"endbranch\"}\n").unwrap();
            continue;
        }
        if skip {
            continue;
        }
        if w[0] == "branch" {
            // What follows, up to endbranch, happens in a copy of this process.
            (&out).write_all(b"{\"op\":\"branch\"}\n").unwrap();
            let mut status = 0;
            unsafe {
                match fork() {
                    -1 => panic!("fork"),
                    0 => child = true,
                    p => {
                        assert_eq!(waitpid(p, &mut status, 0), p);
                        skip = true;
                    }
                }
            }
            if status != 0 {
                let at: usize = std::fs::read_to_string(&a[3]).unwrap().split_whitespace().next().unwrap().parse().unwrap_or(0);
                assert!(status != 3 << 8, "rejected by the copy");
                // The standard library ends the process when one of its own requests for memory is refused.
                let aborted = status & 127 == 6 && script.lines().nth(at - 1).is_some_and(|l| l.starts_with("oom"));
                let _ = writeln!(&out, "{{\"op\":\"{}\",\"ln\":{}}}", if aborted { "aborted" } else { "crash" }, at);
            }
            continue;
        }
        if w[0] == "fork" {
            forked = Some(vec![]);
            continue;
        }
        if w[0] == "join" {
            if let Some(q) = forked.take() {
                for e in concurrently(&mut st, &t, q, &intent) {
                    (&out).write_all(e.as_bytes()).unwrap();
                }
            }
            continue;
        }
        if let Some(q) = &mut forked {
            q.push((ln, w));
            continue;
        }
        match w[0] {
            "reset" => {
                for r in st.regs.iter_mut() {
                    if let Some(x) = r.take() {
                        std::mem::forget(x);
                    }
                }
                for l in LIVE.iter().chain(BYTES.iter()) {
                    l.store(0, SeqCst);
                }
                take_faults();
                st.labels.clear();
                st.lost.clear();
                #[cfg(feature = "bulk")]
                st.bulks.clear();
                st.dead = false;
                (&out).write_all(b"{\"op\":\"reset\"}\n").unwrap();
                continue;
            }
            "snapauto" => {
                st.snap_auto = w[1] == "1";
                if w.len() > 2 {
                    st.snap_max = w[2].parse().unwrap();
                }
                continue;
            }
            "table" => {
                TABLE_ON.store(w[1] == "1", SeqCst);
                continue;
            }
            "fast" => {
                FAST.store(w[1] == "1", SeqCst);
                continue;
            }
            _ => {}
        }
        if st.dead {
            continue;
        }
        intent
            .write_at(format!("{:10}\n", ln + 1).as_bytes(), 0)
            .unwrap();
        let other = w[0] == "@";
        if other {
            w.remove(0);
        }
        let ev = if other {
            let (st, t, w) = (Assume(&mut st), &t, &w);
            std::thread::scope(|s| s.spawn(move || exec(st.get(), t, w)).join().unwrap())
        } else {
            exec(&mut st, &t, &w)
        };
        if let Some(mut e) = ev {
            e.insert(0, '{');
            let _ = writeln!(e, ",\"th\":{},\"ln\":{}}}", other as u8, ln + 1);
            (&out).write_all(e.as_bytes()).unwrap();
        }
    }
    intent.write_at(b"      done\n", 0).unwrap();
    // Registries still alive are not part of any history.
    std::process::exit(0);
}
