//! Component groups of the harness: conversion of the tuples the registry hands out into tokens,
//! together with checks on every reference (alignment, containment in live storage, overlap).
use crate::kinds::*;
use shard_ecs::ComponentGroup;
use std::sync::Mutex;

/// Faults of references, reported with the event at hand.
pub static REFFAULTS: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
pub fn reffault(s: &'static str) {
    let mut v = REFFAULTS.lock().unwrap_or_else(|e| e.into_inner());
    if !v.contains(&s) {
        v.push(s);
    }
}

/// Byte ranges of the mutable references obtained together.
pub type Ranges = Vec<(usize, usize)>;

pub fn check_ptr<T>(p: *const T, n: usize) -> bool {
    if (p as usize) % core::mem::align_of::<T>() != 0 || p.is_null() {
        reffault("align");
        return false;
    }
    let bytes = n * core::mem::size_of::<T>();
    if bytes > 0 && !crate::alloc::inside(p as usize, bytes) {
        reffault("outside");
        return false;
    }
    true
}

fn note<T>(r: &mut Ranges, p: *const T, n: usize) {
    let bytes = n * core::mem::size_of::<T>();
    if bytes == 0 {
        return;
    }
    let (s, e) = (p as usize, p as usize + bytes);
    if r.iter().any(|&(a, b)| s < b && a < e) {
        reffault("overlap");
    }
    r.push((s, e));
}

pub fn rd<C: K>(c: &C) -> i64 {
    if check_ptr(c as *const C, 1) {
        c.tok()
    } else {
        -1
    }
}
fn rdm<C: K>(c: &mut C, new: Option<u32>, r: &mut Ranges) -> i64 {
    if !check_ptr(c as *const C, 1) {
        return -1;
    }
    note(r, c, 1);
    let t = c.tok();
    if let (Some(n), true) = (new, t >= 0) {
        c.set(n);
    }
    t
}
/// The number of elements of a slice that may be read.
fn sl<C: K>(s: &[C]) -> Vec<i64> {
    if s.is_empty() || check_ptr(s.as_ptr(), s.len()) {
        s.iter().map(|c| c.tok()).collect()
    } else {
        vec![-1; s.len()]
    }
}
fn slm<C: K>(s: &mut [C], w: bool, r: &mut Ranges) -> Vec<i64> {
    if s.is_empty() {
        return vec![];
    }
    if !check_ptr(s.as_ptr(), s.len()) {
        return vec![-1; s.len()];
    }
    note(r, s.as_ptr(), s.len());
    s.iter_mut()
        .map(|c| {
            let t = c.tok();
            if w && t >= 0 {
                c.set(((t + 1) % C::DOM as i64) as u32);
            }
            t
        })
        .collect()
}

pub trait Grp: ComponentGroup {
    const KINDS: &'static [u32];
    /// Whether the iterators of this group are used in every way.
    const WAYS: bool = Self::KINDS[0] == 2 || Self::KINDS.len() == 1 && Self::KINDS[0] < 16;
    fn mk(t: &[u32]) -> Self;
    fn toks(&self) -> Vec<i64>;
    fn refs<'a>(r: Self::RefTuple<'a>) -> Vec<i64>
    where
        Self: 'a;
    fn muts<'a>(r: Self::MutRefTuple<'a>, new: Option<&[u32]>, rs: &mut Ranges) -> Vec<i64>
    where
        Self: 'a;
    /// One column per component.
    fn slices<'a>(r: Self::SliceRefTuple<'a>) -> Vec<Vec<i64>>
    where
        Self: 'a;
    fn slices_mut<'a>(r: Self::SliceMutRefTuple<'a>, w: bool, rs: &mut Ranges) -> Vec<Vec<i64>>
    where
        Self: 'a;
}

#[macro_export]
macro_rules! grp1 {
    ($t:ident) => {
        impl Grp for $t {
            const KINDS: &'static [u32] = &[<$t as K>::K];
            fn mk(t: &[u32]) -> Self {
                <$t as K>::mk(t[0])
            }
            fn toks(&self) -> Vec<i64> {
                vec![K::tok(self)]
            }
            fn refs<'a>(r: Self::RefTuple<'a>) -> Vec<i64> where Self: 'a {
                vec![rd(r)]
            }
            fn muts<'a>(r: Self::MutRefTuple<'a>, new: Option<&[u32]>, rs: &mut Ranges) -> Vec<i64> where Self: 'a {
                vec![rdm(r, new.map(|n| n[0]), rs)]
            }
            fn slices<'a>(r: Self::SliceRefTuple<'a>) -> Vec<Vec<i64>> where Self: 'a {
                vec![sl(r)]
            }
            fn slices_mut<'a>(r: Self::SliceMutRefTuple<'a>, w: bool, rs: &mut Ranges) -> Vec<Vec<i64>> where Self: 'a {
                vec![slm(r, w, rs)]
            }
        }
    };
}
#[macro_export]
macro_rules! grpn {
    ($($t:ident $i:tt),+) => {
        impl Grp for ($($t),+) {
            const KINDS: &'static [u32] = &[$(<$t as K>::K),+];
            fn mk(t: &[u32]) -> Self { ($(<$t as K>::mk(t[$i])),+) }
            fn toks(&self) -> Vec<i64> { vec![$(K::tok(&self.$i)),+] }
            fn refs<'a>(r: Self::RefTuple<'a>) -> Vec<i64> where Self: 'a { vec![$(rd(r.$i)),+] }
            fn muts<'a>(r: Self::MutRefTuple<'a>, new: Option<&[u32]>, rs: &mut Ranges) -> Vec<i64> where Self: 'a {
                vec![$(rdm(r.$i, new.map(|n| n[$i]), rs)),+]
            }
            fn slices<'a>(r: Self::SliceRefTuple<'a>) -> Vec<Vec<i64>> where Self: 'a { vec![$(sl(r.$i)),+] }
            fn slices_mut<'a>(r: Self::SliceMutRefTuple<'a>, w: bool, rs: &mut Ranges) -> Vec<Vec<i64>> where Self: 'a {
                vec![$(slm(r.$i, w, rs)),+]
            }
        }
    };
}

#[cfg(not(feature = "bulk"))]
include!("groups.rs");
#[cfg(feature = "bulk")]
include!("groups_bulk.rs");
