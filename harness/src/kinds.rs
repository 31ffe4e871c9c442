//! The component kinds of the harness.  A component is built from a token and decodes back to it;
//! a value that is not one the harness built decodes to -1.
use shard_ecs::{Component, ComponentTypeId};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, Ordering::SeqCst};
use std::sync::Mutex;

pub trait K: Component {
    const K: u32;
    const DOM: u32;
    const DROPS: bool;
    fn mk(tok: u32) -> Self;
    fn tok(&self) -> i64;
    fn set(&mut self, tok: u32);
}

/// Values dropped by the registry while it runs.
pub static DROPLOG: Mutex<Vec<(usize, u32, i64)>> = Mutex::new(Vec::new());
/// Takes the recorded drops that happened in calls on registry r.
pub fn take_drops(r: usize) -> Vec<(u32, i64)> {
    let mut l = DROPLOG.lock().unwrap_or_else(|e| e.into_inner());
    let v = l.iter().filter(|x| x.0 == r).map(|x| (x.1, x.2)).collect();
    l.retain(|x| x.0 != r);
    v
}
#[allow(clippy::declare_interior_mutable_const)]
const ZC: AtomicU32 = AtomicU32::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const ZR: [AtomicU32; 64] = [ZC; 64];
/// Number of drops per registry and kind.
pub static DROPCOUNT: [[AtomicU32; 64]; 64] = [ZR; 64];
pub static BOMB_ON: AtomicBool = AtomicBool::new(false);
pub static BOMB_K: AtomicU32 = AtomicU32::new(0);
pub static BOMB_T: AtomicI64 = AtomicI64::new(0);

fn dropped(k: u32, tok: i64) {
    if crate::alloc::IN_API.swap(false) {
        if cfg!(feature = "bulk") {
            // Very many drops: count them per kind (slot 0: values that are none of the harness's).
            DROPCOUNT[crate::alloc::CUR.load()][if tok < 0 { 0 } else { k as usize }].fetch_add(1, SeqCst);
        } else {
            DROPLOG.lock().unwrap_or_else(|e| e.into_inner()).push((crate::alloc::CUR.load(), k, tok));
        }
        let blow = BOMB_ON.load(SeqCst)
            && BOMB_K.load(SeqCst) == k
            && BOMB_T.load(SeqCst) == tok
            && !std::thread::panicking();
        crate::alloc::IN_API.store(true);
        if blow {
            BOMB_ON.store(false, SeqCst);
            panic!("bomb");
        }
    }
}

pub const BIG: u32 = 1 << 30;
const MUL: u64 = 0x9E37_79B9_7F4A_7C15;
fn enc(tok: u32) -> u64 {
    (tok as u64 ^ 0x2545_F491).wrapping_mul(MUL)
}
fn dec(v: u64) -> i64 {
    // inverse of MUL modulo 2^64
    let mut inv: u64 = 1;
    let mut i = 0;
    while i < 6 {
        inv = inv.wrapping_mul(2u64.wrapping_sub(MUL.wrapping_mul(inv)));
        i += 1;
    }
    let t = v.wrapping_mul(inv) ^ 0x2545_F491;
    if t < BIG as u64 {
        t as i64
    } else {
        -1
    }
}

macro_rules! dropper {
    ($t:ty) => {
        impl Drop for $t {
            fn drop(&mut self) {
                dropped(<$t as K>::K, self.tok());
            }
        }
    };
}

// 1: eight bytes, identity from the name.
pub struct A(u64);
impl Component for A {
    const NAME: &'static str = "harness::A";
}
impl K for A {
    const K: u32 = 1;
    const DOM: u32 = BIG;
    const DROPS: bool = true;
    fn mk(t: u32) -> Self {
        A(enc(t))
    }
    fn tok(&self) -> i64 {
        dec(self.0)
    }
    fn set(&mut self, t: u32) {
        self.0 = enc(t)
    }
}
dropper!(A);

// 2: one byte.
pub struct B(u8);
impl Component for B {
    const NAME: &'static str = "harness::B";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(256);
}
impl K for B {
    const K: u32 = 2;
    const DOM: u32 = 256;
    const DROPS: bool = true;
    fn mk(t: u32) -> Self {
        B((t as u8).wrapping_mul(77).wrapping_add(13))
    }
    fn tok(&self) -> i64 {
        self.0.wrapping_sub(13).wrapping_mul(133) as i64
    }
    fn set(&mut self, t: u32) {
        *(&mut self.0) = (t as u8).wrapping_mul(77).wrapping_add(13)
    }
}
dropper!(B);

// 3: no size.
pub struct Z;
impl Component for Z {
    const NAME: &'static str = "harness::Z";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(0);
}
impl K for Z {
    const K: u32 = 3;
    const DOM: u32 = 1;
    const DROPS: bool = true;
    fn mk(_: u32) -> Self {
        Z
    }
    fn tok(&self) -> i64 {
        0
    }
    fn set(&mut self, _: u32) {}
}
dropper!(Z);

// 4: cache-line aligned.
#[repr(align(64))]
pub struct L([u64; 8]);
impl Component for L {
    const NAME: &'static str = "harness::L";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(255);
}
impl K for L {
    const K: u32 = 4;
    const DOM: u32 = BIG;
    const DROPS: bool = true;
    fn mk(t: u32) -> Self {
        L([enc(t); 8])
    }
    fn tok(&self) -> i64 {
        if self.0.iter().any(|v| *v != self.0[0]) {
            return -1;
        }
        dec(self.0[0])
    }
    fn set(&mut self, t: u32) {
        self.0 = [enc(t); 8]
    }
}
dropper!(L);

// 5: owns heap memory.
pub struct H(Box<u64>);
impl Component for H {
    const NAME: &'static str = "harness::H";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(0x0102);
}
impl K for H {
    const K: u32 = 5;
    const DOM: u32 = BIG;
    const DROPS: bool = true;
    fn mk(t: u32) -> Self {
        H(Box::new(enc(t)))
    }
    fn tok(&self) -> i64 {
        let p = &*self.0 as *const u64 as usize;
        // The memory fill patterns are no addresses: do not follow them.
        if p == 0xA5A5_A5A5_A5A5_A5A5 || p == 0xDDDD_DDDD_DDDD_DDDD || p < 4096 {
            return -1;
        }
        dec(*self.0)
    }
    fn set(&mut self, t: u32) {
        *self.0 = enc(t)
    }
}
dropper!(H);

// 6: three bytes, nothing to drop.
pub struct P([u8; 3]);
impl Component for P {
    const NAME: &'static str = "harness::P";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(0xFFFE);
}
impl K for P {
    const K: u32 = 6;
    const DOM: u32 = 1 << 23;
    const DROPS: bool = false;
    fn mk(t: u32) -> Self {
        let b = (t ^ 0x800000).to_be_bytes();
        P([b[1], b[2], b[3]])
    }
    fn tok(&self) -> i64 {
        let v = u32::from_be_bytes([0, self.0[0], self.0[1], self.0[2]]) ^ 0x800000;
        if v < Self::DOM {
            v as i64
        } else {
            -1
        }
    }
    fn set(&mut self, t: u32) {
        *self = P::mk(t)
    }
}

// 7: large.
pub struct X([u16; 2500]);
impl Component for X {
    const NAME: &'static str = "harness::X";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(0x0201);
}
impl K for X {
    const K: u32 = 7;
    const DOM: u32 = 65536;
    const DROPS: bool = true;
    fn mk(t: u32) -> Self {
        let mut a = [0; 2500];
        for (i, e) in a.iter_mut().enumerate() {
            *e = (t as u16) ^ (i as u16).wrapping_mul(31);
        }
        X(a)
    }
    fn tok(&self) -> i64 {
        let t = self.0[0];
        for (i, e) in self.0.iter().enumerate() {
            if *e != t ^ (i as u16).wrapping_mul(31) {
                return -1;
            }
        }
        t as i64
    }
    fn set(&mut self, t: u32) {
        for (i, e) in self.0.iter_mut().enumerate() {
            *e = (t as u16) ^ (i as u16).wrapping_mul(31);
        }
    }
}
impl Drop for X {
    fn drop(&mut self) {
        dropped(Self::K, self.tok());
    }
}

// 8..=14 and 25..=33: every kind a size and alignment of its own, every byte checked; with a destructor.
macro_rules! shaped {
    ($($t:ident $k:literal $id:literal $a:literal $n:literal),*) => { $(
        #[repr(C, align($a))]
        pub struct $t([u8; $n]);
        impl Component for $t {
            const NAME: &'static str = stringify!($t);
            const ID: ComponentTypeId = ComponentTypeId::from_u16($id);
        }
        impl K for $t {
            const K: u32 = $k;
            const DOM: u32 = 1 << 20;
            const DROPS: bool = true;
            fn mk(t: u32) -> Self {
                let mut b = [0u8; $n];
                fill(&mut b, t, $k);
                $t(b)
            }
            fn tok(&self) -> i64 {
                let b = &self.0;
                let t = u32::from_le_bytes([b[0], b[1], b[2], 0]) ^ ($k * 0x010203);
                let mut w = [0u8; $n];
                fill(&mut w, t, $k);
                if t < Self::DOM && w == *b { t as i64 } else { -1 }
            }
            fn set(&mut self, t: u32) { fill(&mut self.0, t, $k) }
        }
        dropper!($t);
    )* };
}
fn fill(b: &mut [u8], t: u32, k: u32) {
    let v = (t ^ (k * 0x010203)).to_le_bytes();
    b[..3].copy_from_slice(&v[..3]);
    let mut x = v[0] ^ v[1].wrapping_mul(3) ^ v[2].wrapping_mul(5);
    for e in b[3..].iter_mut() {
        x = x.wrapping_mul(5).wrapping_add(k as u8);
        *e = x;
    }
}
macro_rules! plain {
    ($($t:ident $k:literal $id:literal),*) => { $(
        pub struct $t(u16);
        impl Component for $t {
            const NAME: &'static str = stringify!($t);
            const ID: ComponentTypeId = ComponentTypeId::from_u16($id);
        }
        impl K for $t {
            const K: u32 = $k;
            const DOM: u32 = 2048;
            const DROPS: bool = false;
            fn mk(t: u32) -> Self { $t((t as u16) | ($k << 11)) }
            fn tok(&self) -> i64 {
                if self.0 >> 11 == $k { (self.0 & 0x7FF) as i64 } else { -1 }
            }
            fn set(&mut self, t: u32) { self.0 = (t as u16) | ($k << 11) }
        }
    )* };
}
shaped!(N8 8 0x00FE 1 5, N9 9 0x8000 4 12, N10 10 0x7FFF 16 16, N11 11 1 2 6, N12 12 0xFF00 8 24, N13 13 0x0101 1 7,
    N14 14 0x0103 2 10,
    // {25,26} and {27,28} have the same hash; that of {29,30} is 0; that of {31,32,33} is u32::MAX.
    N25 25 15209 1 33, N26 26 44555 32 32, N27 27 11349 4 20, N28 28 47037 128 128, N29 29 9420 8 40, N30 30 50225 2 14,
    N31 31 23943 4 4, N32 32 24574 1 11, N33 33 55080 32768 32768);
plain!(N15 15 2, N16 16 0xFF01, N17 17 0x1234, N18 18 0x3412, N19 19 0x00FD, N20 20 0x0200,
       N21 21 0x0080, N22 22 0x8001, N23 23 0x0FF0, N24 24 0xF00F);
