//! Identities of component types: hashes, declared names, the derive.
#[path = "../../common.rs"]
mod common;
use common::*;
use shard_ecs::fnv1a::*;
use shard_ecs::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

fn b(x: &str) -> String {
    js(x.as_bytes())
}
fn h32(v: u32) -> String {
    format!("[{},{}]", v >> 16, v & 0xFFFF)
}
fn h64(v: u64) -> String {
    format!("[{},{},{},{}]", v >> 48, v >> 32 & 0xFFFF, v >> 16 & 0xFFFF, v & 0xFFFF)
}

/// Types that only declare a name.
mod declared {
    use super::*;
    macro_rules! declared {
        ($($t:ident $n:expr),* $(,)?) => {
            $( pub struct $t; impl Component for $t { const NAME: &'static str = $n; } )*
            pub fn all() -> Vec<String> {
                // evaluated at compile time, and once more now
                vec![$( {
                    const ID: u16 = <$t as Component>::ID.into_u16();
                    format!(",\"name\":{},\"own\":{},\"id\":{},\"did\":{},\"now\":{}", b($t::NAME), b($n), ID,
                        <$t as Component>::DESCRIPTOR.component_type_id().into_u16(), fnv1a_hash_str_16_xor($t::NAME))
                } ),*]
            }
        };
    }
    declared!(D0 "", D1 "a", D2 "b", D3 "ab", D4 "ba", D5 "A", D6 "Position", D7 "position", D8 "crate::Position", D9 "Position ",
        D10 "\0", D11 "\0\0", D12 "Größe", D13 "日本語", D14 "x\u{10FFFF}y", D15 "foobar", D16 "Velocity<f32>",
        D17 "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
        D18 "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab",
        D19 "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb", D20 "a.rather.long.name::with::many::segments::and::a::tail::0123456789::0123456789::0123456789",
        D21 concat!("Health", "Points"), D22 "12345678", D23 "123456789", D24 "1234567", D25 "1234567890123456", D26 "12345678901234567",
        D27 include_str!("main.rs"));
    // Declared and overridden.
    pub struct O;
    impl Component for O {
        const NAME: &'static str = "Position";
        const ID: ComponentTypeId = ComponentTypeId::from_u16(4242);
    }
}

static DROPS: AtomicU32 = AtomicU32::new(0);
/// What a type's life in the registry looks like.
pub trait Mk: Component {
    fn mk() -> Self;
}
pub struct Other(#[allow(dead_code)] u64);
impl Component for Other {
    const NAME: &'static str = "names::Other";
}
fn life<C: Mk>() -> String {
    let mut log = vec![];
    DROPS.store(0, SeqCst);
    let mut r = Registry::default();
    let mut note = |x: usize| log.push(x as u32);
    let e = r.create_entity(C::mk()).ok().unwrap();
    let f = r.create_entity((Other(1), C::mk())).ok().unwrap();
    let g = r.create_entity(Other(2)).ok().unwrap();
    note(r.has_component::<C>(e) as usize);
    note(r.has_component::<C>(g) as usize);
    note(r.get_component::<C>(f).map_or(99, |_| 1));
    note(r.add_component::<C>(g, C::mk()).is_ok() as usize);
    note(r.has_component::<C>(g) as usize);
    note(r.remove_component::<C>(f).is_ok() as usize);
    note(r.has_component::<C>(f) as usize);
    note(DROPS.load(SeqCst) as usize);
    note(r.iter_components_matching::<C>().map(|s| s.len()).sum());
    note(r.destroy_entity(g) as usize);
    note(DROPS.load(SeqCst) as usize);
    drop(r);
    note(DROPS.load(SeqCst) as usize);
    js(&log)
}

macro_rules! twins {
    ($(a: $own:literal, $ty:ty, $hand:ident),* $(,)?) => {
        $(
            impl Mk for hand::$hand { fn mk() -> Self { Self(<$ty as Mk>::mk()) } }
            impl Component for hand::$hand { const NAME: &'static str = $own; }
        )*
        mod hand {
            // The twin has the same contents, and is declared by hand.
            use super::*;
            $( pub struct $hand(#[allow(dead_code)] pub $ty); )*
        }
        fn derived() -> Vec<String> {
            vec![$( {
                const ID: u16 = <$ty as Component>::ID.into_u16();
                let (x, y) = (<$ty as Component>::DESCRIPTOR, <hand::$hand as Component>::DESCRIPTOR);
                format!(",\"name\":{},\"own\":{},\"id\":{},\"did\":{},\"now\":{},\"hid\":{},\"shape\":[{},{}],\"hshape\":[{},{}],\"life\":{},\"hlife\":{}",
                    b(<$ty as Component>::NAME), b($own), ID, x.component_type_id().into_u16(),
                    fnv1a_hash_str_16_xor(<$ty as Component>::NAME), y.component_type_id().into_u16(),
                    x.size(), x.align(), y.size(), y.align(), life::<$ty>(), life::<hand::$hand>())
            } ),*]
        }
    };
}
mod shapes;
use shapes::*;
twins! {
    a: "Unit", Unit, H1, a: "Tuple", Tuple, H2, a: "Named", Named, H3, a: "Empty", Empty, H4, a: "Choice", Choice, H5,
    a: "Either", Either, H6, a: "X", X, H7, a: "lower_case_name", lower_case_name, H8,
    a: "ATypeWithARatherLongNameThatGoesOnForMoreThanSixtyFourCharactersInAllAndThenSome",
    ATypeWithARatherLongNameThatGoesOnForMoreThanSixtyFourCharactersInAllAndThenSome, H9,
    a: "Größe", Größe, H10, a: "_Under_9", _Under_9, H11, a: "Aligned", Aligned, H12, a: "Packed", Packed, H13,
    a: "WithOthers", WithOthers, H14, a: "Generic", Generic<u32>, H15, a: "Generic", Generic<String>, H16,
    a: "Whered", Whered<u8>, H17, a: "Sized_", Sized_<3>, H18, a: "Both", Both<u16, 5>, H19, a: "Defaulted", Defaulted, H20,
    a: "Nested", inner::Nested, H21, a: "Unit", inner::Unit, H22, a: "MadeByMacro", MadeByMacro, H23,
}

fn main() {
    run("", |w| match w[0] {
        "reset" => String::new(),
        // hash hex limit
        "hash" => {
            let bytes: Vec<u8> = match w[1] {
                "-" => vec![],
                h => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or_else(|_| bad(h))).collect(),
            };
            let limit: Option<usize> = match w[2] {
                "-" => None,
                "max" => Some(usize::MAX),
                x => Some(num(x) as usize),
            };
            let (a, c, d) = (fnv1a_hash_32(&bytes, limit), fnv1a_hash_64(&bytes, limit), fnv1a_hash_16_xor(&bytes, limit));
            let s = match std::str::from_utf8(&bytes) {
                Ok(s) => format!("[{},{},{}]", h32(fnv1a_hash_str_32(s)), h64(fnv1a_hash_str_64(s)), fnv1a_hash_str_16_xor(s)),
                Err(_) => "[]".into(),
            };
            let lim = match limit {
                None => -1,
                Some(usize::MAX) => 1000000000,
                Some(x) => x as i64,
            };
            format!(",\"bytes\":{},\"limit\":{},\"h32\":{},\"h64\":{},\"h16\":{},\"str\":{}", js(&bytes), lim, h32(a), h64(c), d, s)
        }
        "declared" => {
            let v = declared::all();
            v[num(w[1]) as usize % v.len()].clone()
        }
        "overridden" => {
            use declared::O;
            format!(",\"name\":{},\"own\":{},\"id\":{},\"did\":{},\"want\":4242", b(O::NAME), b("Position"), O::ID.into_u16(),
                <O as Component>::DESCRIPTOR.component_type_id().into_u16())
        }
        "derived" => {
            let v = derived();
            v[num(w[1]) as usize % v.len()].clone()
        }
        x => bad(x),
    });
}
