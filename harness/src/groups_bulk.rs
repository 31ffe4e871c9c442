// Generated by tools/gen_groups.py.
grp1!(A);
grp1!(B);
grp1!(Z);
grp1!(L);
grp1!(H);
grp1!(P);
grp1!(X);
grp1!(N8);
grp1!(N9);
grp1!(N10);
grp1!(N11);
grp1!(N12);
grp1!(N13);
grp1!(N14);
grp1!(N15);
grp1!(N16);
grp1!(N17);
grp1!(N18);
grp1!(N19);
grp1!(N20);
grp1!(N21);
grp1!(N22);
grp1!(N23);
grp1!(N24);
grp1!(N25);
grp1!(N26);
grp1!(N27);
grp1!(N28);
grp1!(N29);
grp1!(N30);
grp1!(N31);
grp1!(N32);
grp1!(N33);
grpn!(A 0, B 1);
grpn!(B 0, A 1);
grpn!(B 0, Z 1);
grpn!(Z 0, B 1);
grpn!(Z 0, N15 1);
grpn!(N15 0, N16 1);
grpn!(N16 0, N15 1);
grpn!(N15 0, Z 1, N16 2);
grpn!(A 0, B 1, Z 2);
grpn!(P 0, N8 1);
grpn!(H 0, B 1);
pub fn visit<V: Visitor>(v: &mut V) {
    v.visit::<A>();
    v.visit::<B>();
    v.visit::<Z>();
    v.visit::<L>();
    v.visit::<H>();
    v.visit::<P>();
    v.visit::<X>();
    v.visit::<N8>();
    v.visit::<N9>();
    v.visit::<N10>();
    v.visit::<N11>();
    v.visit::<N12>();
    v.visit::<N13>();
    v.visit::<N14>();
    v.visit::<N15>();
    v.visit::<N16>();
    v.visit::<N17>();
    v.visit::<N18>();
    v.visit::<N19>();
    v.visit::<N20>();
    v.visit::<N21>();
    v.visit::<N22>();
    v.visit::<N23>();
    v.visit::<N24>();
    v.visit::<N25>();
    v.visit::<N26>();
    v.visit::<N27>();
    v.visit::<N28>();
    v.visit::<N29>();
    v.visit::<N30>();
    v.visit::<N31>();
    v.visit::<N32>();
    v.visit::<N33>();
    v.visit::<(A, B)>();
    v.visit::<(B, A)>();
    v.visit::<(B, Z)>();
    v.visit::<(Z, B)>();
    v.visit::<(Z, N15)>();
    v.visit::<(N15, N16)>();
    v.visit::<(N16, N15)>();
    v.visit::<(N15, Z, N16)>();
    v.visit::<(A, B, Z)>();
    v.visit::<(P, N8)>();
    v.visit::<(H, B)>();
}
pub trait Visitor { fn visit<G: Grp>(&mut self); }
#[macro_export] macro_rules! each_kind { ($m:ident) => { $m!(A, B, Z, L, H, P, X, N8, N9, N10, N11, N12, N13, N14, N15, N16, N17, N18, N19, N20, N21, N22, N23, N24, N25, N26, N27, N28, N29, N30, N31, N32, N33) } }
