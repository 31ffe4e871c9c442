// Generated by tools/gen_groups.py.
grp1!(A);
grp1!(B);
grp1!(Z);
grp1!(L);
grp1!(H);
grp1!(P);
grp1!(X);
grp1!(N8);
grp1!(N9);
grp1!(N10);
grp1!(N11);
grp1!(N12);
grp1!(N13);
grp1!(N14);
grp1!(N15);
grp1!(N16);
grp1!(N17);
grp1!(N18);
grp1!(N19);
grp1!(N20);
grp1!(N21);
grp1!(N22);
grp1!(N23);
grp1!(N24);
grp1!(N25);
grp1!(N26);
grp1!(N27);
grp1!(N28);
grp1!(N29);
grp1!(N30);
grp1!(N31);
grp1!(N32);
grp1!(N33);
grpn!(A 0, A 1);
grpn!(A 0, B 1);
grpn!(A 0, Z 1);
grpn!(A 0, H 1);
grpn!(A 0, P 1);
grpn!(B 0, A 1);
grpn!(B 0, B 1);
grpn!(B 0, Z 1);
grpn!(B 0, H 1);
grpn!(B 0, P 1);
grpn!(Z 0, A 1);
grpn!(Z 0, B 1);
grpn!(Z 0, Z 1);
grpn!(Z 0, H 1);
grpn!(Z 0, P 1);
grpn!(H 0, A 1);
grpn!(H 0, B 1);
grpn!(H 0, Z 1);
grpn!(H 0, H 1);
grpn!(H 0, P 1);
grpn!(P 0, A 1);
grpn!(P 0, B 1);
grpn!(P 0, Z 1);
grpn!(P 0, H 1);
grpn!(P 0, P 1);
grpn!(A 0, B 1, Z 2);
grpn!(A 0, B 1, H 2);
grpn!(A 0, Z 1, B 2);
grpn!(A 0, Z 1, H 2);
grpn!(A 0, H 1, B 2);
grpn!(A 0, H 1, Z 2);
grpn!(B 0, A 1, Z 2);
grpn!(B 0, A 1, H 2);
grpn!(B 0, Z 1, A 2);
grpn!(B 0, Z 1, H 2);
grpn!(B 0, H 1, A 2);
grpn!(B 0, H 1, Z 2);
grpn!(Z 0, A 1, B 2);
grpn!(Z 0, A 1, H 2);
grpn!(Z 0, B 1, A 2);
grpn!(Z 0, B 1, H 2);
grpn!(Z 0, H 1, A 2);
grpn!(Z 0, H 1, B 2);
grpn!(H 0, A 1, B 2);
grpn!(H 0, A 1, Z 2);
grpn!(H 0, B 1, A 2);
grpn!(H 0, B 1, Z 2);
grpn!(H 0, Z 1, A 2);
grpn!(H 0, Z 1, B 2);
grpn!(A 0, A 1, B 2);
grpn!(A 0, B 1, A 2);
grpn!(B 0, A 1, A 2);
grpn!(Z 0, Z 1, Z 2);
grpn!(H 0, H 1, P 2);
grpn!(P 0, H 1, H 2);
grpn!(Z 0, P 1, Z 2);
grpn!(L 0, X 1);
grpn!(X 0, L 1);
grpn!(A 0, L 1);
grpn!(L 0, A 1);
grpn!(B 0, X 1);
grpn!(X 0, B 1);
grpn!(L 0, Z 1);
grpn!(Z 0, L 1);
grpn!(L 0, H 1, X 2);
grpn!(X 0, H 1, L 2);
grpn!(H 0, L 1, X 2);
grpn!(N25 0, N26 1);
grpn!(N26 0, N25 1);
grpn!(N27 0, N28 1);
grpn!(N28 0, N27 1);
grpn!(N25 0, N27 1);
grpn!(N26 0, N28 1);
grpn!(N29 0, N30 1);
grpn!(N30 0, N29 1);
grpn!(N31 0, N32 1, N33 2);
grpn!(N33 0, N31 1, N32 2);
grpn!(N25 0, N26 1, A 2);
grpn!(N27 0, N28 1, A 2);
grpn!(N14 0, N18 1, N19 2, N17 3);
grpn!(N18 0, N17 1, N19 2, N14 3);
grpn!(H 0, N24 1, N10 2, A 3);
grpn!(A 0, H 1, N10 2, N24 3);
grpn!(N21 0, N19 1, N22 2, N15 3, N23 4);
grpn!(N15 0, N21 1, N22 2, N19 3, N23 4);
grpn!(N8 0, P 1, B 2, N14 3, H 4);
grpn!(B 0, H 1, P 2, N8 3, N14 4);
grpn!(X 0, N17 1, N24 2, N21 3, N9 4, N10 5);
grpn!(N24 0, X 1, N9 2, N17 3, N10 4, N21 5);
grpn!(N15 0, X 1, N11 2, N20 3, N22 4, N17 5);
grpn!(X 0, N11 1, N15 2, N17 3, N20 4, N22 5);
grpn!(N17 0, N15 1, N24 2, N21 3, N16 4, N8 5, N13 6);
grpn!(N24 0, N16 1, N21 2, N8 3, N15 4, N13 5, N17 6);
grpn!(Z 0, N12 1, A 2, X 3, N16 4, N13 5, N18 6);
grpn!(A 0, Z 1, X 2, N12 3, N13 4, N16 5, N18 6);
grpn!(N21 0, N17 1, X 2, N23 3, N8 4, N24 5, N9 6, B 7);
grpn!(X 0, N24 1, N8 2, N21 3, N23 4, B 5, N17 6, N9 7);
grpn!(X 0, N15 1, Z 2, N24 3, N19 4, A 5, P 6, N22 7);
grpn!(A 0, Z 1, P 2, X 3, N15 4, N19 5, N22 6, N24 7);
grpn!(N23 0, A 1, N10 2, N13 3, H 4, N9 5, N24 6, N16 7, N15 8);
grpn!(N15 0, N24 1, N16 2, N13 3, N9 4, H 5, A 6, N23 7, N10 8);
grpn!(N14 0, N17 1, N19 2, N13 3, N16 4, N18 5, L 6, X 7, A 8);
grpn!(A 0, L 1, X 2, N13 3, N14 4, N16 5, N17 6, N18 7, N19 8);
grpn!(Z 0, N16 1, N15 2, X 3, N9 4, H 5, N8 6, P 7, N11 8, A 9);
grpn!(P 0, X 1, N16 2, N15 3, N9 4, A 5, Z 6, N8 7, N11 8, H 9);
grpn!(N8 0, N19 1, N17 2, N15 3, H 4, N24 5, N12 6, L 7, A 8, N10 9);
grpn!(A 0, L 1, H 2, N8 3, N10 4, N12 5, N15 6, N17 7, N19 8, N24 9);
grpn!(N14 0, Z 1, N21 2, N22 3, N9 4, N8 5, N16 6, N12 7, N15 8, H 9, X 10);
grpn!(N12 0, N9 1, X 2, N22 3, N8 4, Z 5, H 6, N16 7, N14 8, N15 9, N21 10);
grpn!(A 0, N11 1, N19 2, N24 3, B 4, N14 5, N8 6, N21 7, Z 8, N12 9, N16 10);
grpn!(A 0, B 1, Z 2, N8 3, N11 4, N12 5, N14 6, N16 7, N19 8, N21 9, N24 10);
grpn!(N16 0, L 1, B 2, N23 3, H 4, N21 5, P 6, N19 7, X 8, N15 9, N18 10, N10 11);
grpn!(L 0, B 1, N21 2, N18 3, N19 4, N10 5, X 6, N16 7, H 8, N15 9, N23 10, P 11);
grpn!(N13 0, N21 1, N8 2, N17 3, N14 4, N15 5, N11 6, H 7, N20 8, N23 9, A 10, B 11);
grpn!(A 0, B 1, H 2, N8 3, N11 4, N13 5, N14 6, N15 7, N17 8, N20 9, N21 10, N23 11);
grpn!(N8 0, B 1, P 2, N13 3, N19 4, N16 5, N20 6, N17 7, N10 8, N11 9, N9 10, N12 11, N24 12);
grpn!(N24 0, N20 1, N16 2, N11 3, N9 4, N19 5, N8 6, N12 7, P 8, N17 9, B 10, N10 11, N13 12);
grpn!(N24 0, N8 1, N9 2, N22 3, N12 4, N11 5, N13 6, Z 7, N17 8, H 9, N20 10, N21 11, N15 12);
grpn!(Z 0, H 1, N8 2, N9 3, N11 4, N12 5, N13 6, N15 7, N17 8, N20 9, N21 10, N22 11, N24 12);
grpn!(N10 0, N16 1, B 2, X 3, N24 4, N23 5, N11 6, N12 7, N19 8, N17 9, Z 10, N14 11, N22 12, L 13);
grpn!(N10 0, N22 1, X 2, N24 3, N11 4, N19 5, L 6, N17 7, N23 8, Z 9, N14 10, N16 11, B 12, N12 13);
grpn!(N19 0, N9 1, A 2, Z 3, N13 4, N21 5, N16 6, N14 7, N23 8, N12 9, N11 10, N22 11, N10 12, N24 13);
grpn!(A 0, Z 1, N9 2, N10 3, N11 4, N12 5, N13 6, N14 7, N16 8, N19 9, N21 10, N22 11, N23 12, N24 13);
grpn!(N16 0, N16 1, N24 2, N14 3);
grpn!(Z 0, N11 1, N18 2, N17 3, N17 4, P 5, N12 6);
grpn!(L 0, X 1, N8 2, L 3, N21 4, N23 5, N9 6, Z 7, B 8, N10 9, N11 10, N19 11, N17 12, N12 13);
grpn!(P 0, N17 1, A 2, X 3, N19 4, N8 5, N11 6, L 7, N23 8, N13 9, N15 10, H 11, N21 12, P 13);
grpn!(B 0, B 1, B 2, B 3);
pub fn visit<V: Visitor>(v: &mut V) {
    v.visit::<A>();
    v.visit::<B>();
    v.visit::<Z>();
    v.visit::<L>();
    v.visit::<H>();
    v.visit::<P>();
    v.visit::<X>();
    v.visit::<N8>();
    v.visit::<N9>();
    v.visit::<N10>();
    v.visit::<N11>();
    v.visit::<N12>();
    v.visit::<N13>();
    v.visit::<N14>();
    v.visit::<N15>();
    v.visit::<N16>();
    v.visit::<N17>();
    v.visit::<N18>();
    v.visit::<N19>();
    v.visit::<N20>();
    v.visit::<N21>();
    v.visit::<N22>();
    v.visit::<N23>();
    v.visit::<N24>();
    v.visit::<N25>();
    v.visit::<N26>();
    v.visit::<N27>();
    v.visit::<N28>();
    v.visit::<N29>();
    v.visit::<N30>();
    v.visit::<N31>();
    v.visit::<N32>();
    v.visit::<N33>();
    v.visit::<(A, A)>();
    v.visit::<(A, B)>();
    v.visit::<(A, Z)>();
    v.visit::<(A, H)>();
    v.visit::<(A, P)>();
    v.visit::<(B, A)>();
    v.visit::<(B, B)>();
    v.visit::<(B, Z)>();
    v.visit::<(B, H)>();
    v.visit::<(B, P)>();
    v.visit::<(Z, A)>();
    v.visit::<(Z, B)>();
    v.visit::<(Z, Z)>();
    v.visit::<(Z, H)>();
    v.visit::<(Z, P)>();
    v.visit::<(H, A)>();
    v.visit::<(H, B)>();
    v.visit::<(H, Z)>();
    v.visit::<(H, H)>();
    v.visit::<(H, P)>();
    v.visit::<(P, A)>();
    v.visit::<(P, B)>();
    v.visit::<(P, Z)>();
    v.visit::<(P, H)>();
    v.visit::<(P, P)>();
    v.visit::<(A, B, Z)>();
    v.visit::<(A, B, H)>();
    v.visit::<(A, Z, B)>();
    v.visit::<(A, Z, H)>();
    v.visit::<(A, H, B)>();
    v.visit::<(A, H, Z)>();
    v.visit::<(B, A, Z)>();
    v.visit::<(B, A, H)>();
    v.visit::<(B, Z, A)>();
    v.visit::<(B, Z, H)>();
    v.visit::<(B, H, A)>();
    v.visit::<(B, H, Z)>();
    v.visit::<(Z, A, B)>();
    v.visit::<(Z, A, H)>();
    v.visit::<(Z, B, A)>();
    v.visit::<(Z, B, H)>();
    v.visit::<(Z, H, A)>();
    v.visit::<(Z, H, B)>();
    v.visit::<(H, A, B)>();
    v.visit::<(H, A, Z)>();
    v.visit::<(H, B, A)>();
    v.visit::<(H, B, Z)>();
    v.visit::<(H, Z, A)>();
    v.visit::<(H, Z, B)>();
    v.visit::<(A, A, B)>();
    v.visit::<(A, B, A)>();
    v.visit::<(B, A, A)>();
    v.visit::<(Z, Z, Z)>();
    v.visit::<(H, H, P)>();
    v.visit::<(P, H, H)>();
    v.visit::<(Z, P, Z)>();
    v.visit::<(L, X)>();
    v.visit::<(X, L)>();
    v.visit::<(A, L)>();
    v.visit::<(L, A)>();
    v.visit::<(B, X)>();
    v.visit::<(X, B)>();
    v.visit::<(L, Z)>();
    v.visit::<(Z, L)>();
    v.visit::<(L, H, X)>();
    v.visit::<(X, H, L)>();
    v.visit::<(H, L, X)>();
    v.visit::<(N25, N26)>();
    v.visit::<(N26, N25)>();
    v.visit::<(N27, N28)>();
    v.visit::<(N28, N27)>();
    v.visit::<(N25, N27)>();
    v.visit::<(N26, N28)>();
    v.visit::<(N29, N30)>();
    v.visit::<(N30, N29)>();
    v.visit::<(N31, N32, N33)>();
    v.visit::<(N33, N31, N32)>();
    v.visit::<(N25, N26, A)>();
    v.visit::<(N27, N28, A)>();
    v.visit::<(N14, N18, N19, N17)>();
    v.visit::<(N18, N17, N19, N14)>();
    v.visit::<(H, N24, N10, A)>();
    v.visit::<(A, H, N10, N24)>();
    v.visit::<(N21, N19, N22, N15, N23)>();
    v.visit::<(N15, N21, N22, N19, N23)>();
    v.visit::<(N8, P, B, N14, H)>();
    v.visit::<(B, H, P, N8, N14)>();
    v.visit::<(X, N17, N24, N21, N9, N10)>();
    v.visit::<(N24, X, N9, N17, N10, N21)>();
    v.visit::<(N15, X, N11, N20, N22, N17)>();
    v.visit::<(X, N11, N15, N17, N20, N22)>();
    v.visit::<(N17, N15, N24, N21, N16, N8, N13)>();
    v.visit::<(N24, N16, N21, N8, N15, N13, N17)>();
    v.visit::<(Z, N12, A, X, N16, N13, N18)>();
    v.visit::<(A, Z, X, N12, N13, N16, N18)>();
    v.visit::<(N21, N17, X, N23, N8, N24, N9, B)>();
    v.visit::<(X, N24, N8, N21, N23, B, N17, N9)>();
    v.visit::<(X, N15, Z, N24, N19, A, P, N22)>();
    v.visit::<(A, Z, P, X, N15, N19, N22, N24)>();
    v.visit::<(N23, A, N10, N13, H, N9, N24, N16, N15)>();
    v.visit::<(N15, N24, N16, N13, N9, H, A, N23, N10)>();
    v.visit::<(N14, N17, N19, N13, N16, N18, L, X, A)>();
    v.visit::<(A, L, X, N13, N14, N16, N17, N18, N19)>();
    v.visit::<(Z, N16, N15, X, N9, H, N8, P, N11, A)>();
    v.visit::<(P, X, N16, N15, N9, A, Z, N8, N11, H)>();
    v.visit::<(N8, N19, N17, N15, H, N24, N12, L, A, N10)>();
    v.visit::<(A, L, H, N8, N10, N12, N15, N17, N19, N24)>();
    v.visit::<(N14, Z, N21, N22, N9, N8, N16, N12, N15, H, X)>();
    v.visit::<(N12, N9, X, N22, N8, Z, H, N16, N14, N15, N21)>();
    v.visit::<(A, N11, N19, N24, B, N14, N8, N21, Z, N12, N16)>();
    v.visit::<(A, B, Z, N8, N11, N12, N14, N16, N19, N21, N24)>();
    v.visit::<(N16, L, B, N23, H, N21, P, N19, X, N15, N18, N10)>();
    v.visit::<(L, B, N21, N18, N19, N10, X, N16, H, N15, N23, P)>();
    v.visit::<(N13, N21, N8, N17, N14, N15, N11, H, N20, N23, A, B)>();
    v.visit::<(A, B, H, N8, N11, N13, N14, N15, N17, N20, N21, N23)>();
    v.visit::<(N8, B, P, N13, N19, N16, N20, N17, N10, N11, N9, N12, N24)>();
    v.visit::<(N24, N20, N16, N11, N9, N19, N8, N12, P, N17, B, N10, N13)>();
    v.visit::<(N24, N8, N9, N22, N12, N11, N13, Z, N17, H, N20, N21, N15)>();
    v.visit::<(Z, H, N8, N9, N11, N12, N13, N15, N17, N20, N21, N22, N24)>();
    v.visit::<(N10, N16, B, X, N24, N23, N11, N12, N19, N17, Z, N14, N22, L)>();
    v.visit::<(N10, N22, X, N24, N11, N19, L, N17, N23, Z, N14, N16, B, N12)>();
    v.visit::<(N19, N9, A, Z, N13, N21, N16, N14, N23, N12, N11, N22, N10, N24)>();
    v.visit::<(A, Z, N9, N10, N11, N12, N13, N14, N16, N19, N21, N22, N23, N24)>();
    v.visit::<(N16, N16, N24, N14)>();
    v.visit::<(Z, N11, N18, N17, N17, P, N12)>();
    v.visit::<(L, X, N8, L, N21, N23, N9, Z, B, N10, N11, N19, N17, N12)>();
    v.visit::<(P, N17, A, X, N19, N8, N11, L, N23, N13, N15, H, N21, P)>();
    v.visit::<(B, B, B, B)>();
}
pub trait Visitor { fn visit<G: Grp>(&mut self); }
#[macro_export] macro_rules! each_kind { ($m:ident) => { $m!(A, B, Z, L, H, P, X, N8, N9, N10, N11, N12, N13, N14, N15, N16, N17, N18, N19, N20, N21, N22, N23, N24, N25, N26, N27, N28, N29, N30, N31, N32, N33) } }
