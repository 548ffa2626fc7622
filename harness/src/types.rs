//! Which element types the generic engines run with. The generic code is mounted several times as
//! different modules only so that the compiler can work on it in parallel.
use crate::cx::Cx;
use crate::tok::*;
use crate::{vecw, vecw_b, vecw_c, vecw_d};
#[cfg(feature = "unstable")]
use crate::{btw, btw_b, btw_c, btw_d};

pub fn vec(cx: &mut Cx) {
    match cx.rng.us(24) {
        0..=5 => vecw::both::<Tok>(cx, None),
        6..=8 => vecw_b::both::<HTok>(cx, None),
        9 | 10 => vecw_b::both::<A64>(cx, None),
        11 => vecw_b::both::<Big>(cx, None),
        12 | 13 => vecw::both::<Z>(cx, None),
        14 => vecw::both::<ZA>(cx, None),
        15 | 16 => vecw_c::both::<u8>(cx, vecw_c::copyops()),
        17 | 18 => vecw_c::both::<u64>(cx, vecw_c::copyops()),
        19 | 20 => vecw_d::both::<C3>(cx, vecw_d::copyops()),
        21 => vecw_d::both::<CA128>(cx, vecw_d::copyops()),
        _ => {
            if cx.rng.chance(1, 3) && !cx.miri {
                vecw::zst_limit(cx)
            } else {
                vecw_d::both::<SKey>(cx, None)
            }
        }
    }
}

#[cfg(feature = "unstable")]
fn types(cx: &mut Cx, w: &[u32]) {
    match cx.rng.us(24) {
        0..=7 => btw::history::<Tok, Tok>(cx, w),
        8..=11 => btw_b::history::<HTok, HTok>(cx, w),
        12..=14 => btw_c::history::<u32, u64>(cx, w),
        15 | 16 => btw_d::history::<SKey, Tok>(cx, w),
        17 | 18 => btw_b::history::<A64, Big>(cx, w),
        19 => btw_c::history::<Big, A64>(cx, w),
        20 => btw_c::history::<Z, Tok>(cx, w),
        21 => btw_d::history::<u8, Z>(cx, w),
        _ => btw::history::<A32, u8>(cx, w),
    }
}
//                      ins ent rem get spl app itr con cln clr b+ b- col swp
#[cfg(feature = "unstable")]
const POINT: [u32; 14] = [18, 18, 20, 14, 2, 2, 2, 1, 2, 1, 5, 6, 1, 1];
#[cfg(feature = "unstable")]
const STRUCT: [u32; 14] = [8, 4, 8, 3, 16, 16, 4, 2, 3, 1, 5, 7, 3, 4];
#[cfg(feature = "unstable")]
const ITER: [u32; 14] = [4, 2, 4, 1, 3, 3, 40, 8, 2, 0, 3, 4, 1, 2];
#[cfg(feature = "unstable")]
const MIXED: [u32; 14] = [14, 12, 14, 6, 7, 7, 7, 3, 5, 1, 4, 5, 3, 2];
#[cfg(feature = "unstable")]
const FALL: [u32; 14] = [30, 20, 9, 2, 14, 3, 1, 1, 10, 1, 5, 5, 1, 2];
#[cfg(feature = "unstable")]
pub fn point(cx: &mut Cx) {
    types(cx, &POINT)
}
#[cfg(feature = "unstable")]
pub fn structure(cx: &mut Cx) {
    types(cx, &STRUCT)
}
#[cfg(feature = "unstable")]
pub fn iterate(cx: &mut Cx) {
    types(cx, &ITER)
}
#[cfg(feature = "unstable")]
pub fn mixed(cx: &mut Cx) {
    types(cx, &MIXED)
}
#[cfg(feature = "unstable")]
pub fn faulty(cx: &mut Cx) {
    types(cx, &FALL)
}

#[cfg(feature = "hashmap")]
pub fn hash(cx: &mut Cx) {
    use crate::{hashw, hashw_b};
    match cx.rng.us(16) {
        0..=3 => hashw::history::<Tok, Tok>(cx),
        4 | 5 => hashw_b::history::<HTok, HTok>(cx),
        6..=8 => hashw::history::<Col, Tok>(cx),
        9 | 10 => hashw_b::history::<SKey, u64>(cx),
        11 | 12 => hashw_b::history::<u32, Big>(cx),
        13 => hashw::history::<A64, Z>(cx),
        14 => hashw_b::history::<u8, u8>(cx),
        _ => hashw::history::<Z, Tok>(cx),
    }
}

#[cfg(feature = "unstable")]
fn sets(cx: &mut Cx, w: &[u32; 11]) {
    use crate::{setw, setw_b};
    match cx.rng.us(16) {
        0..=4 => setw::history::<Tok>(cx, w),
        5..=7 => setw_b::history::<u32>(cx, w),
        8..=10 => setw_b::history::<HTok>(cx, w),
        11 | 12 => setw::history::<SKey>(cx, w),
        13 => setw_b::history::<A64>(cx, w),
        14 => setw::history::<Z>(cx, w),
        _ => setw_b::history::<u8>(cx, w),
    }
}
//                      add tak get itr rng spl app mak alg pre oth
#[cfg(feature = "unstable")]
pub fn set(cx: &mut Cx) {
    sets(cx, &[10, 6, 4, 2, 2, 2, 2, 8, 22, 12, 8])
}
#[cfg(feature = "unstable")]
pub fn setmixed(cx: &mut Cx) {
    sets(cx, &[16, 10, 5, 5, 5, 6, 6, 5, 6, 4, 4])
}
