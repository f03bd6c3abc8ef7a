//! The properties: which cases each enumerates and which judgements it makes on them.
#[cfg(feature = "unstable")]
use crate::{bset, bt, grid, seq};
#[cfg(not(feature = "unstable"))]
use crate::hash;
use crate::{bytes, cause, clone};
use crate::engine::*;
use crate::large;
use crate::misc;
use crate::same;
use crate::traits;
use crate::vecs::{self, *};
use crate::zfull;
use std::sync::atomic::Ordering::SeqCst;

pub const F_VEC: u32 = 0;
pub const F_GROW: u32 = 1;
pub const F_COLLECT: u32 = 2;
#[cfg(feature = "std_io")]
pub const F_READ: u32 = 3;
pub const F_FMT: u32 = 4;
pub const F_PTR: u32 = 5;
#[cfg(feature = "unstable")]
pub const F_BT: u32 = 6;
#[cfg(feature = "unstable")]
pub const F_SET: u32 = 7;

#[cfg(not(feature = "unstable"))]
pub const F_HASH: u32 = 8;
pub const F_CLONE: u32 = 9;
#[cfg(feature = "unstable")]
pub const F_GRID: u32 = 11;
pub const F_SAME: u32 = 10;
pub const F_LARGE: u32 = 12;
pub const F_BYTES: u32 = 13;
#[cfg(feature = "unstable")]
pub const F_SEQ: u32 = 14;

pub const F_TRAITS: u32 = 15;
pub const F_CAUSE: u32 = 17;
pub const F_ZFULL: u32 = 16;

fn case(w: &[u32]) -> Res {
    match w[0] {
        F_TRAITS => traits::case(w),
        F_CAUSE => cause::case(w),
        F_ZFULL => zfull::case(w),
        F_VEC => vecs::prog(w),
        F_GROW => misc::grow(w),
        F_SAME => same::case(w),
        F_LARGE => large::case(w),
        F_BYTES => bytes::case(w),
        #[cfg(feature = "unstable")]
        F_SEQ => seq::case(w),
        #[cfg(feature = "unstable")]
        F_GRID => grid::case(w),
        F_CLONE => clone::case(w),
        F_COLLECT => misc::collect(w),
        #[cfg(feature = "std_io")]
        F_READ => misc::reads::case(w),
        F_FMT => misc::fmt(w),
        F_PTR => misc::ptr(w),
        #[cfg(feature = "unstable")]
        F_BT => bt::case(w),
        #[cfg(feature = "unstable")]
        F_SET => bset::case(w),
        #[cfg(not(feature = "unstable"))]
        F_HASH => hash::case(w),
        x => Err(format!("unknown case family {x}").into()),
    }
}
pub fn set_flags(id: &str) {
    let f = match id {
        "C01" => CLASS,
        "C02" => CLASS | ERR_CONTENT | OK_CONTENT,
        "C03" => CLASS | OK_CONTENT,
        "C04" => REQS,
        "C05" | "C17" => OK_CONTENT,
        "C21" => OK_CONTENT | ERR_CONTENT,
        #[cfg(feature = "unstable")]
        "C06" | "C12" => bt::BT_DRAIN,
        #[cfg(feature = "unstable")]
        "C10" => bt::BT_COST,
        "C07" | "C08" | "C09" | "C19" => 0,
        _ => 0xff,
    };
    vecs::FLAGS.store(f, SeqCst);
}
macro_rules! p {
    ($id:literal, $run:expr, $leaks:expr) => {
        Prop { id: $id, run: |e| { set_flags($id); ($run)(e) }, case, leaks: $leaks }
    };
}
pub static ALL: &[Prop] = &[
    p!("C01", |e: &Eng| {
        vecs::faulted(e, F_VEC, &[0, 1, 2, 3, 4, 5], 4, 4, false, false, 3);
        misc::collect_all(e, F_COLLECT, false);
        #[cfg(feature = "std_io")]
        misc::reads::all(e, F_READ, false);
        misc::fmt_all(e, F_FMT, false);
        misc::ptr_all(e, F_PTR, 2);
        #[cfg(not(feature = "unstable"))]
        hash::faulted(e, F_HASH);
        clone::all(e, F_CLONE, &[1, 2]);
        large::all(e, F_LARGE, large::ALL, true);
        zfull::all(e, F_ZFULL);
        #[cfg(feature = "unstable")]
        {
            let s0 = bt::vecs(&bt::seeds(0));
            bt::faulted(e, F_BT, &s0, &[bt::INS, bt::REP, bt::E_VAC, bt::E_OR, bt::E_OR_X, bt::CLONE_T, bt::SPL_L, bt::SPL_R], "maps: insertion, entries, clone and split of two-level trees, each request refused");
            bt::faulted(e, F_BT, &bt::vecs(&bt::full()), &[bt::INS, bt::E_OR, bt::CLONE_T], "maps: insertions into and clones of full trees, each request refused");
            bset::faulted(e, F_SET);
            if e.thorough {
                bt::faulted(e, F_BT, &bt::vecs(&bt::three(true)), &[bt::INS, bt::E_VAC, bt::CLONE_T, bt::SPL_L, bt::SPL_R], "maps: insertion, clone and split of three-level trees, each request refused");
            }
        }
        if e.thorough { vecs::faulted(e, F_VEC, &[0, 1, 2, 3, 4, 5, 9, 10], 6, 6, true, false, 4) }
    }, false),
    p!("C02", |e: &Eng| {
        vecs::faulted(e, F_VEC, &[0, 1, 3, 4], 4, 4, false, true, 3);
        vecs::faulted(e, F_VEC, &[14, 15, 16], 3, 3, false, true, 3);
        large::all(e, F_LARGE, large::ALL, true);
        zfull::all(e, F_ZFULL);
        if e.thorough { vecs::faulted(e, F_VEC, &[0, 1, 2, 3, 4, 5], 5, 5, true, true, 3) }
    }, false),
    p!("C03", |e: &Eng| {
        vecs::plain(e, F_VEC, &[0, 1, 2, 3, 14, 15, 16], 4, 4, 2);
        vecs::plain(e, F_VEC, &[0], 3, 3, 3);
        large::all(e, F_LARGE, large::ALL, false);
        zfull::all(e, F_ZFULL);
        bytes::all(e, F_BYTES);
        if e.thorough { vecs::plain(e, F_VEC, &[0, 1, 2], 5, 4, 3) }
    }, false),
    p!("C04", |e: &Eng| {
        vecs::plain(e, F_VEC, &[0, 1, 2, 3, 4], 5, 5, 2);
        vecs::plain(e, F_VEC, &[0, 1], 3, 3, 3);
        misc::grow_all(e, F_GROW);
        large::all(e, F_LARGE, large::ALL, false);
        #[cfg(not(feature = "unstable"))]
        hash::reservations(e, F_HASH);
        if e.thorough { vecs::plain(e, F_VEC, &[0, 1, 2, 4, 10], 5, 5, 3) }
    }, false),
    p!("C05", |e: &Eng| {
        vecs::plain(e, F_VEC, &[0, 3], 4, 4, 2);
        vecs::faulted(e, F_VEC, &[0, 3], 4, 4, false, true, 3);
        vecs::plain(e, F_VEC, &[14, 15, 16], 4, 4, 2);
        vecs::faulted(e, F_VEC, &[14, 15, 16], 4, 3, false, true, 3);
        misc::collect_all(e, F_COLLECT, false);
        misc::ptr_all(e, F_PTR, 3);
        clone::all(e, F_CLONE, &[1, 2, 3]);
        large::all(e, F_LARGE, large::ALL, true);
        zfull::all(e, F_ZFULL);
        #[cfg(not(feature = "unstable"))]
        {
            hash::programs(e, F_HASH, if e.thorough { 5 } else { 4 });
            hash::faulted(e, F_HASH);
        }
        if e.thorough {
            vecs::plain(e, F_VEC, &[0, 3], 5, 4, 3);
            vecs::faulted(e, F_VEC, &[0, 3], 5, 5, true, true, 3)
        }
    }, true),
    p!("C13", |e: &Eng| {
        clone::all(e, F_CLONE, &[1, 2, 3]);
        large::all(e, F_LARGE, large::CLONES, true);
        #[cfg(not(feature = "unstable"))]
        hash::faulted(e, F_HASH);
        #[cfg(feature = "unstable")]
        {
            let t = e.thorough;
            let s0 = bt::vecs(&bt::seeds(0));
            let s1 = bt::vecs(&bt::three(t));
            let cl = &[bt::CLONE_T, bt::CLONE_C];
            bt::around(e, F_BT, &s0, bt::OPS_ALL, cl, 1, "maps: clone after each operation on two-level trees");
            bt::around(e, F_BT, &s1, cl, bt::OPS_CUT, 1, "maps: clone of three-level trees, then split and append");
            bt::around(e, F_BT, &bt::vecs(&bt::tall()), cl, &[], 1, "maps: clone of four-level trees");
            bt::around(e, F_BT, &bt::vecs(&bt::full()), cl, &[], 1, "maps: clone of full trees");
            bt::faulted(e, F_BT, &bt::vecs(&bt::full()), &[bt::CLONE_T], "maps: clone of full trees, each request refused");
            bt::clone_fails(e, F_BT, &bt::vecs(&bt::full()[..5]), "full maps: try_clone with each element refusing to be cloned");
            bt::faulted(e, F_BT, &s0, &[bt::CLONE_T], "maps: clone of two-level trees, each request refused");
            bt::faulted(e, F_BT, &s1, &[bt::CLONE_T], "maps: clone of three-level trees, each request refused");
            bt::clone_fails(e, F_BT, &s0, "maps: try_clone with each element refusing to be cloned");
            bt::clone_fails(e, F_BT, &s1, "three-level maps: try_clone with each element refusing to be cloned");
        }
    }, true),
    #[cfg(not(feature = "unstable"))]
    p!("C14", |e: &Eng| {
        hash::programs(e, F_HASH, if e.thorough { 6 } else { 5 });
        hash::faulted(e, F_HASH);
    }, true),
    #[cfg(feature = "std_io")]
    p!("C15", |e: &Eng| misc::reads::all(e, F_READ, false), true),
    p!("C16", |e: &Eng| misc::fmt_all(e, F_FMT, false), true),
    p!("C17", |e: &Eng| misc::ptr_all(e, F_PTR, if e.thorough { 5 } else { 4 }), true),
    p!("C18", |e: &Eng| {
        vecs::panicking(e, F_VEC, &[0, 3], 4, 4, 6);
        vecs::panicking(e, F_VEC, &[14, 15, 16], 3, 3, 5);
        misc::collect_all(e, F_COLLECT, true);
        misc::fmt_all(e, F_FMT, true);
        #[cfg(feature = "std_io")]
        misc::reads::all(e, F_READ, true);
        #[cfg(not(feature = "unstable"))]
        hash::misbehaving(e, F_HASH);
        clone::all(e, F_CLONE, &[4, 5, 6, 7]);
        #[cfg(feature = "unstable")]
        bt::misbehaving(e, F_BT);
        #[cfg(feature = "unstable")]
        bset::misbehaving(e, F_SET);
        #[cfg(feature = "unstable")]
        seq::all(e, F_SEQ, true);
    }, false),
    #[cfg(feature = "unstable")]
    p!("C06", |e: &Eng| {
        let t = e.thorough;
        bt::bfs(e, F_BT, bt::EMPTY, bt::OPS_STEP, if t { 50 } else { 42 }, 2_000_000);
        bt::bfs(e, F_BT, bt::EMPTY, bt::OPS_MOVE, if t { 36 } else { 28 }, 2_000_000);
        let s0 = bt::vecs(&bt::seeds(0));
        bt::around(e, F_BT, &s0, bt::OPS_ALL, &[], 1, "each operation at each position of two-level trees");
        let s00 = bt::vecs(&bt::seeds(0).into_iter().filter(|s| s[1] <= if t { 40 } else { 17 }).collect::<Vec<_>>());
        bt::around(e, F_BT, &s00, bt::OPS_ALL, bt::OPS_ALL, 1, "each pair of operations at each position of small trees");
        let s1 = bt::vecs(&bt::three(true));
        bt::around(e, F_BT, &s1, bt::OPS_ALL, &[], if t { 1 } else { 2 }, "operations around three-level trees");
        if t {
            bt::around(e, F_BT, &bt::vecs(&bt::three(false)), bt::OPS_STEP, bt::OPS_MOVE, 1, "each pair of rearranging operations at each position of three-level trees");
        }
        bt::around(e, F_BT, &bt::vecs(&bt::tall()), bt::OPS_TALL, &[], if t { 8 } else { 100 }, "operations around four-level trees");
        bt::around(e, F_BT, &bt::vecs(&bt::taller()), bt::OPS_TALL, &[], if t { 60 } else { 900 }, "operations around five-level trees");
        bt::around(e, F_BT, &bt::vecs(&bt::full()), bt::OPS_ALL, &[], if t { 1 } else { 50 }, "operations around full trees");
        bset::programs(e, F_SET);
        seq::all(e, F_SEQ, false);
    }, false),
    #[cfg(feature = "unstable")]
    p!("C07", |e: &Eng| {
        let t = e.thorough;
        let s0 = bt::vecs(&bt::seeds(0));
        let s1 = bt::vecs(&bt::three(true));
        let sh = bt::bfs(e, F_BT, bt::EMPTY, bt::OPS_STEP, if t { 38 } else { 30 }, 2_000_000);
        bt::faulted(e, F_BT, &bt::starts_of(&sh, 0, 99), &[bt::INS, bt::E_VAC], "maps: insertion at each gap of each arrangement, each of its requests refused");
        bt::faulted(e, F_BT, &s0, bt::OPS_INS, "maps: each insertion at each gap of two-level trees, each of its requests refused");
        bt::faulted(e, F_BT, &s1, if t { bt::OPS_INS } else { &[bt::INS, bt::E_VAC] }, "maps: each insertion at each gap of three-level trees, each of its requests refused");
        bt::faulted(e, F_BT, &bt::vecs(&bt::full()), if t { bt::OPS_INS } else { &[bt::INS, bt::E_OR] }, "maps: each insertion at each gap of trees whose nodes are all full, each of its requests refused");
        bt::faulted(e, F_BT, &s0, &[bt::REP, bt::E_OR_X, bt::CLONE_T, bt::SPL_L, bt::SPL_RX], "maps: replacement, clone and split, each request refused");
        bt::faulted(e, F_BT, &bt::vecs(&bt::three(t)), &[bt::CLONE_T, bt::SPL_L, bt::SPL_R, bt::SPL_LX], "maps: clone and split of three-level trees, each request refused");
        bt::clone_fails(e, F_BT, &s0, "maps: try_clone with each element refusing to be cloned");
        bt::clone_fails(e, F_BT, &s1, "three-level maps: try_clone with each element refusing to be cloned");
        let sf = bt::vecs(&bt::full()[..5]);
        bt::clone_fails(e, F_BT, &sf, "full maps: try_clone with each element refusing to be cloned");
        bt::faulted(e, F_BT, &sf, &[bt::CLONE_T, bt::SPL_L, bt::SPL_R], "maps: clone and split of full trees, each request refused");
        bset::faulted(e, F_SET);
        bt::faulted(e, F_BT, &bt::vecs(&[[0, 700, 0, 0]]), if t { bt::OPS_INS } else { &[bt::INS] }, "maps: each insertion at each gap of four-level trees, each of its requests refused");
        if t {
            bt::faulted(e, F_BT, &bt::starts_of(&sh, 12, 30), &[bt::SPL_L, bt::SPL_R, bt::CLONE_T, bt::REP, bt::E_OR, bt::E_ORW, bt::E_ORD], "maps: split, clone and entries at each position of each arrangement, each request refused");
            bt::faulted(e, F_BT, &bt::vecs(&bt::tall()), &[bt::SPL_L, bt::SPL_R], "maps: split of four-level trees, each request refused");
        }
    }, false),
    #[cfg(feature = "unstable")]
    p!("C08", |e: &Eng| {
        bt::appends(e, F_BT);
        let t = e.thorough;
        let sh = bt::bfs(e, F_BT, bt::EMPTY, bt::OPS_STEP, if t { 40 } else { 34 }, 2_000_000);
        bt::around(e, F_BT, &bt::starts_of(&sh, 0, 99), bt::OPS_CUT, &[], 1, "split and append at each position of each arrangement");
        bt::around(e, F_BT, &bt::vecs(&bt::seeds(0)), bt::OPS_CUT, &[], 1, "split and append at each position of two-level trees");
        bt::around(e, F_BT, &bt::vecs(&bt::three(true)), bt::OPS_CUT, &[], 1, "split and append at each position of three-level trees");
        bt::around(e, F_BT, &bt::vecs(&bt::tall()), bt::OPS_CUT, &[], if t { 1 } else { 20 }, "split and append around four-level trees");
        bt::around(e, F_BT, &bt::vecs(&bt::taller()), bt::OPS_CUT, &[], if t { 10 } else { 200 }, "split and append around five-level trees");
        bt::around(e, F_BT, &bt::vecs(&bt::full()), bt::OPS_CUT, &[], if t { 1 } else { 20 }, "split and append around full trees");
        bt::around(e, F_BT, &bt::vecs(&bt::seeds(0).into_iter().filter(|s| s[1] <= 40).collect::<Vec<_>>()), bt::OPS_CUT, bt::OPS_CUT, 1, "each pair of splits and appends at each position of two-level trees");
        if t {
            bt::around(e, F_BT, &bt::vecs(&bt::three(false)), bt::OPS_CUT, bt::OPS_MOVE, 1, "splits and appends, then rearranging operations, at each position of three-level trees");
        }
        bset::cuts(e, F_SET);
    }, false),
    #[cfg(feature = "unstable")]
    p!("C09", |e: &Eng| {
        let sh = bt::bfs(e, F_BT, bt::EMPTY, bt::OPS_STEP, if e.thorough { 30 } else { 20 }, 2_000_000);
        bt::iterating(e, F_BT, &sh);
        bset::consuming(e, F_SET);
        bset::ranges(e, F_SET);
    }, false),
    #[cfg(feature = "unstable")]
    p!("C10", |e: &Eng| {
        let t = e.thorough;
        bt::bfs(e, F_BT, bt::EMPTY, bt::OPS_STEP, if t { 50 } else { 42 }, 2_000_000);
        bt::around(e, F_BT, &bt::vecs(&bt::three(true)), bt::OPS_COST, &[], 1, "comparisons and depth around three-level trees");
        bt::around(e, F_BT, &bt::vecs(&bt::tall()), bt::OPS_COST, &[], if t { 1 } else { 20 }, "comparisons and depth around four-level trees");
        bt::around(e, F_BT, &bt::vecs(&bt::taller()), bt::OPS_COST, &[], if t { 10 } else { 200 }, "comparisons and depth around five-level trees");
        bt::around(e, F_BT, &bt::vecs(&bt::full()), bt::OPS_COST, &[], if t { 1 } else { 20 }, "comparisons and depth around full trees");
        bt::around(e, F_BT, &bt::vecs(&bt::seeds(0)), bt::OPS_ALL, bt::OPS_COST, if t { 1 } else { 9 }, "comparisons and depth after each operation on two-level trees");
        if t {
            bt::around(e, F_BT, &bt::vecs(&bt::three(false)), bt::OPS_CUT, bt::OPS_COST, 1, "comparisons and depth after each split or append of three-level trees");
        }
        bt::appends(e, F_BT);
    }, false),
    #[cfg(feature = "unstable")]
    p!("C11", |e: &Eng| bset::algebras(e, F_SET), true),
    #[cfg(feature = "unstable")]
    p!("C12", |e: &Eng| {
        let t = e.thorough;
        let sh = bt::bfs(e, F_BT, bt::EMPTY, bt::OPS_STEP, if t { 36 } else { 24 }, 2_000_000);
        bt::consuming(e, F_BT, &sh);
        let s0 = bt::vecs(&bt::seeds(0));
        let s1 = bt::vecs(&bt::three(t));
        bt::around(e, F_BT, &s0, bt::OPS_ALL, &[], 1, "maps: each operation at each position of two-level trees");
        bt::around(e, F_BT, &s1, bt::OPS_ALL, &[], if t { 1 } else { 9 }, "maps: operations around three-level trees");
        bt::around(e, F_BT, &bt::vecs(&bt::tall()), bt::OPS_CUT, &[], if t { 41 } else { 400 }, "maps: split and append around four-level trees");
        bt::faulted(e, F_BT, &s0, &[bt::INS, bt::E_VAC, bt::E_OR, bt::CLONE_T, bt::SPL_L, bt::SPL_R], "maps: insertion, clone and split with each request refused");
        bt::faulted(e, F_BT, &bt::vecs(&bt::full()[..5]), &[bt::INS, bt::CLONE_T, bt::SPL_L], "maps: insertion, clone and split of full trees with each request refused");
        bt::around(e, F_BT, &bt::vecs(&bt::full()[..5]), bt::OPS_ALL, &[], 1, "maps: operations around full trees");
        bt::clone_fails(e, F_BT, &s0, "maps: try_clone with each element refusing to be cloned");
        bt::refusals(e, F_BT, &s0, bt::OPS_PLAIN, "maps: extend, append, clone and collect, which cannot report it, with each request refused");
        bt::refusals(e, F_BT, &bt::vecs(&bt::full()[..5]), &[bt::APP, bt::CLONE_C, bt::EXT], "maps: the same on full trees");
        bt::refusals(e, F_BT, &s1, if t { bt::OPS_PLAIN } else { &[bt::APP] }, "maps: the same on three-level trees");
        bt::appends(e, F_BT);
        bset::programs(e, F_SET);
        bset::faulted(e, F_SET);
        bset::refusals(e, F_SET);
        bset::consuming(e, F_SET);
        seq::all(e, F_SEQ, false);
        grid::all(e, F_GRID, true);
    }, true),
    p!("C19", |e: &Eng| {
        same::all(e, F_SAME);
        #[cfg(not(feature = "unstable"))]
        hash::prints(e, F_HASH);
        #[cfg(feature = "unstable")]
        {
            bt::equal(e, F_BT);
            let sh = bt::bfs(e, F_BT, bt::EMPTY, bt::OPS_STEP, if e.thorough { 42 } else { 34 }, 2_000_000);
            bt::sames(e, F_BT, &sh);
        }
    }, false),
    p!("C21", |e: &Eng| {
        let all: Vec<u32> = (0..vecs::NTYPES).collect();
        vecs::plain(e, F_VEC, &all, if e.thorough { 4 } else { 3 }, if e.thorough { 4 } else { 3 }, 2);
        vecs::faulted(e, F_VEC, &all, 3, 3, false, true, 3);
        vecs::plain(e, F_VEC, &[12, 13], 2, 2, if e.thorough { 2 } else { 1 });
        vecs::faulted(e, F_VEC, &[12, 13], 2, 2, false, e.thorough, 3);
        zfull::all(e, F_ZFULL);
        misc::ptr_all(e, F_PTR, 2);
        misc::collect_all(e, F_COLLECT, false);
        #[cfg(feature = "unstable")]
        grid::all(e, F_GRID, false);
    }, true),
    p!("C23", |e: &Eng| cause::all(e, F_CAUSE), false),
    p!("C22", |e: &Eng| traits::all(e, F_TRAITS), false),
    p!("C20", |e: &Eng| {
        misc::collect_all(e, F_COLLECT, false);
        large::all(e, F_LARGE, large::COLLECT, true);
    }, true),
];
