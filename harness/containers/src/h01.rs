//! H01: an ordered hash behaves as an insertion-ordered list of pairs.
use crate::common::Hs;
use crate::ops::*;

entries! {
    // small form, all 64 hash bits unknown
    h01_lin_full => history::<3>(Hs::Full, false, 0, 2, &[CORE]);
    h01_lin_full2 => history::<3>(Hs::Full, false, 0, 2, &[MUT, CORE]);
    h01_lin_edge => history::<4>(Hs::Edge, false, 0, 3, &[BASIC]);
    // indexed form
    h01_idx_full => history::<3>(Hs::Full, true, 0, 2, &[CORE]);
    h01_idx_edge => history::<4>(Hs::Edge, true, 0, 3, &[BASIC]);
    h01_idx_edge2 => history::<3>(Hs::Edge, true, 0, 2, &[MUT, CORE]);
    h01_idx_edge3 => history::<3>(Hs::Narrow, true, 0, 2, &[MUT, MUT, CORE]);
    // around the small limit and the growth points of the table
    h01_big_lin => big::<17>(4, false, &[7, 8, 9], &[BASIC]);
    h01_big_idx => big::<17>(4, true, &[7, 13, 14, 15], &[BASIC]);
    h01_big_idx2 => big::<17>(2, true, &[9, 14], &[MUT, CORE]);
}
