/*vxmod:lem06*/ pub mod lem06 {
    use vstd::prelude::*; use crate::vx::*; use crate::validation::*;
    pub proof fn sum_rec_mono<T: Validate>(s: Seq<T>, p: Seq<char>, k: VKey)
        ensures sum_rec(s, p, false, k) <= sum_rec(s, p, true, k) decreases s.len()
    { if s.len() > 0 { sum_rec_mono(s.drop_last(), p, k); s.last().lem_mono(p, k); } }
}
