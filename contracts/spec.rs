// The specification vocabulary of C01-C06: what the report of a value is.
/*vxmod:vx*/ pub mod vx {
    use vstd::prelude::*;
    use crate::error::ValidationError;
    use crate::parse_result::*;
    use crate::validation::*;
    use crate::regex::{re_valid, re_search};
    use crate::rt::trim;

    pub ghost struct VKey { pub code: int, pub field: Option<Seq<char>>, pub path: Option<Seq<char>> }
    pub open spec fn ostr(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
    pub open spec fn vkey(e: ValidationError) -> VKey { VKey { code: e.code as int, field: ostr(e.field), path: ostr(e.path) } }
    pub open spec fn mk(code: int, f: Seq<char>, p: Seq<char>) -> VKey { VKey { code, field: Some(f), path: Some(p) } }
    pub open spec fn one(b: bool) -> nat { if b { 1nat } else { 0nat } }

    /// how many errors of s carry key k
    pub open spec fn cnt(s: Seq<ValidationError>, k: VKey) -> nat decreases s.len() {
        if s.len() == 0 { 0 } else { cnt(s.drop_last(), k) + one(vkey(s.last()) == k) }
    }
    pub broadcast proof fn cnt_push(s: Seq<ValidationError>, e: ValidationError, k: VKey)
        ensures #[trigger] cnt(s.push(e), k) == cnt(s, k) + one(vkey(e) == k)
    { assert(s.push(e).drop_last() =~= s); }

    pub broadcast proof fn push_drop(s: Seq<ValidationError>, e: ValidationError)
        ensures #[trigger] s.push(e).drop_last() == s
    { assert(s.push(e).drop_last() =~= s); }

    /// path of a child element
    #[verifier::opaque]
    pub open spec fn cpath(p: Seq<char>, f: Seq<char>) -> Seq<char> { if p.len() == 0 { f } else { p + "."@ + f } }

    // ---- facets
    pub open spec fn short(s: Seq<char>, mi: Option<usize>) -> bool { mi is Some && s.len() < mi->0 }
    pub open spec fn long(s: Seq<char>, mx: Option<usize>) -> bool { mx is Some && s.len() > mx->0 }
    /// the regex text that a whole-value match of pattern p compiles to
    pub open spec fn whole(p: Seq<char>) -> Seq<char> { "^(?:"@ + p + ")$"@ }
    pub open spec fn re_ok(p: Seq<char>) -> bool { re_valid(whole(p)) }
    /// pattern p matches the whole of the trimmed value
    pub open spec fn full_match(p: Seq<char>, s: Seq<char>) -> bool { re_search(whole(p), trim(s)) }

    #[verifier::opaque]
    pub open spec fn ok_len(s: Seq<char>, mi: Option<usize>, mx: Option<usize>) -> bool { !short(s, mi) && !long(s, mx) }
    #[verifier::opaque]
    pub open spec fn ok_pat(s: Seq<char>, p: Seq<char>) -> bool { re_ok(p) && full_match(p, s) }
    #[verifier::opaque]
    pub open spec fn vlen(s: Seq<char>, mi: Option<usize>, mx: Option<usize>, f: Seq<char>, p: Seq<char>, k: VKey) -> nat {
       one(short(s, mi) && k == mk(1001, f, p)) + one(long(s, mx) && k == mk(1002, f, p))
    }
    #[verifier::opaque]
    pub open spec fn vpat(s: Seq<char>, re: Seq<char>, f: Seq<char>, p: Seq<char>, k: VKey) -> nat {
       if !re_ok(re) { one(k == mk(9999, f, p)) } else { one(!full_match(re, s) && k == mk(1005, f, p)) }
    }

    // ---- exact contract of one helper call (C03)
    pub open spec fn len_keys(s: Seq<char>, mi: Option<usize>, mx: Option<usize>, f: Seq<char>, p: Seq<char>, ff: bool) -> Seq<VKey> {
        (if short(s, mi) { seq![mk(1001, f, p)] } else { seq![] })
        + (if long(s, mx) && !(ff && short(s, mi)) { seq![mk(1002, f, p)] } else { seq![] })
    }
    pub open spec fn pat_keys(s: Seq<char>, re: Seq<char>, f: Seq<char>, p: Seq<char>) -> Seq<VKey> {
        if !re_ok(re) { seq![mk(9999, f, p)] } else if !full_match(re, s) { seq![mk(1005, f, p)] } else { seq![] }
    }
    /// f is o followed by errors with exactly these keys
    pub open spec fn appended(o: Seq<ValidationError>, f: Seq<ValidationError>, ks: Seq<VKey>) -> bool {
        &&& f.len() == o.len() + ks.len()
        &&& forall|i: int| 0 <= i < o.len() ==> f[i] == o[i]
        &&& forall|j: int| 0 <= j < ks.len() ==> vkey(f[o.len() + j]) == ks[j]
    }

    // ---- the clause families, as relations between the collector before (o) and after (f)
    /// C01: verdict
    #[verifier::opaque]
    pub open spec fn rel_ok(o: ErrorCollector, f: ErrorCollector, ff: bool, ok: bool) -> bool {
        &&& f.errs().len() >= o.errs().len()
        &&& (!ff || !o.crit()) ==> (f.errs().len() == o.errs().len() <==> ok)
        &&& ff ==> (f.errs().len() > o.errs().len() ==> f.crit())
        &&& ff ==> (f.errs().len() == o.errs().len() ==> f.crit() == o.crit())
        &&& ff && o.crit() ==> f.errs().len() == o.errs().len()
    }
    /// C04: frame
    #[verifier::opaque]
    pub open spec fn rel_frame(o: ErrorCollector, f: ErrorCollector, ff: bool) -> bool {
        &&& f.errs().len() >= o.errs().len()
        &&& forall|i: int| 0 <= i < o.errs().len() ==> #[trigger] f.errs()[i] == o.errs()[i]
        &&& !ff ==> f.crit() == o.crit()
        &&& ff ==> f.crit() == (o.crit() || f.errs().len() > o.errs().len())
    }

    /// C05: fail-fast; w = the (single) new error is one of the full report
    #[verifier::opaque]
    pub open spec fn rel_first(o: ErrorCollector, f: ErrorCollector, ff: bool, ok: bool, w: bool) -> bool {
        &&& ff && o.crit() ==> f.errs() == o.errs() && f.crit()
        &&& ff && !o.crit() && ok ==> f.errs() == o.errs() && !f.crit()
        &&& ff && !o.crit() && !ok ==> f.errs().len() == o.errs().len() + 1 && f.errs().drop_last() == o.errs() && f.crit() && w
    }
    pub proof fn rf_ok(o: ErrorCollector, ff: bool) ensures rel_ok(o, o, ff, true) { reveal(rel_ok); }
    pub proof fn rf_frame(o: ErrorCollector, ff: bool) ensures rel_frame(o, o, ff) { reveal(rel_frame); }
    pub proof fn rf_first(o: ErrorCollector, ff: bool, w: bool) ensures rel_first(o, o, ff, true, w) { reveal(rel_first); }
    pub proof fn tr_ok(o: ErrorCollector, a: ErrorCollector, f: ErrorCollector, ff: bool, x: bool, y: bool)
        requires rel_ok(o, a, ff, x), rel_ok(a, f, ff, y) ensures rel_ok(o, f, ff, x && y) { reveal(rel_ok); }
    pub proof fn tr_frame(o: ErrorCollector, a: ErrorCollector, f: ErrorCollector, ff: bool)
        requires rel_frame(o, a, ff), rel_frame(a, f, ff) ensures rel_frame(o, f, ff) { reveal(rel_frame); }
    pub proof fn tr_first(o: ErrorCollector, a: ErrorCollector, f: ErrorCollector, ff: bool, x: bool, y: bool, wx: bool, wy: bool, w: bool)
        requires rel_first(o, a, ff, x, wx), rel_first(a, f, ff, y, wy), f.errs() == a.errs() ==> (wx ==> w), wy ==> w
        ensures rel_first(o, f, ff, x && y, w) { reveal(rel_first); }

    // ---- folds over lists
    pub open spec fn sum_rec<T: Validate>(s: Seq<T>, p: Seq<char>, opt: bool, k: VKey) -> nat decreases s.len() {
       if s.len() == 0 { 0 } else { sum_rec(s.drop_last(), p, opt, k) + s.last().viols(p, opt, k) }
    }
    pub open spec fn sum_len(s: Seq<String>, mi: Option<usize>, mx: Option<usize>, f: Seq<char>, p: Seq<char>, k: VKey) -> nat decreases s.len() {
       if s.len() == 0 { 0 } else { sum_len(s.drop_last(), mi, mx, f, p, k) + vlen(s.last()@, mi, mx, f, p, k) }
    }
    pub open spec fn sum_pat(s: Seq<String>, re: Seq<char>, f: Seq<char>, p: Seq<char>, k: VKey) -> nat decreases s.len() {
       if s.len() == 0 { 0 } else { sum_pat(s.drop_last(), re, f, p, k) + vpat(s.last()@, re, f, p, k) }
    }
    pub broadcast proof fn sum_rec_step<T: Validate>(s: Seq<T>, n: int, p: Seq<char>, opt: bool, k: VKey)
       requires 0 <= n < s.len()
       ensures #[trigger] sum_rec(s.take(n + 1), p, opt, k) == sum_rec(s.take(n), p, opt, k) + s[n].viols(p, opt, k)
    { assert(s.take(n + 1).drop_last() =~= s.take(n)); }
    pub broadcast proof fn sum_len_step(s: Seq<String>, n: int, mi: Option<usize>, mx: Option<usize>, f: Seq<char>, p: Seq<char>, k: VKey)
       requires 0 <= n < s.len()
       ensures #[trigger] sum_len(s.take(n + 1), mi, mx, f, p, k) == sum_len(s.take(n), mi, mx, f, p, k) + vlen(s[n]@, mi, mx, f, p, k)
    { assert(s.take(n + 1).drop_last() =~= s.take(n)); }
    pub broadcast proof fn sum_pat_step(s: Seq<String>, n: int, re: Seq<char>, f: Seq<char>, p: Seq<char>, k: VKey)
       requires 0 <= n < s.len()
       ensures #[trigger] sum_pat(s.take(n + 1), re, f, p, k) == sum_pat(s.take(n), re, f, p, k) + vpat(s[n]@, re, f, p, k)
    { assert(s.take(n + 1).drop_last() =~= s.take(n)); }
    pub broadcast proof fn take_all<T>(s: Seq<T>) ensures #[trigger] s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }

    pub open spec fn all_rec<T: Validate>(s: Seq<T>, opt: bool) -> bool decreases s.len() {
       s.len() == 0 || (all_rec(s.drop_last(), opt) && s.last().ok(opt))
    }
    pub open spec fn all_len(s: Seq<String>, mi: Option<usize>, mx: Option<usize>) -> bool decreases s.len() {
       s.len() == 0 || (all_len(s.drop_last(), mi, mx) && ok_len(s.last()@, mi, mx))
    }
    pub open spec fn all_pat(s: Seq<String>, re: Seq<char>) -> bool decreases s.len() {
       s.len() == 0 || (all_pat(s.drop_last(), re) && ok_pat(s.last()@, re))
    }
    pub broadcast proof fn all_rec_step<T: Validate>(s: Seq<T>, n: int, opt: bool)
       requires 0 <= n < s.len()
       ensures #[trigger] all_rec(s.take(n + 1), opt) == (all_rec(s.take(n), opt) && s[n].ok(opt))
    { assert(s.take(n + 1).drop_last() =~= s.take(n)); }
    pub broadcast proof fn all_len_step(s: Seq<String>, n: int, mi: Option<usize>, mx: Option<usize>)
       requires 0 <= n < s.len()
       ensures #[trigger] all_len(s.take(n + 1), mi, mx) == (all_len(s.take(n), mi, mx) && ok_len(s[n]@, mi, mx))
    { assert(s.take(n + 1).drop_last() =~= s.take(n)); }
    pub broadcast proof fn all_pat_step(s: Seq<String>, n: int, re: Seq<char>)
       requires 0 <= n < s.len()
       ensures #[trigger] all_pat(s.take(n + 1), re) == (all_pat(s.take(n), re) && ok_pat(s[n]@, re))
    { assert(s.take(n + 1).drop_last() =~= s.take(n)); }
    pub broadcast group vgroup {
        sum_rec_step, sum_len_step, sum_pat_step, take_all,
        all_rec_step, all_len_step, all_pat_step,
    }
}
