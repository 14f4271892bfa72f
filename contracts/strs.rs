// The string vocabulary: texts are sequences of characters, byte offsets are sums of UTF-8 lengths.
// The trait methods below stand for the str methods of the same name; their contracts are assumed, the lemmas are proved.
/*vxmod:strs*/ pub mod strs {
    use vstd::prelude::*;
    pub open spec fn u8len(c: char) -> int { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
    /// length in bytes
    #[verifier::opaque]
    pub open spec fn blen(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + u8len(s.last()) } }
    /// byte offset of character i
    pub open spec fn off(s: Seq<char>, i: int) -> int { blen(s.take(i)) }
    pub open spec fn bnd(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && #[trigger] off(s, i) == b }
    /// character at byte offset b
    pub open spec fn at(s: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= s.len() && #[trigger] off(s, i) == b }
    #[verifier::opaque]
    pub open spec fn occ(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
    /// first / last occurrence, -1 if there is none
    #[verifier::opaque]
    pub open spec fn fnd(s: Seq<char>, p: Seq<char>) -> int { if exists|i: int| occ(s, p, i) { choose|i: int| occ(s, p, i) && forall|j: int| j < i ==> !occ(s, p, j) } else { -1 } }
    #[verifier::opaque]
    pub open spec fn rfnd(s: Seq<char>, p: Seq<char>) -> int { if exists|i: int| occ(s, p, i) { choose|i: int| occ(s, p, i) && forall|j: int| j > i ==> !occ(s, p, j) } else { -1 } }
    pub open spec fn has(s: Seq<char>, p: Seq<char>) -> bool { fnd(s, p) >= 0 }
    pub open spec fn hitc(s: Seq<char>, g: spec_fn(char) -> bool, i: int) -> bool { 0 <= i < s.len() && g(s[i]) }
    #[verifier::opaque]
    pub open spec fn fndc(s: Seq<char>, g: spec_fn(char) -> bool) -> int { if exists|i: int| hitc(s, g, i) { choose|i: int| hitc(s, g, i) && forall|j: int| j < i ==> !hitc(s, g, j) } else { -1 } }
    #[verifier::opaque]
    pub open spec fn rfndc(s: Seq<char>, g: spec_fn(char) -> bool) -> int { if exists|i: int| hitc(s, g, i) { choose|i: int| hitc(s, g, i) && forall|j: int| j > i ==> !hitc(s, g, j) } else { -1 } }
    /// the UTF-8 bytes of one character and of a text
    pub uninterp spec fn enc(c: char) -> Seq<u8>;
    #[verifier::opaque]
    pub open spec fn bytes(s: Seq<char>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { bytes(s.drop_last()) + enc(s.last()) } }
    pub broadcast axiom fn enc_len(c: char) ensures #[trigger] enc(c).len() == u8len(c);
    pub broadcast axiom fn enc_first(c: char) ensures (c as u32) < 0x80 ==> #[trigger] enc(c)[0] == c as u8, (c as u32) >= 0x80 ==> enc(c)[0] >= 0xc2;
    pub uninterp spec fn replaced(s: Seq<char>, from: Seq<char>, to: Seq<char>) -> Seq<char>;
    pub uninterp spec fn tsm(s: Seq<char>, p: Seq<char>) -> Seq<char>;
    pub uninterp spec fn tem(s: Seq<char>, p: Seq<char>) -> Seq<char>;
    pub uninterp spec fn tbm(s: Seq<char>, p: Seq<char>) -> Seq<char>;
    pub uninterp spec fn trim_s(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn trim_e(s: Seq<char>) -> Seq<char>;

    /*vxspec:lemma strings*/
    pub broadcast proof fn blen_pos(s: Seq<char>) ensures #[trigger] blen(s) >= s.len() decreases s.len() { reveal(blen); if s.len() > 0 { blen_pos(s.drop_last()); } }
    pub proof fn blen_add(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b) decreases b.len() {
        reveal(blen);
        if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); blen_add(a, b.drop_last()); } else { assert(a + b =~= a); }
    }
    pub proof fn off_add(s: Seq<char>, i: int, j: int) requires 0 <= i <= j <= s.len() ensures off(s, j) == off(s, i) + blen(s.subrange(i, j)) {
        assert(s.take(j) =~= s.take(i) + s.subrange(i, j)); blen_add(s.take(i), s.subrange(i, j));
    }
    pub broadcast proof fn off_mono(s: Seq<char>, i: int, j: int) requires 0 <= i <= s.len(), 0 <= j <= s.len()
        ensures #![trigger off(s, i), off(s, j)] off(s, i) < off(s, j) <==> i < j, off(s, i) == off(s, j) <==> i == j {
        if i < j { off_add(s, i, j); blen_pos(s.subrange(i, j)); } else if j < i { off_add(s, j, i); blen_pos(s.subrange(j, i)); }
    }
    pub broadcast proof fn off_ends(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures #![trigger off(s, i)] 0 <= off(s, i) <= blen(s), (i == 0 ==> off(s, i) == 0), (i == s.len() ==> off(s, i) == blen(s)), (off(s, i) == 0 ==> i == 0), off(s, i) == blen(s) ==> i == s.len() {
        reveal(blen); assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::empty());
        blen_pos(s.take(i)); off_add(s, i, s.len() as int); blen_pos(s.subrange(i, s.len() as int));
    }
    pub broadcast proof fn off_at(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures #![trigger off(s, i)] bnd(s, off(s, i)), at(s, off(s, i)) == i {
        let k = at(s, off(s, i)); assert(0 <= k <= s.len() && off(s, k) == off(s, i)); off_mono(s, i, k);
    }
    pub broadcast proof fn at_off(s: Seq<char>, b: int) requires #[trigger] bnd(s, b) ensures 0 <= at(s, b) <= s.len(), off(s, at(s, b)) == b {}
    pub broadcast proof fn off_tail(s: Seq<char>, i: int, k: int) requires 0 <= i <= s.len(), 0 <= k, i + k <= s.len()
        ensures #[trigger] off(s.subrange(i, s.len() as int), k) + off(s, i) == off(s, i + k) {
        off_add(s, i, i + k); assert(s.subrange(i, s.len() as int).take(k) =~= s.subrange(i, i + k));
    }
    pub broadcast proof fn off_head(s: Seq<char>, j: int, k: int) requires 0 <= k <= j <= s.len()
        ensures #[trigger] off(s.subrange(0, j), k) == off(s, k) { assert(s.subrange(0, j).take(k) =~= s.take(k)); }
    pub broadcast proof fn blen_one(c: char) ensures #[trigger] blen(seq![c]) == u8len(c) { reveal(blen); reveal_with_fuel(blen, 2); assert(seq![c].drop_last() =~= Seq::empty()); }
    pub broadcast proof fn off_one(s: Seq<char>, i: int) requires 0 <= i < s.len() ensures #![trigger off(s, i), s[i]] off(s, i + 1) == off(s, i) + u8len(s[i]) {
        off_add(s, i, i + 1); assert(s.subrange(i, i + 1) =~= seq![s[i]]); blen_one(s[i]);
    }
    pub broadcast proof fn occ_off(s: Seq<char>, p: Seq<char>, i: int) requires #[trigger] occ(s, p, i)
        ensures 0 <= i, i + p.len() <= s.len(), off(s, i + p.len()) == off(s, i) + blen(p), s.subrange(i, i + p.len()) == p { reveal(occ); off_add(s, i, i + p.len()); }
    proof fn least(s: Seq<char>, p: Seq<char>, i: int) -> (r: int) requires occ(s, p, i) ensures occ(s, p, r), forall|j: int| j < r ==> !occ(s, p, j) decreases i {
        reveal(occ);
        if exists|j: int| j < i && occ(s, p, j) { let j = choose|j: int| j < i && occ(s, p, j); least(s, p, j) } else { i }
    }
    proof fn greatest(s: Seq<char>, p: Seq<char>, i: int) -> (r: int) requires occ(s, p, i) ensures occ(s, p, r), forall|j: int| j > r ==> !occ(s, p, j) decreases s.len() - i {
        reveal(occ);
        if exists|j: int| j > i && occ(s, p, j) { let j = choose|j: int| j > i && occ(s, p, j); greatest(s, p, j) } else { i }
    }
    pub broadcast proof fn fnd_is(s: Seq<char>, p: Seq<char>) ensures -1 <= #[trigger] fnd(s, p), fnd(s, p) >= 0 ==> occ(s, p, fnd(s, p)), forall|j: int| #[trigger] occ(s, p, j) ==> 0 <= fnd(s, p) <= j {
        reveal(fnd);
        if exists|i: int| occ(s, p, i) { let i = choose|i: int| occ(s, p, i); let l = least(s, p, i); assert(occ(s, p, fnd(s, p))); reveal(occ); }
    }
    pub broadcast proof fn rfnd_is(s: Seq<char>, p: Seq<char>) ensures -1 <= #[trigger] rfnd(s, p), rfnd(s, p) >= 0 ==> occ(s, p, rfnd(s, p)), forall|j: int| #[trigger] occ(s, p, j) ==> j <= rfnd(s, p) {
        reveal(rfnd);
        if exists|i: int| occ(s, p, i) { let i = choose|i: int| occ(s, p, i); let l = greatest(s, p, i); assert(occ(s, p, rfnd(s, p))); reveal(occ); }
    }
    proof fn leastc(s: Seq<char>, g: spec_fn(char) -> bool, i: int) -> (r: int) requires hitc(s, g, i) ensures hitc(s, g, r), forall|j: int| j < r ==> !hitc(s, g, j) decreases i {
        if exists|j: int| j < i && hitc(s, g, j) { let j = choose|j: int| j < i && hitc(s, g, j); leastc(s, g, j) } else { i }
    }
    proof fn greatestc(s: Seq<char>, g: spec_fn(char) -> bool, i: int) -> (r: int) requires hitc(s, g, i) ensures hitc(s, g, r), forall|j: int| j > r ==> !hitc(s, g, j) decreases s.len() - i {
        if exists|j: int| j > i && hitc(s, g, j) { let j = choose|j: int| j > i && hitc(s, g, j); greatestc(s, g, j) } else { i }
    }
    pub broadcast proof fn fndc_is(s: Seq<char>, g: spec_fn(char) -> bool) ensures -1 <= #[trigger] fndc(s, g) < s.len() || fndc(s, g) == -1, fndc(s, g) >= 0 ==> fndc(s, g) < s.len() && g(s[fndc(s, g)]), forall|j: int| 0 <= j < s.len() && #[trigger] g(s[j]) ==> 0 <= fndc(s, g) <= j {
        reveal(fndc);
        if exists|i: int| hitc(s, g, i) { let i = choose|i: int| hitc(s, g, i); let l = leastc(s, g, i); assert(hitc(s, g, fndc(s, g))); }
        assert forall|j: int| 0 <= j < s.len() && #[trigger] g(s[j]) implies 0 <= fndc(s, g) <= j by { assert(hitc(s, g, j)); }
    }
    pub broadcast proof fn rfndc_is(s: Seq<char>, g: spec_fn(char) -> bool) ensures -1 <= #[trigger] rfndc(s, g), rfndc(s, g) >= 0 ==> rfndc(s, g) < s.len() && g(s[rfndc(s, g)]), forall|j: int| 0 <= j < s.len() && #[trigger] g(s[j]) ==> j <= rfndc(s, g) {
        reveal(rfndc);
        if exists|i: int| hitc(s, g, i) { let i = choose|i: int| hitc(s, g, i); let l = greatestc(s, g, i); assert(hitc(s, g, rfndc(s, g))); }
        assert forall|j: int| 0 <= j < s.len() && #[trigger] g(s[j]) implies j <= rfndc(s, g) by { assert(hitc(s, g, j)); }
    }
    /// two predicates that agree on every character find the same place
    pub proof fn fndc_eq(s: Seq<char>, g: spec_fn(char) -> bool, h: spec_fn(char) -> bool) requires forall|c: char| #[trigger] g(c) == h(c) ensures fndc(s, g) == fndc(s, h), rfndc(s, g) == rfndc(s, h) {
        fndc_is(s, g); fndc_is(s, h); rfndc_is(s, g); rfndc_is(s, h);
        assert(g =~= h);
    }
    pub proof fn bytes_add(a: Seq<char>, b: Seq<char>) ensures bytes(a + b) == bytes(a) + bytes(b) decreases b.len() {
        reveal(bytes);
        if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); bytes_add(a, b.drop_last()); assert(bytes(a + b) =~= bytes(a) + bytes(b)); } else { assert(a + b =~= a); assert(bytes(a) =~= bytes(a) + bytes(b)); }
    }
    pub broadcast proof fn bytes_len(s: Seq<char>) ensures #[trigger] bytes(s).len() == blen(s) decreases s.len() { reveal(bytes); reveal(blen); broadcast use enc_len; if s.len() > 0 { bytes_len(s.drop_last()); } }
    /// the byte at the offset of a character is the first byte of that character
    pub broadcast proof fn byte_at(s: Seq<char>, i: int) requires 0 <= i < s.len()
        ensures #![trigger bytes(s), off(s, i)] off(s, i) < bytes(s).len(), bytes(s)[off(s, i)] == enc(s[i])[0], (s[i] as u32) < 0x80 ==> bytes(s)[off(s, i)] == s[i] as u8, (s[i] as u32) >= 0x80 ==> bytes(s)[off(s, i)] >= 0xc2 {
        broadcast use {enc_len, enc_first};
        let a = s.take(i); let b = s.subrange(i + 1, s.len() as int);
        assert(s =~= (a + seq![s[i]]) + b);
        bytes_add(a + seq![s[i]], b); bytes_add(a, seq![s[i]]); bytes_len(a); bytes_len(s);
        reveal_with_fuel(bytes, 2); assert(seq![s[i]].drop_last() =~= Seq::empty()); assert(bytes(seq![s[i]]) =~= enc(s[i]));
        off_one(s, i); off_ends(s, i + 1);
    }
    /// a part of a part is a part
    pub proof fn parts(s: Seq<char>) ensures forall|a: int, b: int, c: int, d: int| 0 <= a <= b <= s.len() && 0 <= c <= d <= b - a ==> #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d) {
        assert forall|a: int, b: int, c: int, d: int| 0 <= a <= b <= s.len() && 0 <= c <= d <= b - a implies #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d) by { assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
    }
    pub broadcast group group {
        blen_pos, off_mono, off_ends, off_at, at_off, off_tail, off_head, blen_one, off_one, occ_off, fnd_is, rfnd_is, fndc_is, rfndc_is, pt_str, pt_string, pt_char, vstd::string::group_string_axioms
    }
    pub broadcast group group_b { bytes_len, byte_at }
    /*vxspec:*/

    pub trait VxPat: Sized { spec fn pt(self) -> Seq<char>; }
    impl<'a> VxPat for &'a str { uninterp spec fn pt(self) -> Seq<char>; }
    impl<'a> VxPat for &'a String { uninterp spec fn pt(self) -> Seq<char>; }
    impl VxPat for char { uninterp spec fn pt(self) -> Seq<char>; }
    pub broadcast axiom fn pt_str(p: &str) ensures #[trigger] p.pt() == p@;
    pub broadcast axiom fn pt_string(p: &String) ensures #[trigger] p.pt() == p@;
    pub broadcast axiom fn pt_char(p: char) ensures #[trigger] p.pt() == seq![p];

    pub open spec fn found(s: Seq<char>, i: int, r: Option<usize>) -> bool { if i >= 0 { r is Some && r->Some_0 == off(s, i) && i <= s.len() && r->Some_0 <= blen(s) <= isize::MAX } else { r is None } }
    pub open spec fn pure_<F: Fn(char) -> bool>(g: spec_fn(char) -> bool, f: F) -> bool { (forall|c: char| call_requires(f, (c,))) && forall|c: char, b: bool| call_ensures(f, (c,), b) ==> b == g(c) }
    pub open spec fn split_at(s: Seq<char>, i: int, n: int, r: Option<(&str, &str)>) -> bool { if i >= 0 { r is Some && r->Some_0.0@ == s.subrange(0, i) && r->Some_0.1@ == s.subrange(i + n, s.len() as int) } else { r is None } }

    pub trait VxStr {
        spec fn tx(&self) -> Seq<char>;
        fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) ensures found(self.tx(), fnd(self.tx(), p.pt()), r);
        fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>) ensures found(self.tx(), rfnd(self.tx(), p.pt()), r);
        fn vx_find_c<F: Fn(char) -> bool>(&self, g: Ghost<spec_fn(char) -> bool>, f: F) -> (r: Option<usize>) requires pure_(g@, f) ensures found(self.tx(), fndc(self.tx(), g@), r);
        fn vx_rfind_c<F: Fn(char) -> bool>(&self, g: Ghost<spec_fn(char) -> bool>, f: F) -> (r: Option<usize>) requires pure_(g@, f) ensures found(self.tx(), rfndc(self.tx(), g@), r);
        fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == has(self.tx(), p.pt());
        fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == occ(self.tx(), p.pt(), 0);
        fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == occ(self.tx(), p.pt(), self.tx().len() - p.pt().len());
        fn vx_trim_start_matches<P: VxPat>(&self, p: P) -> (r: &str) ensures r@ == tsm(self.tx(), p.pt());
        fn vx_trim_end_matches<P: VxPat>(&self, p: P) -> (r: &str) ensures r@ == tem(self.tx(), p.pt());
        fn vx_trim_matches<P: VxPat>(&self, p: P) -> (r: &str) ensures r@ == tbm(self.tx(), p.pt());
        fn vx_trim_start(&self) -> (r: &str) ensures r@ == trim_s(self.tx());
        fn vx_trim_end(&self) -> (r: &str) ensures r@ == trim_e(self.tx());
        fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) ensures r@ == replaced(self.tx(), p.pt(), to@);
        fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) ensures split_at(self.tx(), fnd(self.tx(), p.pt()), p.pt().len() as int, r);
        fn vx_rsplit_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) ensures split_at(self.tx(), rfnd(self.tx(), p.pt()), p.pt().len() as int, r);
        fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) ensures if occ(self.tx(), p.pt(), 0) { r is Some && r->Some_0@ == self.tx().subrange(p.pt().len() as int, self.tx().len() as int) } else { r is None };
        fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) ensures if occ(self.tx(), p.pt(), self.tx().len() - p.pt().len()) { r is Some && r->Some_0@ == self.tx().subrange(0, self.tx().len() - p.pt().len()) } else { r is None };
        fn vx_sl(&self, a: usize, b: usize) -> (r: &str) requires bnd(self.tx(), a as int), bnd(self.tx(), b as int), a <= b ensures r@ == self.tx().subrange(at(self.tx(), a as int), at(self.tx(), b as int));
        fn vx_from(&self, a: usize) -> (r: &str) requires bnd(self.tx(), a as int) ensures r@ == self.tx().subrange(at(self.tx(), a as int), self.tx().len() as int);
        fn vx_to(&self, b: usize) -> (r: &str) requires bnd(self.tx(), b as int) ensures r@ == self.tx().subrange(0, at(self.tx(), b as int));
        fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == bytes(self.tx()), blen(self.tx()) <= isize::MAX;
    }
    impl VxStr for str { open spec fn tx(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
        #[verifier::external_body] fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
        #[verifier::external_body] fn vx_find_c<F: Fn(char) -> bool>(&self, g: Ghost<spec_fn(char) -> bool>, f: F) -> (r: Option<usize>) { unimplemented!() }
        #[verifier::external_body] fn vx_rfind_c<F: Fn(char) -> bool>(&self, g: Ghost<spec_fn(char) -> bool>, f: F) -> (r: Option<usize>) { unimplemented!() }
        #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_start_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_end_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
        #[verifier::external_body] fn vx_rsplit_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
        #[verifier::external_body] fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
        #[verifier::external_body] fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
        #[verifier::external_body] fn vx_sl(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    }
    impl VxStr for String { open spec fn tx(&self) -> Seq<char> { self@ }
        #[verifier::external_body] fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
        #[verifier::external_body] fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
        #[verifier::external_body] fn vx_find_c<F: Fn(char) -> bool>(&self, g: Ghost<spec_fn(char) -> bool>, f: F) -> (r: Option<usize>) { unimplemented!() }
        #[verifier::external_body] fn vx_rfind_c<F: Fn(char) -> bool>(&self, g: Ghost<spec_fn(char) -> bool>, f: F) -> (r: Option<usize>) { unimplemented!() }
        #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_start_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_end_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) { unimplemented!() }
        #[verifier::external_body] fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
        #[verifier::external_body] fn vx_rsplit_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
        #[verifier::external_body] fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
        #[verifier::external_body] fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
        #[verifier::external_body] fn vx_sl(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &str) { unimplemented!() }
        #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    }
    pub trait VxLen { spec fn ln(&self) -> int; fn vx_len(&self) -> (r: usize) ensures r == self.ln(), r <= isize::MAX; fn vx_is_empty(&self) -> (r: bool) ensures r == (self.ln() == 0); }
    impl VxLen for str { open spec fn ln(&self) -> int { blen(self@) }
        #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
    impl VxLen for String { open spec fn ln(&self) -> int { blen(self@) }
        #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
    impl<T> VxLen for [T] { open spec fn ln(&self) -> int { self@.len() as int }
        #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
    impl<T> VxLen for Vec<T> { open spec fn ln(&self) -> int { self@.len() as int }
        #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
    pub assume_specification [char::is_ascii_whitespace](c: &char) -> (r: bool) ensures r == crate::rt::aws(*c);
    pub trait VxBox<T: ?Sized> { fn vx_as_ref(&self) -> (r: &T); }
    impl<T> VxBox<T> for Box<T> { fn vx_as_ref(&self) -> (r: &T) ensures *r == **self { &**self } }
    pub trait VxOpt<T> { fn vx_as_ref(&self) -> (r: Option<&T>); }
    impl<T> VxOpt<T> for Option<T> { fn vx_as_ref(&self) -> (r: Option<&T>) ensures *self is Some ==> r is Some && *(r->Some_0) == (*self)->Some_0, *self is None ==> r is None { match self { Some(x) => Some(x), None => None } } }
}
