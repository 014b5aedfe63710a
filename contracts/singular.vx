//@ include words.vx
//@ raw
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
pub proof fn lemma_blen_ascii_tail(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| s.len() - k <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80,
    ensures blen(s.take(s.len() - k)) == blen(s) - k, blen(s) >= k,
    decreases k,
{
    if k == 0 { assert(s.take(s.len() as int) =~= s); }
    else {
        lemma_blen_ascii_tail(s.drop_last(), k - 1);
        assert(s.drop_last().take(s.len() - k) =~= s.take(s.len() - k));
    }
}
// where the lower case of s ends in suf, s may be cut before any of these characters
pub broadcast proof fn lemma_lows_suffix(s: Seq<char>, suf: Seq<char>, n: nat)
    requires #[trigger] is_suffix(suf, lows(s)), ascii(suf), blen(s) - suf.len() <= n <= blen(s),
    ensures #[trigger] boundary(s, n),
{
    assert forall|i: int| s.len() - suf.len() <= i < s.len() implies (#[trigger] s[i] as u32) < 0x80 by {
        let j = i - (s.len() - suf.len());
        assert(lows(s).skip(s.len() - suf.len())[j] == suf[j]);
        assert(low(s[i]) == suf[j]);
    }
    let k = blen(s) - n;
    lemma_blen_ascii_tail(s, k);
    assert(blen(s.take(s.len() - k)) == n);
}
pub broadcast proof fn lemma_lows_suffix_len(s: Seq<char>, suf: Seq<char>)
    requires #[trigger] is_suffix(suf, lows(s)), ascii(suf),
    ensures blen(s) >= suf.len(),
{
    assert forall|i: int| s.len() - suf.len() <= i < s.len() implies (#[trigger] s[i] as u32) < 0x80 by {
        let j = i - (s.len() - suf.len());
        assert(lows(s).skip(s.len() - suf.len())[j] == suf[j]);
        assert(low(s[i]) == suf[j]);
    }
    lemma_blen_ascii_tail(s, suf.len() as int);
}
pub trait VxSlice { spec fn slv(&self) -> Seq<char>;
    fn vx_slice(&self, lo: usize, hi: usize) -> (r: &str)
        requires lo == 0, boundary(self.slv(), hi as nat),
        ensures forall|i: int| 0 <= i <= self.slv().len() && #[trigger] blen(self.slv().take(i)) == hi ==> r@ == self.slv().take(i);
    fn vx_slice_from(&self, lo: usize) -> (r: &str)
        requires boundary(self.slv(), lo as nat),
        ensures forall|i: int| 0 <= i <= self.slv().len() && #[trigger] blen(self.slv().take(i)) == lo ==> r@ == self.slv().skip(i);
}
impl<'a> VxSlice for &'a str { open spec fn slv(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn vx_slice(&self, lo: usize, hi: usize) -> (r: &str) { unimplemented!() } #[verifier::external_body] fn vx_slice_from(&self, lo: usize) -> (r: &str) { unimplemented!() } }
impl VxSlice for str { open spec fn slv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_slice(&self, lo: usize, hi: usize) -> (r: &str) { unimplemented!() } #[verifier::external_body] fn vx_slice_from(&self, lo: usize) -> (r: &str) { unimplemented!() } }
impl VxSlice for String { open spec fn slv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_slice(&self, lo: usize, hi: usize) -> (r: &str) { unimplemented!() } #[verifier::external_body] fn vx_slice_from(&self, lo: usize) -> (r: &str) { unimplemented!() } }
//@ rename-method len => vx_len
//@ file json_typegen_shared/src/to_singular.rs
//@ const ENDS_WITH_RULES unroll
//@ fn to_singular
    ensures true
//@ at start
    broadcast use {lemma_lows_suffix, lemma_lows_suffix_len};
    proof {
        reveal_strlit("series"); assert(ascii("series"@));
        reveal_strlit("cookies"); assert(ascii("cookies"@));
        reveal_strlit("movies"); assert(ascii("movies"@));
        reveal_strlit("ies"); assert(ascii("ies"@));
        reveal_strlit("les"); assert(ascii("les"@));
        reveal_strlit("pes"); assert(ascii("pes"@));
        reveal_strlit("ss"); assert(ascii("ss"@));
        reveal_strlit("es"); assert(ascii("es"@));
        reveal_strlit("is"); assert(ascii("is"@));
        reveal_strlit("as"); assert(ascii("as"@));
        reveal_strlit("us"); assert(ascii("us"@));
        reveal_strlit("os"); assert(ascii("os"@));
        reveal_strlit("news"); assert(ascii("news"@));
        reveal_strlit("s"); assert(ascii("s"@));
    }
