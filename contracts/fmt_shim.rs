// std::fmt: the text written so far is the view of a formatter; s_plain: no width, precision or other flags;
// s_sink: where the text goes to never refuses it.
pub mod fmt {
    use super::*;
    #[verifier::external_body]
    pub struct Error { e: () }
    pub type Result = core::result::Result<(), Error>;
    #[verifier::external_body]
    pub struct Formatter<'a> { x: PhantomData<&'a ()> }
    impl<'a> Formatter<'a> {
        pub uninterp spec fn view(&self) -> Seq<char>;
        pub uninterp spec fn s_plain(&self) -> bool;
        pub uninterp spec fn s_sink(&self) -> bool;
        #[verifier::external_body]
        pub fn write_str(&mut self, t: &str) -> (r: Result) ensures s_wrote(*old(self), *final(self), r, t@) { unimplemented!() }
        #[verifier::external_body]
        pub fn write_char(&mut self, c: char) -> (r: Result) ensures s_wrote(*old(self), *final(self), r, seq![c]) { unimplemented!() }
    }
    /// what writing a text does
    pub open spec fn s_wrote<'a>(f: Formatter<'a>, g: Formatter<'a>, r: Result, t: Seq<char>) -> bool {
        &&& g.s_plain() == f.s_plain() && g.s_sink() == f.s_sink()
        &&& f.s_sink() ==> r is Ok
        &&& r is Ok ==> g@ == f@ + t
    }
    pub trait Debug {
        spec fn s_fmt_ok(&self) -> bool;
        spec fn s_debug(&self) -> Seq<char>;
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
            requires self.s_fmt_ok(), old(f).s_plain()
            ensures s_wrote(*old(f), *final(f), r, self.s_debug());
    }
    pub trait Display {
        spec fn s_show_ok(&self) -> bool;
        spec fn s_display(&self) -> Seq<char>;
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
            requires self.s_show_ok(), old(f).s_plain()
            ensures s_wrote(*old(f), *final(f), r, self.s_display());
    }
}
use fmt::{Debug, Display, Formatter, s_wrote};
#[verifier::external_body]
pub fn vp_write_str<'a>(f: &mut Formatter<'a>, t: &str) -> (r: fmt::Result) ensures s_wrote(*old(f), *final(f), r, t@) { unimplemented!() }
// {} and {:?} of write!: the argument is formatted without flags, whatever those of the formatter are
#[verifier::external_body]
pub fn vp_write_display<'a, T: Display>(f: &mut Formatter<'a>, x: &T) -> (r: fmt::Result)
    requires x.s_show_ok()
    ensures s_wrote(*old(f), *final(f), r, x.s_display()) { unimplemented!() }
#[verifier::external_body]
pub fn vp_write_debug<'a, T: Debug>(f: &mut Formatter<'a>, x: &T) -> (r: fmt::Result)
    requires x.s_fmt_ok()
    ensures s_wrote(*old(f), *final(f), r, x.s_debug()) { unimplemented!() }
/// the decimal digits of an integer
pub uninterp spec fn s_dec(i: int) -> Seq<char>;
impl Debug for u8 { open spec fn s_fmt_ok(&self) -> bool { true } open spec fn s_debug(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Display for u8 { open spec fn s_show_ok(&self) -> bool { true } open spec fn s_display(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Debug for u16 { open spec fn s_fmt_ok(&self) -> bool { true } open spec fn s_debug(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Display for u16 { open spec fn s_show_ok(&self) -> bool { true } open spec fn s_display(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Debug for u32 { open spec fn s_fmt_ok(&self) -> bool { true } open spec fn s_debug(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Display for u32 { open spec fn s_show_ok(&self) -> bool { true } open spec fn s_display(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Debug for u64 { open spec fn s_fmt_ok(&self) -> bool { true } open spec fn s_debug(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Display for u64 { open spec fn s_show_ok(&self) -> bool { true } open spec fn s_display(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Debug for usize { open spec fn s_fmt_ok(&self) -> bool { true } open spec fn s_debug(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Display for usize { open spec fn s_show_ok(&self) -> bool { true } open spec fn s_display(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Debug for i8 { open spec fn s_fmt_ok(&self) -> bool { true } open spec fn s_debug(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Display for i8 { open spec fn s_show_ok(&self) -> bool { true } open spec fn s_display(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Debug for i16 { open spec fn s_fmt_ok(&self) -> bool { true } open spec fn s_debug(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Display for i16 { open spec fn s_show_ok(&self) -> bool { true } open spec fn s_display(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Debug for i32 { open spec fn s_fmt_ok(&self) -> bool { true } open spec fn s_debug(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Display for i32 { open spec fn s_show_ok(&self) -> bool { true } open spec fn s_display(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Debug for i64 { open spec fn s_fmt_ok(&self) -> bool { true } open spec fn s_debug(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Display for i64 { open spec fn s_show_ok(&self) -> bool { true } open spec fn s_display(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Debug for isize { open spec fn s_fmt_ok(&self) -> bool { true } open spec fn s_debug(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Display for isize { open spec fn s_show_ok(&self) -> bool { true } open spec fn s_display(&self) -> Seq<char> { s_dec(*self as int) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl<T: Display> Display for &T { open spec fn s_show_ok(&self) -> bool { (**self).s_show_ok() } open spec fn s_display(&self) -> Seq<char> { (**self).s_display() }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Display for &str { open spec fn s_show_ok(&self) -> bool { true } open spec fn s_display(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
impl Display for char { open spec fn s_show_ok(&self) -> bool { true } open spec fn s_display(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
/// numbers separated by a comma and a space
pub open spec fn s_list(w: Seq<u32>) -> Seq<char> decreases w.len() {
    if w.len() == 0 { Seq::empty() }
    else if w.len() == 1 { s_dec(w[0] as int) }
    else { s_list(w.drop_last()) + seq![',', ' '] + s_dec(w.last() as int) }
}
pub open spec fn s_bracketed(w: Seq<u32>) -> Seq<char> { seq!['('] + s_list(w) + seq![')'] }
/// the letters of a word from the last to the first, the first i of them
pub open spec fn s_back(w: Seq<u32>, i: int) -> Seq<u32> { Seq::new(i as nat, |j: int| w[w.len() - 1 - j]) }
pub proof fn lemma_back(w: Seq<u32>, i: int)
    requires 0 <= i < w.len()
    ensures s_back(w, 0) == Seq::<u32>::empty(), s_back(w, i + 1).len() == i + 1, s_back(w, i + 1).drop_last() == s_back(w, i), s_back(w, i + 1).last() == w[w.len() - 1 - i],
        s_list(s_back(w, i + 1)) == (if i == 0 { s_dec(w[w.len() - 1] as int) } else { s_list(s_back(w, i)) + seq![',', ' '] + s_dec(w[w.len() - 1 - i] as int) })
{
    assert(s_back(w, 0) =~= Seq::<u32>::empty());
    assert(s_back(w, i + 1).drop_last() =~= s_back(w, i));
}
/// texts are the same however they were put together
pub proof fn lemma_texts()
    ensures
        forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) == a + (b + c),
        forall|a: Seq<char>| a + Seq::<char>::empty() == a, "("@ == seq!['('], ")"@ == seq![')'], ", "@ == seq![',', ' '], ","@ == seq![','], " "@ == seq![' '], ""@ == Seq::<char>::empty(), "()"@ == seq!['('] + seq![')'], seq![','] + seq![' '] == seq![',', ' ']
{
    reveal_strlit("("); reveal_strlit(")"); reveal_strlit(", "); reveal_strlit(","); reveal_strlit(" "); reveal_strlit(""); reveal_strlit("()");
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) == a + (b + c) by { assert(((a + b) + c) =~= a + (b + c)); }
    assert forall|a: Seq<char>| a + Seq::<char>::empty() == a by { assert(a + Seq::<char>::empty() =~= a); }
    assert("("@ =~= seq!['(']); assert(")"@ =~= seq![')']); assert(", "@ =~= seq![',', ' ']); assert(","@ =~= seq![',']); assert(" "@ =~= seq![' ']);
    assert(""@ =~= Seq::<char>::empty()); assert("()"@ =~= seq!['('] + seq![')']); assert(seq![','] + seq![' '] =~= seq![',', ' ']);
}
impl<T: Debug> Debug for &T { open spec fn s_fmt_ok(&self) -> bool { (**self).s_fmt_ok() } open spec fn s_debug(&self) -> Seq<char> { (**self).s_debug() }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { unimplemented!() } }
