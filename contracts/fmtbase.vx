@raw
/// Stand-in for `std::fmt`.
pub mod fmt {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct Formatter<'a> { p: &'a () }
    pub struct Error {}
    pub type Result = core::result::Result<(), Error>;
    impl<'a> Formatter<'a> {
        /// What was written so far.
        pub uninterp spec fn text(&self) -> Seq<char>;
        /// Writing to the underlying sink cannot fail (a `String`).
        pub uninterp spec fn ok(&self) -> bool;

        #[verifier::external_body]
        pub fn write_str(&mut self, s: &str) -> (r: Result)
            ensures
                wrote(*old(self), *final(self), r, s@),
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn write_char(&mut self, c: char) -> (r: Result)
            ensures
                wrote(*old(self), *final(self), r, seq![c]),
        {
            unimplemented!()
        }
    }
    }
}
verus! {

// ---------------------------------------------------------------------------
// Formatting
// ---------------------------------------------------------------------------

/// On success exactly `t` was appended; writing to a sink that cannot fail succeeds.
pub open spec fn wrote(a: fmt::Formatter, b: fmt::Formatter, r: fmt::Result, t: Text) -> bool {
    &&& r is Ok ==> b.text() == a.text() + t
    &&& a.ok() ==> r is Ok && b.ok()
}

#[verifier::external_body]
pub fn vx_write_str(f: &mut fmt::Formatter<'_>, s: &str) -> (r: fmt::Result)
    ensures
        wrote(*old(f), *final(f), r, s@),
{
    unimplemented!()
}

/// A formatter writing to an empty string, and the string written.
#[verifier::external_body]
pub fn vx_formatter() -> (r: fmt::Formatter<'static>)
    ensures
        r.text() == Seq::<char>::empty(),
        r.ok(),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_formatted(f: fmt::Formatter<'static>) -> (r: String)
    ensures
        r@ == f.text(),
{
    unimplemented!()
}

/// `Display` of the standard types.
pub trait VxDisplay {
    spec fn vx_text(&self) -> Text;

    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> (r: fmt::Result)
        ensures
            wrote(*old(f), *final(f), r, self.vx_text()),
    ;
}

impl VxDisplay for i32 {
    open spec fn vx_text(&self) -> Text { pr_int(*self as int) }

    #[verifier::external_body]
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> (r: fmt::Result) { unimplemented!() }
}

impl VxDisplay for u32 {
    open spec fn vx_text(&self) -> Text { pr_int(*self as int) }

    #[verifier::external_body]
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> (r: fmt::Result) { unimplemented!() }
}

impl VxDisplay for str {
    open spec fn vx_text(&self) -> Text { self@ }

    #[verifier::external_body]
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> (r: fmt::Result) { unimplemented!() }
}

impl VxDisplay for String {
    open spec fn vx_text(&self) -> Text { self@ }

    #[verifier::external_body]
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> (r: fmt::Result) { unimplemented!() }
}

/// `str::strip_suffix`
#[verifier::external_body]
pub fn vx_strip_suffix<'a>(s: &'a String, t: &str) -> (r: Option<&'a str>)
    ensures
        r is Some <==> ends(s@, t@),
        r is Some ==> r->Some_0@ == base(s@, t@),
{
    s.strip_suffix(t)
}

pub assume_specification[ i32::abs ](x: i32) -> (r: i32)
    requires
        x > i32::MIN,
    ensures
        r == abs(x as int),
;

} // verus!
