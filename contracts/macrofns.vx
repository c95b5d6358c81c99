@raw
/// Paths in emitted code are resolved where the macro is used.
pub mod cubing {
    pub mod alg { pub use crate::*; }
}
#[verifier::external]
impl std::fmt::Debug for AlgParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
}
verus! {

// ---------------------------------------------------------------------------
// Procedural macros: what the emitted code evaluates to
// ---------------------------------------------------------------------------

pub struct VxLitStr { pub s: String }

impl VxLitStr {
    /// The text a string literal denotes.
    pub fn value(self) -> (r: String)
        ensures
            r@ == self.s@,
    {
        self.s
    }
}

pub struct VxError {}

/// What a macro is given or emits: a string literal, the value of the emitted expression, or a compile error.
pub enum TokenStream {
    Lit(VxLitStr),
    OfAlg(Alg),
    OfMove(Move),
    Error(VxError),
}

/// Input that is no string literal is a compile error before this point.
#[verifier::external_body]
pub fn vx_litstr(item: TokenStream) -> (r: VxLitStr)
    requires
        item is Lit,
    ensures
        r == item->Lit_0,
{ unimplemented!() }

pub fn vx_compile_error(s: &str) -> (r: VxError) {
    VxError {}
}

impl FromSpecImpl<Alg> for TokenStream {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: Alg) -> TokenStream { TokenStream::OfAlg(x) }
}
impl From<Alg> for TokenStream {
    fn from(x: Alg) -> (r: TokenStream) { TokenStream::OfAlg(x) }
}
impl FromSpecImpl<Move> for TokenStream {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: Move) -> TokenStream { TokenStream::OfMove(x) }
}
impl From<Move> for TokenStream {
    fn from(x: Move) -> (r: TokenStream) { TokenStream::OfMove(x) }
}
impl FromSpecImpl<VxError> for TokenStream {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: VxError) -> TokenStream { TokenStream::Error(x) }
}
impl From<VxError> for TokenStream {
    fn from(x: VxError) -> (r: TokenStream) { TokenStream::Error(x) }
}

/// A value as tokens, and the value of those tokens: a `String` becomes a string literal, an integer
/// a literal of its type, emitted code the expression it is.
pub trait VxStrTok {
    spec fn vx_view(&self) -> Text;
    fn vx_tok(&self) -> (r: &str)
        ensures
            r@ == self.vx_view(),
    ;
}
impl VxStrTok for String {
    open spec fn vx_view(&self) -> Text { self@ }
    fn vx_tok(&self) -> (r: &str) { self.as_str() }
}
/// `String::from` copies the characters.
pub axiom fn axiom_string_from()
    ensures
        <String as FromSpec<&str>>::obeys_from_spec(),
        forall|t: &str| (#[trigger] <String as FromSpec<&str>>::from_spec(t))@ == t@,
;

/// A `String` where a `&str` is expected.
pub trait VxText {
    spec fn vx_text_of(&self) -> Text;
    fn vx_str(&self) -> (r: &str)
        ensures
            r@ == self.vx_text_of(),
    ;
}
impl VxText for String {
    open spec fn vx_text_of(&self) -> Text { self@ }
    fn vx_str(&self) -> (r: &str) { self.as_str() }
}
impl VxText for str {
    open spec fn vx_text_of(&self) -> Text { self@ }
    fn vx_str(&self) -> (r: &str) { self }
}
pub trait VxTok: Sized {
    fn vx_tok(self) -> (r: Self)
        ensures
            r == self,
    ;
}
impl VxTok for u32 { fn vx_tok(self) -> (r: u32) { self } }
impl VxTok for i32 { fn vx_tok(self) -> (r: i32) { self } }
impl VxTok for Option<MovePrefix> { fn vx_tok(self) -> (r: Option<MovePrefix>) { self } }
impl VxTok for Option<u32> { fn vx_tok(self) -> (r: Option<u32>) { self } }
impl VxTok for Arc<QuantumMove> { fn vx_tok(self) -> (r: Arc<QuantumMove>) { self } }
impl VxTok for QuantumMove { fn vx_tok(self) -> (r: QuantumMove) { self } }
impl VxTok for Move { fn vx_tok(self) -> (r: Move) { self } }
impl VxTok for MovePrefix { fn vx_tok(self) -> (r: MovePrefix) { self } }

@fn cubing_macros/src/lib.rs parse_alg id=cubing_macros::parse_alg
%opt rename macro_parse_alg
%opt textparse
%spec
    requires
        $p0 is Lit,
    ensures
        parse_alg_text($p0->Lit_0.s@) is Some ==> r is OfAlg && sa_of(r->OfAlg_0) == parse_alg_text($p0->Lit_0.s@)->Some_0,
        parse_alg_text($p0->Lit_0.s@) is None ==> r is Error,

@fn cubing_macros/src/lib.rs parse_move id=cubing_macros::parse_move
%opt rename macro_parse_move
%opt textparse
%spec
    requires
        $p0 is Lit,
    ensures
        parse_move_text($p0->Lit_0.s@) is Some ==> r is OfMove && smove(r->OfMove_0) == parse_move_text($p0->Lit_0.s@)->Some_0,
        parse_move_text($p0->Lit_0.s@) is None ==> r is Error,
%hint start
    proof { axiom_string_from(); }

@raw
} // verus!
