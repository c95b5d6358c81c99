@raw
#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, non_upper_case_globals, unused_unsafe, unused_assignments, unreachable_code)]
use std::alloc::Layout;
use std::collections::{HashMap, HashSet};
use std::slice::Iter;
use std::sync::Arc;
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::iter::*;

verus! {

// ---------------------------------------------------------------------------
// Stand-ins for macros (rewritten by the extractor)
// ---------------------------------------------------------------------------

/// `assert!`, `assert_lt!`, `assert_eq!`, ...: the condition is an obligation.
pub fn vx_assert(b: bool)
    requires b,
{
}

/// `panic!`: unreachable is an obligation.
#[verifier::external_body]
pub fn vx_panic() -> !
    requires false,
{
    panic!()
}

/// `format!(..)` used for error descriptions: an arbitrary string.
#[verifier::external_body]
pub fn vx_format() -> String {
    String::new()
}

/// A `String` is its sequence of characters.
pub axiom fn axiom_string_ext(a: String, b: String)
    ensures
        a@ == b@ ==> a == b,
;

/// Standard library functions without a specification in vstd.
pub assume_specification[ u8::rem_euclid ](a: u8, b: u8) -> (r: u8)
    requires
        b != 0,
    ensures
        r == a as int % b as int,
;

pub assume_specification<T: Clone>[ <T as std::borrow::ToOwned>::to_owned ](a: &T) -> (r: T)
    ensures
        cloned(*a, r),
;

/// `it.map(f).collect::<Vec<_>>()`, in one step: the vector the two calls make together (verified; `vx_collect` is the identity).
pub fn vx_map<I: Iterator, U, F: FnMut(I::Item) -> U>(it: I, f: F) -> (d: Vec<U>)
    requires
        it.obeys_prophetic_iter_laws(),
        forall|i: int| 0 <= i < it.remaining().len() ==> f.requires((#[trigger] it.remaining()[i],)),
    ensures
        it.will_return_none(),
        d@.len() == it.remaining().len(),
        forall|i: int| 0 <= i < it.remaining().len() ==> f.ensures((it.remaining()[i],), #[trigger] d@[i]),
{
    it.map(f).collect()
}

pub fn vx_collect<T>(v: Vec<T>) -> (r: Vec<T>)
    ensures
        r == v,
{
    v
}

} // verus!
