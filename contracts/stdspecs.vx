// Standard-library functions that the code at hand does not use but a change may: each declaration is
// emitted (and counted as trusted in evidence) only when a function under contract mentions its name.

@raw
verus! {

@std abs_diff+u8
pub assume_specification[ u8::abs_diff ](a: u8, b: u8) -> (r: u8)
    ensures r == if a >= b { a - b } else { b - a },
;

@std div_ceil+u8
pub assume_specification[ u8::div_ceil ](a: u8, b: u8) -> (r: u8)
    requires b != 0,
    ensures r == (a as int + b as int - 1) / b as int,
;

@std div_euclid+u8
pub assume_specification[ u8::div_euclid ](a: u8, b: u8) -> (r: u8)
    requires b != 0,
    ensures r == a as int / b as int,
;

@std is_power_of_two+u8
pub assume_specification[ u8::is_power_of_two ](a: u8) -> (r: bool)
    ensures r == exists|k: nat| k < u8::BITS && #[trigger] vstd::arithmetic::power2::pow2(k) == a,
;

@std rem_euclid+u16
pub assume_specification[ u16::rem_euclid ](a: u16, b: u16) -> (r: u16)
    requires b != 0,
    ensures r == a as int % b as int,
;

@std abs_diff+u16
pub assume_specification[ u16::abs_diff ](a: u16, b: u16) -> (r: u16)
    ensures r == if a >= b { a - b } else { b - a },
;

@std div_ceil+u16
pub assume_specification[ u16::div_ceil ](a: u16, b: u16) -> (r: u16)
    requires b != 0,
    ensures r == (a as int + b as int - 1) / b as int,
;

@std div_euclid+u16
pub assume_specification[ u16::div_euclid ](a: u16, b: u16) -> (r: u16)
    requires b != 0,
    ensures r == a as int / b as int,
;

@std is_power_of_two+u16
pub assume_specification[ u16::is_power_of_two ](a: u16) -> (r: bool)
    ensures r == exists|k: nat| k < u16::BITS && #[trigger] vstd::arithmetic::power2::pow2(k) == a,
;

@std rem_euclid+u32
pub assume_specification[ u32::rem_euclid ](a: u32, b: u32) -> (r: u32)
    requires b != 0,
    ensures r == a as int % b as int,
;

@std abs_diff+u32
pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32)
    ensures r == if a >= b { a - b } else { b - a },
;

@std div_ceil+u32
pub assume_specification[ u32::div_ceil ](a: u32, b: u32) -> (r: u32)
    requires b != 0,
    ensures r == (a as int + b as int - 1) / b as int,
;

@std div_euclid+u32
pub assume_specification[ u32::div_euclid ](a: u32, b: u32) -> (r: u32)
    requires b != 0,
    ensures r == a as int / b as int,
;

@std is_power_of_two+u32
pub assume_specification[ u32::is_power_of_two ](a: u32) -> (r: bool)
    ensures r == exists|k: nat| k < u32::BITS && #[trigger] vstd::arithmetic::power2::pow2(k) == a,
;

@std rem_euclid+u64
pub assume_specification[ u64::rem_euclid ](a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == a as int % b as int,
;

@std abs_diff+u64
pub assume_specification[ u64::abs_diff ](a: u64, b: u64) -> (r: u64)
    ensures r == if a >= b { a - b } else { b - a },
;

@std div_ceil+u64
pub assume_specification[ u64::div_ceil ](a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == (a as int + b as int - 1) / b as int,
;

@std div_euclid+u64
pub assume_specification[ u64::div_euclid ](a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == a as int / b as int,
;

@std is_power_of_two+u64
pub assume_specification[ u64::is_power_of_two ](a: u64) -> (r: bool)
    ensures r == exists|k: nat| k < u64::BITS && #[trigger] vstd::arithmetic::power2::pow2(k) == a,
;

@std rem_euclid+usize
pub assume_specification[ usize::rem_euclid ](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == a as int % b as int,
;

@std abs_diff+usize
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize)
    ensures r == if a >= b { a - b } else { b - a },
;

@std div_ceil+usize
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == (a as int + b as int - 1) / b as int,
;

@std div_euclid+usize
pub assume_specification[ usize::div_euclid ](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == a as int / b as int,
;

@std is_power_of_two+usize
pub assume_specification[ usize::is_power_of_two ](a: usize) -> (r: bool)
    ensures r == exists|k: nat| k < usize::BITS && #[trigger] vstd::arithmetic::power2::pow2(k) == a,
;

@std rem_euclid+i32
pub assume_specification[ i32::rem_euclid ](a: i32, b: i32) -> (r: i32)
    requires b != 0, !(a == i32::MIN && b == -1),
    ensures r == a as int % b as int,
;

@std div_euclid+i32
pub assume_specification[ i32::div_euclid ](a: i32, b: i32) -> (r: i32)
    requires b != 0, !(a == i32::MIN && b == -1),
    ensures r == a as int / b as int,
;

@std wrapping_neg+i32
pub assume_specification[ i32::wrapping_neg ](a: i32) -> (r: i32)
    ensures r == if a == i32::MIN { a as int } else { -a },
;

@std checked_neg+i32
pub assume_specification[ i32::checked_neg ](a: i32) -> (r: Option<i32>)
    ensures a == i32::MIN ==> r is None, a != i32::MIN ==> r is Some && r->0 == -a,
;

@std saturating_neg+i32
pub assume_specification[ i32::saturating_neg ](a: i32) -> (r: i32)
    ensures a == i32::MIN ==> r == i32::MAX, a != i32::MIN ==> r == -a,
;

@std wrapping_abs+i32
pub assume_specification[ i32::wrapping_abs ](a: i32) -> (r: i32)
    ensures r == if a == i32::MIN || a >= 0 { a as int } else { -a },
;

@std checked_abs+i32
pub assume_specification[ i32::checked_abs ](a: i32) -> (r: Option<i32>)
    ensures a == i32::MIN ==> r is None, a != i32::MIN ==> r is Some && r->0 == if a >= 0 { a as int } else { -a },
;

@std unsigned_abs+i32
pub assume_specification[ i32::unsigned_abs ](a: i32) -> (r: u32)
    ensures r == if a >= 0 { a as int } else { -a },
;

@std signum+i32
pub assume_specification[ i32::signum ](a: i32) -> (r: i32)
    ensures r == if a > 0 { 1int } else if a == 0 { 0 } else { -1 },
;

@std is_negative+i32
pub assume_specification[ i32::is_negative ](a: i32) -> (r: bool)
    ensures r == (a < 0),
;

@std is_positive+i32
pub assume_specification[ i32::is_positive ](a: i32) -> (r: bool)
    ensures r == (a > 0),
;

@std rem_euclid+i64
pub assume_specification[ i64::rem_euclid ](a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1),
    ensures r == a as int % b as int,
;

@std div_euclid+i64
pub assume_specification[ i64::div_euclid ](a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1),
    ensures r == a as int / b as int,
;

@std wrapping_neg+i64
pub assume_specification[ i64::wrapping_neg ](a: i64) -> (r: i64)
    ensures r == if a == i64::MIN { a as int } else { -a },
;

@std checked_neg+i64
pub assume_specification[ i64::checked_neg ](a: i64) -> (r: Option<i64>)
    ensures a == i64::MIN ==> r is None, a != i64::MIN ==> r is Some && r->0 == -a,
;

@std saturating_neg+i64
pub assume_specification[ i64::saturating_neg ](a: i64) -> (r: i64)
    ensures a == i64::MIN ==> r == i64::MAX, a != i64::MIN ==> r == -a,
;

@std wrapping_abs+i64
pub assume_specification[ i64::wrapping_abs ](a: i64) -> (r: i64)
    ensures r == if a == i64::MIN || a >= 0 { a as int } else { -a },
;

@std checked_abs+i64
pub assume_specification[ i64::checked_abs ](a: i64) -> (r: Option<i64>)
    ensures a == i64::MIN ==> r is None, a != i64::MIN ==> r is Some && r->0 == if a >= 0 { a as int } else { -a },
;

@std unsigned_abs+i64
pub assume_specification[ i64::unsigned_abs ](a: i64) -> (r: u64)
    ensures r == if a >= 0 { a as int } else { -a },
;

@std signum+i64
pub assume_specification[ i64::signum ](a: i64) -> (r: i64)
    ensures r == if a > 0 { 1int } else if a == 0 { 0 } else { -1 },
;

@std is_negative+i64
pub assume_specification[ i64::is_negative ](a: i64) -> (r: bool)
    ensures r == (a < 0),
;

@std is_positive+i64
pub assume_specification[ i64::is_positive ](a: i64) -> (r: bool)
    ensures r == (a > 0),
;

@std rem_euclid+isize
pub assume_specification[ isize::rem_euclid ](a: isize, b: isize) -> (r: isize)
    requires b != 0, !(a == isize::MIN && b == -1),
    ensures r == a as int % b as int,
;

@std div_euclid+isize
pub assume_specification[ isize::div_euclid ](a: isize, b: isize) -> (r: isize)
    requires b != 0, !(a == isize::MIN && b == -1),
    ensures r == a as int / b as int,
;

@std wrapping_neg+isize
pub assume_specification[ isize::wrapping_neg ](a: isize) -> (r: isize)
    ensures r == if a == isize::MIN { a as int } else { -a },
;

@std checked_neg+isize
pub assume_specification[ isize::checked_neg ](a: isize) -> (r: Option<isize>)
    ensures a == isize::MIN ==> r is None, a != isize::MIN ==> r is Some && r->0 == -a,
;

@std saturating_neg+isize
pub assume_specification[ isize::saturating_neg ](a: isize) -> (r: isize)
    ensures a == isize::MIN ==> r == isize::MAX, a != isize::MIN ==> r == -a,
;

@std wrapping_abs+isize
pub assume_specification[ isize::wrapping_abs ](a: isize) -> (r: isize)
    ensures r == if a == isize::MIN || a >= 0 { a as int } else { -a },
;

@std checked_abs+isize
pub assume_specification[ isize::checked_abs ](a: isize) -> (r: Option<isize>)
    ensures a == isize::MIN ==> r is None, a != isize::MIN ==> r is Some && r->0 == if a >= 0 { a as int } else { -a },
;

@std unsigned_abs+isize
pub assume_specification[ isize::unsigned_abs ](a: isize) -> (r: usize)
    ensures r == if a >= 0 { a as int } else { -a },
;

@std signum+isize
pub assume_specification[ isize::signum ](a: isize) -> (r: isize)
    ensures r == if a > 0 { 1int } else if a == 0 { 0 } else { -1 },
;

@std is_negative+isize
pub assume_specification[ isize::is_negative ](a: isize) -> (r: bool)
    ensures r == (a < 0),
;

@std is_positive+isize
pub assume_specification[ isize::is_positive ](a: isize) -> (r: bool)
    ensures r == (a > 0),
;

@std replace
pub assume_specification<T>[ std::mem::replace::<T> ](a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b,
;

@std take
pub assume_specification<T: Default>[ std::mem::take::<T> ](a: &mut T) -> (r: T)
    ensures r == *old(a), call_ensures(T::default, (), *final(a)),
;

@std copied
pub assume_specification<T: Copy>[ Option::<&T>::copied ](a: Option<&T>) -> (r: Option<T>)
    ensures a is None ==> r is None, a is Some ==> r == Some(*a->0),
;

@std or
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if a is Some { a } else { b },
;

@std and
pub assume_specification<T, U>[ Option::<T>::and::<U> ](a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == if a is Some { b } else { None },
;

@std xor
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if a is Some && b is None { a } else if a is None && b is Some { b } else { None },
;

@std zip
pub assume_specification<T, U>[ Option::<T>::zip::<U> ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == if a is Some && b is Some { Some((a->0, b->0)) } else { None },
;

@std unwrap_or+Result
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](a: Result<T, E>, b: T) -> (r: T)
    ensures r == if a is Ok { a->Ok_0 } else { b },
;

@std min
pub assume_specification<T: Ord>[ std::cmp::min::<T> ](a: T, b: T) -> (r: T)
    ensures call_ensures(T::min, (a, b), r),
;

@std max
pub assume_specification<T: Ord>[ std::cmp::max::<T> ](a: T, b: T) -> (r: T)
    ensures call_ensures(T::max, (a, b), r),
;

@std reverse
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse(),
;

@std drop
pub assume_specification<T>[ std::mem::drop::<T> ](a: T)
;

@std then_some
pub assume_specification<T>[ bool::then_some::<T> ](a: bool, b: T) -> (r: Option<T>)
    ensures r == if a { Some(b) } else { None },
;

@std to_vec
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]),
;

@std fill
pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> cloned::<T>(v, #[trigger] final(s)@[i]) || final(s)@[i] == v,
;

@std ptr_eq
pub assume_specification<T: ?Sized, A: std::alloc::Allocator>[ Arc::<T, A>::ptr_eq ](a: &Arc<T, A>, b: &Arc<T, A>) -> (r: bool)
    ensures r ==> *a == *b,
;

@std as_ref
pub assume_specification<T: ?Sized, A: std::alloc::Allocator>[ <Arc<T, A> as AsRef<T>>::as_ref ](a: &Arc<T, A>) -> (r: &T)
    ensures r == &**a,
;

@raw
} // verus!

