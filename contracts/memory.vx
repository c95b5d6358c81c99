@raw
verus! {

// ---------------------------------------------------------------------------
// Raw memory (trusted): a unique ghost permission per allocation
// ---------------------------------------------------------------------------

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExLayout(Layout);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExLayoutError(std::alloc::LayoutError);

pub uninterp spec fn layout_size(l: Layout) -> nat;

pub assume_specification<T>[ Layout::array::<T> ](n: usize) -> (r: Result<Layout, std::alloc::LayoutError>)
    ensures
        r is Ok ==> layout_size(r->Ok_0) == n * vstd::layout::size_of::<T>(),
        n * vstd::layout::size_of::<T>() <= isize::MAX ==> r is Ok,
;

/// Permission for one allocation: base pointer and contents (`None`: uninitialised).
#[verifier::external_body]
pub tracked struct RawBytes {
    _p: std::marker::PhantomData<()>,
}

impl RawBytes {
    pub uninterp spec fn base(&self) -> *mut u8;

    pub uninterp spec fn mem(&self) -> Seq<Option<u8>>;

    pub uninterp spec fn live(&self) -> bool;
}

pub open spec fn ptr_index(base: *mut u8, p: *mut u8, k: int) -> bool {
    p@.addr == base@.addr + k && p@.provenance == base@.provenance
}

pub assume_specification<T>[ <*mut T>::add ](p: *mut T, k: usize) -> (r: *mut T)
    requires
        p@.addr + k * vstd::layout::size_of::<T>() <= usize::MAX,
    ensures
        r@.addr == p@.addr + k * vstd::layout::size_of::<T>(),
        r@.provenance == p@.provenance,
;

#[verifier::external_body]
pub unsafe fn vx_alloc(layout: Layout) -> (r: (*mut u8, Tracked<RawBytes>))
    requires
        layout_size(layout) > 0,
    ensures
        r.1@.live(),
        r.1@.base() == r.0,
        r.1@.mem().len() == layout_size(layout),
        forall|k: int| 0 <= k < r.1@.mem().len() ==> (#[trigger] r.1@.mem()[k]) is None,
        r.0@.addr + layout_size(layout) <= usize::MAX,
{
    unimplemented!()
}

#[verifier::external_body]
pub unsafe fn vx_dealloc(p: *mut u8, layout: Layout, Tracked(perm): Tracked<&mut RawBytes>)
    requires
        old(perm).live(),
        old(perm).base() == p,
        old(perm).mem().len() == layout_size(layout),
    ensures
        !final(perm).live(),
{
    unimplemented!()
}

#[verifier::external_body]
pub unsafe fn vx_read(p: *mut u8, Tracked(perm): Tracked<&RawBytes>) -> (r: u8)
    requires
        perm.live(),
        p@.provenance == perm.base()@.provenance,
        perm.base()@.addr <= p@.addr < perm.base()@.addr + perm.mem().len(),
        perm.mem()[p@.addr - perm.base()@.addr] is Some,
    ensures
        perm.mem()[p@.addr - perm.base()@.addr] == Some(r),
{
    unimplemented!()
}

#[verifier::external_body]
pub unsafe fn vx_write(p: *mut u8, v: u8, Tracked(perm): Tracked<&mut RawBytes>)
    requires
        old(perm).live(),
        p@.provenance == old(perm).base()@.provenance,
        old(perm).base()@.addr <= p@.addr < old(perm).base()@.addr + old(perm).mem().len(),
    ensures
        final(perm).live(),
        final(perm).base() == old(perm).base(),
        final(perm).mem() == old(perm).mem().update(p@.addr - final(perm).base()@.addr, Some(v)),
{
    unimplemented!()
}

#[verifier::external_body]
pub unsafe fn vx_copy(
    src: *mut u8,
    dst: *mut u8,
    n: usize,
    Tracked(ps): Tracked<&RawBytes>,
    Tracked(pd): Tracked<&mut RawBytes>,
)
    requires
        ps.live(),
        old(pd).live(),
        src == ps.base(),
        dst == old(pd).base(),
        n <= ps.mem().len(),
        n <= old(pd).mem().len(),
    ensures
        final(pd).live(),
        final(pd).base() == old(pd).base(),
        final(pd).mem().len() == old(pd).mem().len(),
        forall|k: int| 0 <= k < n ==> #[trigger] final(pd).mem()[k] == ps.mem()[k],
        forall|k: int| n <= k < final(pd).mem().len() ==> #[trigger] final(pd).mem()[k] == old(pd).mem()[k],
{
    unimplemented!()
}

#[verifier::external_body]
pub unsafe fn vx_slice<'a>(p: *mut u8, n: usize, Tracked(perm): Tracked<&'a RawBytes>) -> (r: &'a [u8])
    requires
        perm.live(),
        p@.provenance == perm.base()@.provenance,
        perm.base()@.addr <= p@.addr,
        p@.addr + n <= perm.base()@.addr + perm.mem().len(),
        forall|b: int|
            p@.addr - perm.base()@.addr <= b < p@.addr - perm.base()@.addr + n ==> (#[trigger] perm.mem()[b]) is Some,
    ensures
        r@.len() == n,
        forall|b: int|
            p@.addr - perm.base()@.addr <= b < p@.addr - perm.base()@.addr + n ==>
            #[trigger] perm.mem()[b] == Some(r@[b - (p@.addr - perm.base()@.addr)]),
{
    unimplemented!()
}

} // verus!
