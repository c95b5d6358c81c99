@raw
verus! {

// ---------------------------------------------------------------------------
// AlgBuilder
// ---------------------------------------------------------------------------

@item cubing_core/src/alg/alg_builder.rs enum AlgFragment
@item cubing_core/src/alg/alg_builder.rs struct AlgBuilder

@raw
/// `f` is what converting `t` gives.
pub open spec fn frag_of<T: Into<AlgFragment>>(t: T, f: AlgFragment) -> bool {
    call_ensures(<T as Into<AlgFragment>>::into, (t,), f)
}

/// `into` is the blanket implementation over `From` (standard library).
pub axiom fn axiom_into_frag()
    ensures
        forall|a: &Alg, f: AlgFragment| #[trigger] frag_of(a, f) ==> call_ensures(<AlgFragment as From<&Alg>>::from, (a,), f),
        forall|a: &AlgNode, f: AlgFragment| #[trigger] frag_of(a, f) ==> call_ensures(<AlgFragment as From<&AlgNode>>::from, (a,), f),
        forall|a: AlgFragment, f: AlgFragment| #[trigger] frag_of(a, f) ==> a == f,
;

pub open spec fn frag_nodes(f: AlgFragment) -> Seq<AlgNode> {
    match f {
        AlgFragment::Alg(a) => a.nodes@,
        AlgFragment::AlgNode(n) => seq![n],
    }
}

/// The nodes of the fragments, one after the other.
pub open spec fn frags_nodes(s: Seq<AlgFragment>) -> Seq<AlgNode>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { frags_nodes(s.drop_last()) + frag_nodes(s.last()) }
}

pub open spec fn cat<T>(s: Seq<Seq<T>>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last() }
}

pub proof fn lemma_frags(s: Seq<AlgFragment>, o: Seq<Seq<AlgNode>>)
    requires
        s.len() == o.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] o[i] == frag_nodes(s[i]),
    ensures
        cat(o) == frags_nodes(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] o.drop_last()[i] == frag_nodes(s.drop_last()[i]) by {
            assert(o[i] == frag_nodes(s[i]));
        }
        lemma_frags(s.drop_last(), o.drop_last());
    }
}

#[verifier::prophetic]
pub open spec fn rem<T>(x: std::vec::IntoIter<T>) -> Seq<T> {
    IteratorSpec::remaining(&x)
}

#[verifier::prophetic]
pub open spec fn rems<T>(o: Seq<std::vec::IntoIter<T>>) -> Seq<Seq<T>> {
    Seq::new(o.len(), |i: int| rem(o[i]))
}

/// `Vec::drain(0..)`: all elements in order; the vector is left empty.
#[verifier::external_body]
pub fn vx_drain<T>(v: &mut Vec<T>, r: std::ops::RangeFrom<usize>) -> (d: std::vec::IntoIter<T>)
    requires
        r.start <= old(v)@.len(),
    ensures
        rem(d) == old(v)@.subrange(r.start as int, old(v)@.len() as int),
        final(v)@ == old(v)@.subrange(0, r.start as int),
        IteratorSpec::obeys_prophetic_iter_laws(&d),
{ unimplemented!() }

/// `Iterator::flat_map`: the elements of the closure's iterators, in order.
#[verifier::external_body]
pub fn vx_flat_map<T, U, F: FnMut(T) -> std::vec::IntoIter<U>>(it: std::vec::IntoIter<T>, f: F) -> (d: std::vec::IntoIter<U>)
    requires
        forall|i: int| 0 <= i < rem(it).len() ==> f.requires((#[trigger] rem(it)[i],)),
    ensures
        exists|o: Seq<std::vec::IntoIter<U>>| {
            &&& o.len() == rem(it).len()
            &&& forall|i: int| 0 <= i < o.len() ==> f.ensures((#[trigger] rem(it)[i],), o[i])
            &&& rem(d) == #[trigger] cat(rems(o))
        },
{ unimplemented!() }

impl FromSpecImpl<&Alg> for AlgFragment {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(d: &Alg) -> AlgFragment { arbitrary() }
}
impl FromSpecImpl<&AlgNode> for AlgFragment {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(d: &AlgNode) -> AlgFragment { arbitrary() }
}

@fn cubing_core/src/alg/alg_builder.rs <AlgFragment as From<&Alg>>::from
%spec
    ensures
        r is Alg,
        galg(r->Alg_0) == galg(*$p0),

@fn cubing_core/src/alg/alg_builder.rs <AlgFragment as From<&AlgNode>>::from
%spec
    ensures
        r is AlgNode,
        gnode(r->AlgNode_0) == gnode(*$p0),

@fn cubing_core/src/alg/alg_builder.rs AlgBuilder::push
%spec
    ensures
        final(self).fragments@.len() == old(self).fragments@.len() + 1,
        final(self).fragments@.drop_last() == old(self).fragments@,
        frag_of($p0, final(self).fragments@.last()),

@fn cubing_core/src/alg/alg_builder.rs AlgBuilder::new
%spec
    ensures
        $p0 is None ==> r.fragments@.len() == 0,
        $p0 is Some ==> r.fragments@.len() == 1 && frag_of($p0->0, r.fragments@[0]),

@fn cubing_core/src/alg/alg_builder.rs AlgBuilder::to_alg
%opt call drain vx_drain:&mut
%opt call flat_map vx_flat_map
%spec
    ensures
        r.nodes@ == frags_nodes(self.fragments@),
%closure 0
|$c0_0: AlgFragment| -> (vx_q: std::vec::IntoIter<AlgNode>)
    ensures
        rem(vx_q) =~= frag_nodes($c0_0),

%hint tail
    proof {
        let frs = self.fragments@;
        assert(frs.subrange(0, frs.len() as int) =~= frs);
        assert forall|o: Seq<std::vec::IntoIter<AlgNode>>| o.len() == frs.len() && (forall|i: int| 0 <= i < o.len() ==> rem(#[trigger] o[i]) == frag_nodes(frs[i]))
            implies #[trigger] cat(rems(o)) == frags_nodes(frs) by {
            lemma_frags(frs, rems(o));
        }
    }

@fn cubing_core/src/alg/alg_builder.rs <AlgBuilder as Default>::default
%spec
    ensures
        r.fragments@.len() == 0,

@raw
/// What pushing contributes to the built alg: a node itself, an alg its nodes.
pub fn vx_builder_client(a: &Alg, n: &AlgNode, f: AlgFragment) -> (r: Alg)
    ensures
        galg(r).len() == galg(*a).len() + 1 + frag_nodes(f).len(),
        galg(r).subrange(0, galg(*a).len() as int) == galg(*a),
        galg(r)[galg(*a).len() as int] == gnode(*n),
        r.nodes@.subrange(galg(*a).len() as int + 1, r.nodes@.len() as int) == frag_nodes(f),
{
    let mut b = AlgBuilder::new(Some(a));
    let ghost s1 = b.fragments@;
    b.push(n);
    let ghost s2 = b.fragments@;
    b.push(f);
    let ghost s3 = b.fragments@;
    let r = b.to_alg();
    proof {
        axiom_into_frag();
        reveal_with_fuel(frags_nodes, 4);
        lemma_galg(a);
        lemma_galg(&s1[0]->Alg_0);
        lemma_galg(&r);
        assert(s3.drop_last() =~= s2);
        assert(s2.drop_last() =~= s1);
        assert(r.nodes@ =~= s1[0]->Alg_0.nodes@ + seq![s2[1]->AlgNode_0] + frag_nodes(f));
        assert(r.nodes@.subrange(galg(*a).len() as int + 1, r.nodes@.len() as int) =~= frag_nodes(f));
        assert forall|i: int| 0 <= i < a.nodes@.len() implies galg(r)[i] == galg(*a)[i] by {
            assert(galg(s1[0]->Alg_0)[i] == gnode(s1[0]->Alg_0.nodes@[i]));
            assert(r.nodes@[i] == s1[0]->Alg_0.nodes@[i]);
        }
        assert(galg(r).subrange(0, galg(*a).len() as int) =~= galg(*a));
    }
    r
}

@raw
} // verus!
