//! # Blocks: what a block takes, where it goes, and what stays as it is.
//! types src/graph/lists.rs List ListVariant ListItem DList DListItem
//! types src/graph/blocks.rs Block Section NonSectionBlockBody Break BreakVariant BlockMacro BlockMacroName LeafBlock LeafBlockName LeafBlockForm ParentBlock ParentBlockName ParentBlockVarient TableCell
//! types src/errors.rs BlockError AsgError ScannerError ParserError
//! types src/graph/asg.rs Asg
//! structural LeafBlockName ParentBlockName ParentBlockVarient ListVariant BreakVariant BlockMacroName
//! impl src/graph/blocks.rs Block only push_block takes_inlines push_inline takes_block_of_type is_section is_source_block level_check list_type is_list_item is_ordered_list_item is_unordered_list_item is_definition_list_item is_table consolidate_table_info title id_hashes id locations add_locations consolidate_locations line add_metadata
//! impl src/graph/blocks.rs Section only new title
//! impl src/graph/blocks.rs Break only new
//! impl src/graph/blocks.rs BlockMacro only new new_image_block
//! impl src/graph/blocks.rs LeafBlock only new new_delimited_block new_from_token opening_line inlines
//! impl src/graph/blocks.rs ParentBlock only PartialEq.eq new new_from_token opening_line
//! impl src/graph/blocks.rs TableCell only new_from_token
//! impl src/graph/lists.rs List only new add_item
//! impl src/graph/lists.rs ListItem only new add_inline principal
//! impl src/graph/lists.rs DList only new add_item
//! impl src/graph/lists.rs DListItem only new_from_token push_term add_inline
//! impl src/graph/asg.rs Asg only push_block
//! impl src/graph/metadata.rs ElementMetadata only is_empty new_with_id_and_roles element_id simplify_cols
//! method insert recv=block_id_hash => sh_ids_insert &mut
//! method extend recv=id_hash => sh_ids_extend &mut
//! method extend => @rename:vx_extend
//! method cloned => sh_cloned
//! method is_empty recv=attributes => sh_map_is_empty &
//! method fold => sh_fold
//! method get_or_insert_with => sh_meta_or_default &mut
//! slice cols_value => sh_tslice &
//! method contains recv=cols_value => sh_str_has_char &
//! method collect recv=cols_value => @drop
//! method len recv=split => @drop
//! method split recv=cols_value => sh_split_count &
//! method len recv=cols_value => sh_blen &
//! method ends_with lit=char => sh_ends_char &
//! method contains lit=char => sh_str_has_char &
//! method trim => sh_trim &
//! try sh_err
//! raw
impl MapVal for Vec<Inline> { spec fn none(m: HashMap<String, Vec<Inline>>) -> bool { ids(m) == Map::<Seq<char>, Seq<Inline>>::empty() } }
// std: Iterator::fold that counts up
spec fn total<T>(s: Seq<T>, g: spec_fn(T) -> nat) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { total(s.drop_last(), g) + g(s.last()) }
}
#[verifier::external_body]
fn sh_fold<'a, T, F: Fn(usize, &'a T) -> usize>(it: core::slice::Iter<'a, T>, init: usize, f: F) -> (r: usize)
    requires
        init == 0,
        forall|a: usize, x: &'a T| a < usize::MAX ==> f.requires((a, x)),
        forall|a: usize, x: &'a T, b: usize| f.ensures((a, x), b) ==> b <= a + 1,
    ensures
        forall|s: Seq<T>, g: spec_fn(T) -> nat| vstd::std_specs::iter::IteratorSpec::remaining(&it).len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == *(#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&it)[i]))
            && (forall|a: usize, x: &'a T, b: usize| f.ensures((a, x), b) ==> b == a + g(*x)) ==> r == #[trigger] total(s, g),
{ unimplemented!() }
#[verifier::external_body]
fn sh_meta_or_default<'a, F>(o: &'a mut Option<ElementMetadata>, f: F) -> (r: &'a mut ElementMetadata)
    ensures
        *old(o) is Some ==> *r == (*old(o))->0,
        *old(o) is None ==> no_meta(*r),
        *final(o) == Some(*final(r)),
{ unimplemented!() }
// the conversion of one error type into another
#[verifier::external_body]
fn sh_err<A, B>(e: A) -> (r: B)
{ unimplemented!() }
// std: Option<&T>::cloned
#[verifier::external_body]
fn sh_cloned<T>(o: Option<&T>) -> (r: Option<T>)
    ensures o is None ==> r is None, o is Some ==> r == Some(*o->0)
{ unimplemented!() }
// std: str::trim (which characters go is not needed here)
uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn sh_trim<'a>(s: &'a str) -> (r: &'a str)
    ensures r@ == trimmed(s@)
{ unimplemented!() }
#[verifier::external_body]
fn sh_map_is_empty(m: &HashMap<String, String>) -> (r: bool)
    ensures r == (attrs(*m) == Map::<Seq<char>, Seq<char>>::empty())
{ unimplemented!() }
#[verifier::external_body]
fn sh_ids_insert(m: &mut HashMap<String, Vec<Inline>>, k: String, v: Vec<Inline>) -> (r: Option<Vec<Inline>>)
    ensures ids(*final(m)) == ids(*old(m)).insert(k@, v@)
{ unimplemented!() }
#[verifier::external_body]
fn sh_ids_extend(m: &mut HashMap<String, Vec<Inline>>, o: HashMap<String, Vec<Inline>>)
    ensures ids(*final(m)) == ids(*old(m)).union_prefer_right(ids(o))
{ unimplemented!() }
// derived Default
impl ElementMetadata {
    #[verifier::external_body]
    fn default() -> (r: ElementMetadata)
        ensures no_meta(r)
    { unimplemented!() }
}
impl Show for &mut Block { spec fn shown(&self) -> Seq<char> { arbitrary() } }
// std: str::split(char), counted: one more than the character occurs
spec fn occ(s: Seq<char>, c: char) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { occ(s.drop_last(), c) + if s.last() == c { 1nat } else { 0nat } }
}
#[verifier::external_body]
fn sh_split_count<A: StrView + ?Sized>(s: &A, c: char) -> (r: usize)
    ensures r == occ(s.sv(), c) + 1
{ unimplemented!() }
// std: str::ends_with(char)
#[verifier::external_body]
fn sh_ends_char<A: StrView + ?Sized>(s: &A, c: char) -> (r: bool)
    ensures r == (s.sv().len() > 0 && s.sv().last() == c)
{ unimplemented!() }
#[verifier::external_body]
fn sh_tslice_to<'a>(s: &'a str, j: usize) -> (r: &'a str)
    requires j <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), j as int)
    ensures r.spec_bytes() == s.spec_bytes().subrange(0, j as int)
{ unimplemented!() }
spec fn no_meta(r: ElementMetadata) -> bool {
    attrs(r.attributes) == Map::<Seq<char>, Seq<char>>::empty() && r.options@.len() == 0 && r.roles@.len() == 0 && !r.inline_metadata && r.declared_type is None
}
// ---------------------------------------------------------------- blocks without their positions
enum K {
    Section(usize), List(ListVariant), Item(Seq<char>), DList, DItem, Break(BreakVariant), Macro(BlockMacroName, Seq<char>),
    Leaf(LeafBlockName), Parent(ParentBlockName, Option<ParentBlockVarient>), Cell, Other,
}
struct N { kind: K, meta: Option<ElementMetadata>, title: Seq<Inline>, text: Seq<Inline>, kids: Seq<N> }
spec fn kind(b: Block) -> K {
    match b {
        Block::Section(x) => K::Section(x.level),
        Block::List(x) => K::List(x.variant),
        Block::ListItem(x) => K::Item(x.marker@),
        Block::DList(x) => K::DList,
        Block::DListItem(x) => K::DItem,
        Block::Break(x) => K::Break(x.variant),
        Block::BlockMacro(x) => K::Macro(x.name, x.target@),
        Block::LeafBlock(x) => K::Leaf(x.name),
        Block::ParentBlock(x) => K::Parent(x.name, x.variant),
        Block::TableCell(_) => K::Cell,
        _ => K::Other,
    }
}
spec fn meta(b: Block) -> Option<ElementMetadata> {
    match b {
        Block::Section(x) => x.metadata,
        Block::List(x) => x.metadata,
        Block::ListItem(x) => x.metadata,
        Block::DList(x) => x.metadata,
        Block::DListItem(x) => x.metadata,
        Block::BlockMacro(x) => x.metadata,
        Block::LeafBlock(x) => x.metadata,
        Block::ParentBlock(x) => x.metadata,
        Block::TableCell(x) => x.metadata,
        _ => None,
    }
}
// a heading, a caption, a term
spec fn head(b: Block) -> Seq<Inline> {
    match b {
        Block::Section(x) => x.inlines@,
        Block::DListItem(x) => x.terms@,
        Block::BlockMacro(x) => x.caption@,
        Block::ParentBlock(x) => x.title@,
        _ => Seq::empty(),
    }
}
spec fn text(b: Block) -> Seq<Inline> {
    match b {
        Block::ListItem(x) => x.principal@,
        Block::DListItem(x) => x.principal@,
        Block::LeafBlock(x) => x.inlines@,
        Block::TableCell(x) => x.inlines@,
        _ => Seq::empty(),
    }
}
spec fn kids(b: Block) -> Seq<Block> {
    match b {
        Block::Section(x) => x.blocks@,
        Block::List(x) => x.items@,
        Block::ListItem(x) => x.blocks@,
        Block::DList(x) => x.items@,
        Block::DListItem(x) => x.blocks@,
        Block::ParentBlock(x) => x.blocks@,
        _ => Seq::empty(),
    }
}
#[verifier::opaque]
spec fn nd(b: Block) -> N decreases b, 0nat {
    N { kind: kind(b), meta: meta(b), title: head(b), text: text(b), kids: match b {
        Block::Section(x) => nds(x.blocks@),
        Block::List(x) => nds(x.items@),
        Block::ListItem(x) => nds(x.blocks@),
        Block::DList(x) => nds(x.items@),
        Block::DListItem(x) => nds(x.blocks@),
        Block::ParentBlock(x) => nds(x.blocks@),
        _ => Seq::empty(),
    } }
}
#[verifier::opaque]
spec fn nds(s: Seq<Block>) -> Seq<N> decreases s, s.len() {
    if s.len() == 0 { Seq::empty() } else { nds(s.drop_last()).push(nd(s.last())) }
}
broadcast proof fn nd_def(b: Block)
    ensures #[trigger] nd(b) == (N { kind: kind(b), meta: meta(b), title: head(b), text: text(b), kids: nds(kids(b)) })
{ reveal(nd); reveal(nds); }
broadcast proof fn nds_len(s: Seq<Block>)
    ensures (#[trigger] nds(s)).len() == s.len()
    decreases s.len()
{ reveal(nds); reveal(nd); if s.len() > 0 { nds_len(s.drop_last()); } }
broadcast proof fn nds_at(s: Seq<Block>, i: int)
    requires 0 <= i < s.len()
    ensures #[trigger] nds(s)[i] == nd(s[i])
    decreases s.len()
{
    reveal(nds); reveal(nd);
    nds_len(s.drop_last());
    if i < s.len() - 1 { nds_at(s.drop_last(), i); }
}
broadcast proof fn nds_push(s: Seq<Block>, b: Block)
    ensures #[trigger] nds(s.push(b)) == nds(s).push(nd(b))
{ reveal(nds); reveal(nd); assert(s.push(b).drop_last() =~= s); }
proof fn nds_ext(a: Seq<Block>, b: Seq<Block>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> nd(#[trigger] a[i]) == nd(b[i])
    ensures nds(a) == nds(b)
{
    broadcast use {nds_len, nds_at};
    assert forall|i: int| 0 <= i < a.len() implies nds(a)[i] == nds(b)[i] by { assert(nd(a[i]) == nd(b[i])); }
    assert(nds(a) =~= nds(b));
}
broadcast proof fn nds_drop(s: Seq<Block>)
    requires s.len() > 0
    ensures #[trigger] nds(s.drop_last()) == nds(s).drop_last()
{
    broadcast use {nds_len, nds_at};
    assert(nds(s.drop_last()) =~= nds(s).drop_last());
}
broadcast proof fn nds_none(s: Seq<Block>)
    requires s.len() == 0
    ensures #[trigger] nds(s) == Seq::<N>::empty()
{ reveal(nds); reveal(nd); }
broadcast proof fn nds_cat(a: Seq<Block>, b: Seq<Block>)
    ensures #[trigger] nds(a + b) == nds(a) + nds(b)
{
    broadcast use {nds_len, nds_at};
    assert(nds(a + b) =~= nds(a) + nds(b));
}
broadcast group nodes { nds_cat, nds_none, nd_def, nds_len, nds_at, nds_push, nds_drop, push_last }
// no block of a kind that the parser never builds
#[verifier::opaque]
spec fn used(b: Block) -> bool decreases b, 0nat {
    match b {
        Block::SectionBody | Block::NonSectionBlockBody(_) | Block::DiscreteHeading | Block::BlockMetadata(_) => false,
        Block::Section(x) => useds(x.blocks@),
        Block::List(x) => useds(x.items@),
        Block::DList(x) => useds(x.items@),
        Block::ListItem(x) => useds(x.blocks@),
        Block::DListItem(x) => useds(x.blocks@),
        Block::ParentBlock(x) => useds(x.blocks@),
        _ => true,
    }
}
#[verifier::opaque]
spec fn useds(s: Seq<Block>) -> bool decreases s, s.len() {
    s.len() == 0 || (useds(s.drop_last()) && used(s.last()))
}
spec fn is_used(b: Block) -> bool {
    !(b is SectionBody || b is NonSectionBlockBody || b is DiscreteHeading || b is BlockMetadata)
}
broadcast proof fn used_def(b: Block)
    ensures #[trigger] used(b) == (is_used(b) && useds(kids(b)))
{ reveal(used); reveal(useds); }
broadcast proof fn useds_at(s: Seq<Block>, k: int)
    requires useds(s), 0 <= k < s.len()
    ensures #![trigger useds(s), s[k]] used(s[k])
    decreases s.len()
{
    reveal(useds); reveal(used);
    if k < s.len() - 1 { useds_at(s.drop_last(), k); }
}
broadcast proof fn useds_push(s: Seq<Block>, b: Block)
    ensures #[trigger] useds(s.push(b)) == (useds(s) && used(b))
{ reveal(useds); reveal(used); assert(s.push(b).drop_last() =~= s); }
broadcast proof fn useds_none(s: Seq<Block>)
    requires s.len() == 0
    ensures #[trigger] useds(s)
{ reveal(useds); reveal(used); }
broadcast proof fn useds_drop(s: Seq<Block>)
    requires s.len() > 0, useds(s)
    ensures #[trigger] useds(s.drop_last())
{ reveal(useds); reveal(used); }
proof fn useds_all(s: Seq<Block>)
    requires forall|i: int| 0 <= i < s.len() ==> used(#[trigger] s[i])
    ensures useds(s)
    decreases s.len()
{
    reveal(useds); reveal(used);
    if s.len() > 0 {
        assert(used(s[s.len() - 1]));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies used(#[trigger] s.drop_last()[i]) by { assert(used(s[i])); }
        useds_all(s.drop_last());
    }
}
broadcast proof fn useds_cat(a: Seq<Block>, b: Seq<Block>)
    requires useds(a), useds(b)
    ensures #[trigger] useds(a + b)
{
    broadcast use useds_at;
    assert forall|i: int| 0 <= i < (a + b).len() implies used(#[trigger] (a + b)[i]) by { if i < a.len() { assert(used(a[i])); } else { assert(used(b[i - a.len()])); } }
    useds_all(a + b);
}
broadcast group inuse { useds_cat, useds_none, used_def, useds_at, useds_push, useds_drop }
// a section goes into the last section of a lower level, as deep down as there is one
spec fn put(k: Seq<N>, b: N) -> Seq<N> decreases k {
    if k.len() > 0 && goes_into(k.last(), b) { k.drop_last().push(N { kids: put(k.last().kids, b), ..k.last() }) } else { k.push(b) }
}
spec fn goes_into(a: N, b: N) -> bool {
    a.kind is Section && b.kind is Section && a.kind->Section_0 < b.kind->Section_0
}
spec fn takes(a: K, b: K) -> bool {
    match a {
        K::Section(x) => b is Section ==> x < b->Section_0,
        K::List(_) => b is Item,
        K::DList => b is DItem,
        K::Parent(_, _) | K::Item(_) | K::DItem => true,
        _ => false,
    }
}
// what a block becomes when another one is pushed to it
spec fn pushed(a: N, b: N) -> Option<N> {
    match a.kind {
        K::Section(_) => Some(N { kids: put(a.kids, b), ..a }),
        K::List(_) | K::DList | K::Item(_) | K::DItem => Some(N { kids: a.kids.push(b), ..a }),
        K::Parent(name, _) =>
            if b.kind is Item {
                if a.kids.len() > 0 && a.kids.last().kind is List { Some(N { kids: a.kids.drop_last().push(N { kids: a.kids.last().kids.push(b), ..a.kids.last() }), ..a }) } else { None }
            } else if name == ParentBlockName::Table && !(b.kind is Cell) { None }
            else { Some(N { kids: a.kids.push(b), ..a }) },
        _ => None,
    }
}
//! contract Block::push_block
    requires
        used(*old(self)), used(block),
    ensures
        used(*final(self)), // [+]
        r is Ok == pushed(nd(*old(self)), nd(block)) is Some, // [+]
        r is Ok ==> nd(*final(self)) == pushed(nd(*old(self)), nd(block))->0, // [+]
        (*old(self)) is Section ==> r is Ok && nd(*final(self)) == (N { kids: put(nd(*old(self)).kids, nd(block)), ..nd(*old(self)) }), // [C02]
        (*old(self)) is List || (*old(self)) is DList || (*old(self)) is ListItem || (*old(self)) is DListItem ==> r is Ok && nd(*final(self)) == (N { kids: nd(*old(self)).kids.push(nd(block)), ..nd(*old(self)) }), // [C03]
        (*old(self)) is ParentBlock && !(block is ListItem) && (*old(self))->ParentBlock_0.name != ParentBlockName::Table ==> r is Ok && nd(*final(self)) == (N { kids: nd(*old(self)).kids.push(nd(block)), ..nd(*old(self)) }), // [C04]
        (*old(self)) is ParentBlock && block is TableCell ==> r is Ok && nd(*final(self)) == (N { kids: nd(*old(self)).kids.push(nd(block)), ..nd(*old(self)) }), // [C06]
    decreases *old(self)
//! prologue Block::push_block
broadcast use {nodes, inuse};
//! contract Block::takes_inlines
    ensures
        r == (self is Section || self is LeafBlock || self is ListItem || self is DListItem || self is TableCell), // [C03 C05 +]
//! contract Block::push_inline
    ensures
        r is Ok == ((*old(self)) is Section || (*old(self)) is LeafBlock || (*old(self)) is ListItem || (*old(self)) is DListItem || (*old(self)) is TableCell), // [C05 +]
        r is Err ==> *final(self) == *old(self), // [+]
        r is Ok && (*old(self)) is Section ==> nd(*final(self)) == (N { title: nd(*old(self)).title.push(inline), ..nd(*old(self)) }), // [C02 +]
        r is Ok && !((*old(self)) is Section) ==> nd(*final(self)) == (N { text: nd(*old(self)).text.push(inline), ..nd(*old(self)) }), // [C03 C05 C06 +]
        used(*old(self)) ==> used(*final(self)), // [+]
//! prologue Block::push_inline
broadcast use {nodes, inuse};
//! contract Block::takes_block_of_type
    ensures
        r == takes(kind(*self), kind(*block)), // [+]
        self is Section ==> r == takes(kind(*self), kind(*block)), // [C02]
        self is List || self is DList || self is ListItem || self is DListItem ==> r == takes(kind(*self), kind(*block)), // [C03]
        self is ParentBlock ==> r, // [C04]
//! contract Block::is_section
    ensures
        r == self is Section, // [C02 +]
//! contract Block::is_source_block
    ensures
        r == (kind(*self) == K::Leaf(LeafBlockName::Listing)), // [C05 +]
//! contract Block::level_check
    ensures
        r == (if self is Section { Some(self->Section_0.level) } else { None }), // [C02 +]
//! contract Block::list_type
    ensures
        r == (if self is List { Some(self->List_0.variant) } else { None }), // [C03 +]
//! contract Block::is_list_item
    ensures
        r == self is ListItem, // [C03 +]
//! contract Block::is_ordered_list_item
    ensures
        r == (self is ListItem && (self->ListItem_0.marker@ == "."@ || self->ListItem_0.marker@.contains('<'))), // [C03 +]
//! contract Block::is_unordered_list_item
    ensures
        r == (self is ListItem && self->ListItem_0.marker@ == "*"@), // [C03 +]
//! contract Block::is_definition_list_item
    ensures
        r == self is DListItem, // [C03 +]
//! contract Block::is_table
    ensures
        r == (self is ParentBlock && self->ParentBlock_0.name == ParentBlockName::Table), // [C06 +]
//! contract Block::title
    ensures
        r is Some == (self is Section || self is ParentBlock || self is BlockMacro), // [C08 +]
        r is Some ==> (r->0)@ == head(*self), // [C08 +]
//! contract Block::id
    ensures
        r is Some == has_own_id(meta(*self)), // [C08 +]
        r is Some ==> (r->0)@ == attrs(meta(*self)->0.attributes)["id"@], // [C08 +]
//! raw
spec fn has_own_id(m: Option<ElementMetadata>) -> bool { m is Some && attrs(m->0.attributes).contains_key("id"@) }
// the places of a block that have an id, with what a reference to them shows
#[verifier::opaque]
spec fn idm(n: N) -> Map<Seq<char>, Seq<Inline>> decreases n, n.kids.len() + 1 {
    idks(own_id(n), n, n.kids.len())
}
spec fn own_id(n: N) -> Map<Seq<char>, Seq<Inline>> {
    if has_own_id(n.meta) {
        Map::<Seq<char>, Seq<Inline>>::empty().insert(attrs(n.meta->0.attributes)["id"@], if n.kind is Section || n.kind is Parent || n.kind is Macro { n.title } else { Seq::empty() })
    } else { Map::empty() }
}
#[verifier::opaque]
spec fn idks(m: Map<Seq<char>, Seq<Inline>>, n: N, i: nat) -> Map<Seq<char>, Seq<Inline>> decreases n, i {
    if i == 0 || i > n.kids.len() { m } else { idks(m, n, (i - 1) as nat).union_prefer_right(idm(n.kids[i - 1])) }
}
broadcast proof fn idm_def(n: N)
    ensures #[trigger] idm(n) == idks(own_id(n), n, n.kids.len())
{ reveal(idm); reveal(idks); }
broadcast proof fn idks_none(m: Map<Seq<char>, Seq<Inline>>, n: N, i: nat)
    requires i == 0
    ensures #[trigger] idks(m, n, i) == m
{ reveal(idm); reveal(idks); }
proof fn idks_step(m: Map<Seq<char>, Seq<Inline>>, n: N, i: nat)
    requires i < n.kids.len()
    ensures idks(m, n, i + 1) == idks(m, n, i).union_prefer_right(idm(n.kids[i as int]))
{ reveal(idm); reveal(idks); }
//! contract Block::id_hashes
    ensures
        ids(r) == idm(nd(*self)), // [C08 +]
    decreases *self
//! default-loop Block::id_hashes
    invariant
        it_.seq().len() == kids(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == kids(*self)[i],
        ids(block_id_hash) == idks(own_id(nd(*self)), nd(*self), it_.index() as nat),
//! hint Block::id_hashes loop * start
proof { idks_step(own_id(nd(*self)), nd(*self), it_.index() as nat); }
//! prologue Block::id_hashes
broadcast use {nodes, idm_def, idks_none};
//! contract Block::locations
    ensures
        r@ == where_(*self), // [C06 +]
//! raw
spec fn where_(b: Block) -> Seq<Location> {
    match b {
        Block::Section(x) => x.location@,
        Block::NonSectionBlockBody(x) => x.location@,
        Block::List(x) => x.location@,
        Block::ListItem(x) => x.location@,
        Block::DList(x) => x.location@,
        Block::DListItem(x) => x.location@,
        Block::Break(x) => x.location@,
        Block::BlockMacro(x) => x.location@,
        Block::LeafBlock(x) => x.location@,
        Block::ParentBlock(x) => x.location@,
        Block::BlockMetadata(x) => x.location@,
        Block::TableCell(x) => x.location@,
        _ => Seq::empty(),
    }
}
//! contract Block::add_locations
    requires
        (*old(self)) is LeafBlock,
    ensures
        nd(*final(self)) == nd(*old(self)), // [C05 +]
        used(*final(self)), // [+]
//! prologue Block::add_locations
broadcast use {nodes, inuse};
//! contract Block::consolidate_locations
    requires
        used(*old(self)),
    ensures
        used(*final(self)), // [+]
        nd(*final(self)) == nd(*old(self)), // [C02 C03 C04 C06 +]
    decreases *old(self)
//! default-loop Block::consolidate_locations
    invariant
        it_.seq().len() == kids(*old(self)).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == kids(*old(self))[i],
        forall|i: int| 0 <= i < it_.index() ==> nd(*final(#[trigger] it_.seq()[i])) == nd(kids(*old(self))[i]) && used(*final(it_.seq()[i])),
//! prologue Block::consolidate_locations
broadcast use {nodes, inuse};
//! hint Block::consolidate_locations loop * after
proof {
    assert(forall|i: int| 0 <= i < list.items@.len() ==> nd(#[trigger] list.items@[i]) == nd(kids(*old(self))[i]) && used(list.items@[i]));
    nds_ext(list.items@, kids(*old(self))); useds_all(list.items@);
}
//! contract Block::line
    ensures
        r is Ok == (where_(*self).len() > 0), // [C06 +]
        r is Ok ==> r->Ok_0 == where_(*self)[0].line, // [C06 +]
//! contract Block::add_metadata
    ensures
        empty_meta(metadata) ==> r is Ok && *final(self) == *old(self), // [C09 +]
        !empty_meta(metadata) ==> r is Ok == takes_meta(kind(*old(self))), // [C09 +]
        !empty_meta(metadata) && r is Ok ==> nd(*final(self)) == (N { meta: Some(metadata), ..nd(*old(self)) }), // [C09 +]
        used(*old(self)) ==> used(*final(self)), // [+]
//! prologue Block::add_metadata
broadcast use {nodes, inuse};
//! raw
spec fn empty_meta(m: ElementMetadata) -> bool {
    attrs(m.attributes) == Map::<Seq<char>, Seq<char>>::empty() && m.options@.len() == 0 && m.roles@.len() == 0
}
spec fn takes_meta(k: K) -> bool {
    !(k is Break || k is Other)
}
//! contract ElementMetadata::is_empty
    ensures
        r == empty_meta(*self), // [C09 +]
//! contract ElementMetadata::new_with_id_and_roles
    ensures
        has_id(r, id@) && r.roles == roles && r.options@.len() == 0, // [C08 C09 +]
//! contract ElementMetadata::element_id
    ensures
        r is Some == attrs(self.attributes).contains_key("id"@), // [C09 +]
        r is Some ==> (r->0)@ == attrs(self.attributes)["id"@], // [C09 +]
//! raw
// ---------------------------------------------------------------- new blocks
spec fn fresh(k: K) -> N { N { kind: k, meta: None, title: Seq::empty(), text: Seq::empty(), kids: Seq::empty() } }
//! contract Section::new
    ensures
        nd(Block::Section(r)) == fresh(K::Section(level)) && used(Block::Section(r)), // [C02 +]
        r.location@ == seq![first_location], // [+]
//! prologue Section::new
broadcast use {nodes, inuse};
//! contract Section::title
    ensures
        r@ == self.inlines@, // [C02 +]
//! contract Break::new
    ensures
        nd(Block::Break(r)) == fresh(K::Break(variant)) && used(Block::Break(r)), // [C04 +]
//! prologue Break::new
broadcast use {nodes, inuse};
//! contract BlockMacro::new
    ensures
        nd(Block::BlockMacro(r)) == (N { meta: metadata, ..fresh(K::Macro(name, target@)) }) && used(Block::BlockMacro(r)), // [C10 +]
//! prologue BlockMacro::new
broadcast use {nodes, inuse};
//! contract BlockMacro::new_image_block
    ensures
        nd(Block::BlockMacro(r)) == (N { meta: metadata, ..fresh(K::Macro(BlockMacroName::Image, target@)) }) && used(Block::BlockMacro(r)), // [C10 +]
//! contract LeafBlock::new
    ensures
        nd(Block::LeafBlock(r)) == (N { text: inlines@, ..fresh(K::Leaf(name)) }) && used(Block::LeafBlock(r)), // [C05 +]
        r.location == location, // [+]
//! prologue LeafBlock::new
broadcast use {nodes, inuse};
//! contract LeafBlock::new_delimited_block
    ensures
        nd(Block::LeafBlock(r)) == fresh(K::Leaf(name)) && used(Block::LeafBlock(r)), // [C05 +]
        r.location@.len() > 0, // [+]
//! prologue LeafBlock::new_delimited_block
broadcast use {nodes, inuse};
//! contract LeafBlock::new_from_token
    ensures
        r is Ok == leaf_kind(token.token_type) is Some, // [C05 +]
        r is Ok ==> nd(Block::LeafBlock(r->Ok_0)) == fresh(K::Leaf(leaf_kind(token.token_type)->0)) && used(Block::LeafBlock(r->Ok_0)), // [C05 +]
        r is Ok ==> r->Ok_0.location@.len() > 0, // [+]
//! raw
spec fn leaf_kind(t: TokenType) -> Option<LeafBlockName> {
    match t {
        TokenType::PassthroughBlock => Some(LeafBlockName::Pass),
        TokenType::LiteralBlock => Some(LeafBlockName::Literal),
        TokenType::SourceBlock | TokenType::CommentBlock => Some(LeafBlockName::Listing),
        TokenType::QuoteVerseBlock => Some(LeafBlockName::Verse),
        _ => None,
    }
}
spec fn parent_kind(t: TokenType) -> Option<K> {
    match t {
        TokenType::SidebarBlock => Some(K::Parent(ParentBlockName::Sidebar, None)),
        TokenType::ExampleBlock => Some(K::Parent(ParentBlockName::Example, None)),
        TokenType::QuoteVerseBlock => Some(K::Parent(ParentBlockName::Quote, None)),
        TokenType::OpenBlock => Some(K::Parent(ParentBlockName::Open, None)),
        TokenType::NotePara => Some(K::Parent(ParentBlockName::Admonition, Some(ParentBlockVarient::Note))),
        TokenType::TipPara => Some(K::Parent(ParentBlockName::Admonition, Some(ParentBlockVarient::Tip))),
        TokenType::ImportantPara => Some(K::Parent(ParentBlockName::Admonition, Some(ParentBlockVarient::Important))),
        TokenType::CautionPara => Some(K::Parent(ParentBlockName::Admonition, Some(ParentBlockVarient::Caution))),
        TokenType::WarningPara => Some(K::Parent(ParentBlockName::Admonition, Some(ParentBlockVarient::Warning))),
        TokenType::Table => Some(K::Parent(ParentBlockName::Table, None)),
        _ => None,
    }
}
//! contract LeafBlock::opening_line
    ensures
        r is Ok == (self.location@.len() > 0), // [+]
        r is Ok ==> r->Ok_0 == self.location@[0].line, // [+]
//! contract LeafBlock::inlines
    ensures
        r@ == self.inlines@, // [C05 +]
//! contract ParentBlock::PartialEq.eq
    ensures
        r == (self.name == other.name && (self.variant is Some ==> self.variant == other.variant)), // [C04 +]
//! contract ParentBlock::new
    ensures
        nd(Block::ParentBlock(r)) == (N { kids: nds(blocks@), ..fresh(K::Parent(name, variant)) }), // [C04 +]
        useds(blocks@) ==> used(Block::ParentBlock(r)), // [C04 +]
        r.blocks == blocks && r.location == location, // [+]
//! prologue ParentBlock::new
broadcast use {nodes, inuse};
//! contract ParentBlock::new_from_token
    ensures
        r is Ok == parent_kind(token.token_type) is Some, // [C04 +]
        r is Ok ==> nd(Block::ParentBlock(r->Ok_0)) == fresh(parent_kind(token.token_type)->0) && used(Block::ParentBlock(r->Ok_0)), // [C04 +]
        r is Ok ==> r->Ok_0.location@.len() > 0, // [+]
//! prologue ParentBlock::new_from_token
broadcast use {nodes, inuse};
//! contract ParentBlock::opening_line
    ensures
        r is Ok == (self.location@.len() > 0), // [+]
        r is Ok ==> r->Ok_0 == self.location@[0].line, // [+]
//! contract TableCell::new_from_token
    ensures
        nd(Block::TableCell(r)) == fresh(K::Cell) && used(Block::TableCell(r)), // [C06 +]
        r.location@.len() > 0, // [+]
//! prologue TableCell::new_from_token
broadcast use {nodes, inuse};
//! contract List::new
    requires
        variant != ListVariant::Callout,
    ensures
        nd(Block::List(r)) == fresh(K::List(variant)) && used(Block::List(r)), // [C03 +]
//! prologue List::new
broadcast use {nodes, inuse};
//! contract List::add_item
    ensures
        final(self).items@ == old(self).items@.push(item) && *final(self) == (List { items: final(self).items, ..*old(self) }), // [C03 +]
//! contract ListItem::new
    ensures
        nd(Block::ListItem(r)) == fresh(K::Item(trimmed(marker@))) && used(Block::ListItem(r)), // [C03 +]
//! prologue ListItem::new
broadcast use {nodes, inuse};
//! contract ListItem::add_inline
    ensures
        final(self).principal@ == old(self).principal@.push(inline) && *final(self) == (ListItem { principal: final(self).principal, ..*old(self) }), // [C03 +]
//! contract ListItem::principal
    ensures
        r == self.principal, // [C03 +]
//! contract DList::new
    ensures
        nd(Block::DList(r)) == fresh(K::DList) && used(Block::DList(r)), // [C03 +]
//! prologue DList::new
broadcast use {nodes, inuse};
//! contract DList::add_item
    ensures
        final(self).items@ == old(self).items@.push(item) && *final(self) == (DList { items: final(self).items, ..*old(self) }), // [C03 +]
//! contract DListItem::new_from_token
    ensures
        nd(Block::DListItem(r)) == fresh(K::DItem) && used(Block::DListItem(r)), // [C03 +]
//! prologue DListItem::new_from_token
broadcast use {nodes, inuse};
//! contract DListItem::push_term
    ensures
        final(self).terms@ == old(self).terms@.push(inline) && *final(self) == (DListItem { terms: final(self).terms, location: final(self).location, ..*old(self) }), // [C03 +]
//! contract DListItem::add_inline
    ensures
        final(self).principal@ == old(self).principal@.push(inline) && *final(self) == (DListItem { principal: final(self).principal, ..*old(self) }), // [C03 +]
//! raw
// ---------------------------------------------------------------- tables
spec fn on_line(b: Block, l: usize) -> nat { if where_(b).len() > 0 && where_(b)[0].line == l { 1 } else { 0 } }
spec fn line_cells(l: usize) -> spec_fn(Block) -> nat { |b: Block| on_line(b, l) }
spec fn simple(s: Seq<char>) -> Seq<char> {
    if s.contains(',') { dec(occ(s, ',') + 1) }
    else if encode_utf8(s).len() == 2 && s.len() > 0 && s.last() == '*' { s.subrange(0, s.len() - 1) }
    else { s }
}
spec fn simple_cols(m: Map<Seq<char>, Seq<char>>) -> Map<Seq<char>, Seq<char>> {
    if m.contains_key("cols"@) { m.insert("cols"@, simple(m["cols"@])) } else { m }
}
spec fn meta_attrs(m: Option<ElementMetadata>) -> Map<Seq<char>, Seq<char>> { if m is Some { attrs(m->0.attributes) } else { Map::empty() } }
spec fn meta_opts(m: Option<ElementMetadata>) -> Seq<String> { if m is Some { m->0.options@ } else { Seq::empty() } }
spec fn meta_roles(m: Option<ElementMetadata>) -> Seq<String> { if m is Some { m->0.roles@ } else { Seq::empty() } }
// the first two cells stand on the line below the frame
spec fn header_row(t: ParentBlock) -> bool {
    t.blocks@.len() >= 2 && where_(t.blocks@[0])[0].line == where_(t.blocks@[1])[0].line && where_(t.blocks@[0])[0].line == t.location@[0].line + 1
}
spec fn row_cells(t: ParentBlock) -> nat {
    if t.blocks@.len() == 0 { 0 } else { total(t.blocks@, line_cells(where_(t.blocks@[0])[0].line)) }
}
//! contract ElementMetadata::simplify_cols
    ensures
        attrs(final(self).attributes) == simple_cols(attrs(old(self).attributes)), // [C06 +]
        *final(self) == (ElementMetadata { attributes: final(self).attributes, ..*old(self) }), // [C06 +]
//! prologue ElementMetadata::simplify_cols
proof {
    let m = attrs(self.attributes);
    if m.contains_key("cols"@) {
        assert(m.insert("cols"@, m["cols"@]) =~= m);
        if m["cols"@].len() > 0 && m["cols"@].last() == '*' { assert(m["cols"@].subrange(m["cols"@].len() - 1, m["cols"@].len() as int) =~= seq!['*']); lemma_trim(m["cols"@], 0, 1); assert forall|x: Seq<char>| #[trigger] encode_utf8(x) == encode_utf8(m["cols"@].subrange(0, m["cols"@].len() - 1)) implies x == m["cols"@].subrange(0, m["cols"@].len() - 1) by { lemma_bytes_eq(x, m["cols"@].subrange(0, m["cols"@].len() - 1)); } }
    }
}
//! contract Block::consolidate_table_info
    requires
        (*old(self)) is ParentBlock,
        where_(*old(self)).len() > 0 && where_(*old(self))[0].line < usize::MAX,
        forall|i: int| 0 <= i < kids(*old(self)).len() ==> where_(#[trigger] kids(*old(self))[i]).len() > 0,
    ensures
        r is Ok, // [C06 +]
        (*final(self)) is ParentBlock && nd(*final(self)) == (N { meta: meta(*final(self)), ..nd(*old(self)) }), // [C06 +]
        meta(*final(self)) is Some && meta_roles(meta(*final(self))) == meta_roles(meta(*old(self))), // [C06 C09 +]
        header_row((*old(self))->ParentBlock_0) ==> meta_opts(meta(*final(self))).drop_last() == meta_opts(meta(*old(self))) && meta_opts(meta(*final(self))).len() > 0 && meta_opts(meta(*final(self))).last()@ == "header"@, // [C06 +]
        !header_row((*old(self))->ParentBlock_0) ==> meta_opts(meta(*final(self))) == meta_opts(meta(*old(self))), // [C06 +]
        meta_attrs(meta(*final(self))) == simple_cols(if meta_attrs(meta(*old(self))).contains_key("cols"@) { meta_attrs(meta(*old(self))) } else { meta_attrs(meta(*old(self))).insert("cols"@, dec(row_cells((*old(self))->ParentBlock_0))) }), // [C06 +]
//! closure Block::consolidate_table_info 0
|acc: usize, block: &Block| -> (n: usize) requires acc < usize::MAX ensures n == acc + on_line(*block, first_cell_line)
//! prologue Block::consolidate_table_info
broadcast use {nodes, cat0};
//! hint Block::consolidate_table_info before-call get_or_insert_with
proof {
    assert(cols == total(table.blocks@, line_cells(first_cell_line)));
    assert(cols == row_cells((*old(self))->ParentBlock_0));
    assert(meta_attrs(table.metadata) == meta_attrs(meta(*old(self))));
}
//! hint Block::consolidate_table_info before-call simplify_cols
proof { assert(attrs(metadata.attributes) == (if meta_attrs(meta(*old(self))).contains_key("cols"@) { meta_attrs(meta(*old(self))) } else { meta_attrs(meta(*old(self))).insert("cols"@, dec(row_cells((*old(self))->ParentBlock_0))) })); }
//! raw
// ---------------------------------------------------------------- the document
spec fn root(s: Seq<Block>) -> N { N { kids: nds(s), ..fresh(K::Other) } }
//! contract Asg::push_block
    requires
        useds(old(self).blocks@), used(block),
    ensures
        r is Ok, // [C02 +]
        useds(final(self).blocks@), // [+]
        nds(final(self).blocks@) == put(nds(old(self).blocks@), nd(block)), // [C02 D01 +]
        ids(final(self).document_id_hash) == ids(old(self).document_id_hash).union_prefer_right(idm(nd(block))), // [C08 +]
        final(self).header == old(self).header && final(self).document_id == old(self).document_id, // [C01 +]
//! prologue Asg::push_block
broadcast use {nodes, inuse};
