//! use strings.inc
//! # Plain text and word count of the document tree.
//! types src/graph/nodes.rs Location NodeTypes
//! types src/graph/metadata.rs AttributeType ElementMetadata
//! types src/graph/inlines.rs Inline InlineSpan InlineSpanVariant InlineSpanForm InlineRef InlineRefVariant InlineLiteral InlineLiteralName LineBreak
//! types src/graph/lists.rs List ListVariant ListItem DList DListItem
//! types src/graph/blocks.rs Block Section NonSectionBlockBody Break BreakVariant BlockMacro BlockMacroName LeafBlock LeafBlockName LeafBlockForm ParentBlock ParentBlockName ParentBlockVarient TableCell
//! types src/errors.rs BlockError
//! structural InlineSpanVariant InlineSpanForm InlineRefVariant LeafBlockName ParentBlockName ParentBlockVarient AttributeType
//! types src/graph/nodes.rs Header Author
//! types src/graph/asg.rs Asg
//! impl src/graph/inlines.rs Inline only extract_values_to_string
//! impl src/graph/blocks.rs Section only title
//! impl src/graph/blocks.rs Block only block_text
//! impl src/graph/asg.rs Asg only all_text word_count
//! macro todo => vpanic()
//! method count recvend=split_whitespace() => @drop
//! method split_whitespace => sh_word_count &
//! method clone => sh_clone &
//! attr-all verifier::loop_isolation(false)
//! raw
use std::collections::HashMap;
// derived Clone: an equal value
#[verifier::external_body]
fn sh_clone<T>(x: &T) -> (r: T)
    ensures r == *x
{ unimplemented!() }
// ---------------------------------------------------------------- text
// the text of an inline: its literals, in order
spec fn itext(i: Inline) -> Seq<char> decreases i, 0nat {
    match i {
        Inline::InlineSpan(s) => its(s.inlines@),
        Inline::InlineRef(s) => its(s.inlines@),
        Inline::InlineLiteral(l) => l.value@,
        Inline::InlineBreak(_) => Seq::empty(),
    }
}
spec fn its(s: Seq<Inline>) -> Seq<char> decreases s, s.len() {
    if s.len() == 0 { Seq::empty() } else { its(s.drop_last()) + itext(s.last()) }
}
proof fn its_take(s: Seq<Inline>, k: int)
    requires 0 <= k < s.len()
    ensures its(s.take(k + 1)) == its(s.take(k)) + itext(s[k]), s.take(0) == Seq::<Inline>::empty(), s.take(s.len() as int) == s
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(0) =~= Seq::<Inline>::empty());
    assert(s.take(s.len() as int) =~= s);
}
pub uninterp spec fn is_ws_beyond(c: char) -> bool;
// std: char::is_whitespace
spec fn is_ws(c: char) -> bool {
    c == ' ' || ('\t' <= c && c <= '\r') || (c as u32 >= 128 && is_ws_beyond(c))
}
// the number of words: maximal runs of non-whitespace
spec fn words(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 }
    else if !is_ws(s.last()) && (s.len() == 1 || is_ws(s[s.len() - 2])) { words(s.drop_last()) + 1 }
    else { words(s.drop_last()) }
}
// nothing that follows can be glued to a word of s
spec fn closed(s: Seq<char>) -> bool { s.len() == 0 || is_ws(s.last()) }
proof fn words_cat(a: Seq<char>, b: Seq<char>)
    requires closed(a)
    ensures words(a + b) == words(a) + words(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        words_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        if b.len() > 1 { assert((a + b)[(a + b).len() - 2] == b[b.len() - 2]); }
    }
}
proof fn words_nl(a: Seq<char>)
    ensures words(a.push('\n')) == words(a), closed(a.push('\n'))
{
    assert(a.push('\n').drop_last() =~= a);
}
// the words of a block: of its own text and, separately, of each block in it
spec fn bwords(b: Block) -> nat decreases b, 0nat {
    match b {
        Block::Section(x) => words(its(x.inlines@)) + bswords(x.blocks@),
        Block::List(x) => bswords(x.items@),
        Block::DList(x) => bswords(x.items@),
        Block::ListItem(x) => words(its(x.principal@)) + bswords(x.blocks@),
        Block::DListItem(x) => words(its(x.terms@)) + words(its(x.principal@)) + bswords(x.blocks@),
        Block::ParentBlock(x) => words(its(x.title@)) + bswords(x.blocks@),
        Block::LeafBlock(x) => words(its(x.inlines@)),
        Block::TableCell(x) => words(its(x.inlines@)),
        Block::BlockMacro(x) => words(its(x.caption@)),
        _ => 0,
    }
}
spec fn bswords(s: Seq<Block>) -> nat decreases s, s.len() {
    if s.len() == 0 { 0 } else { bswords(s.drop_last()) + bwords(s.last()) }
}
proof fn bs_take(s: Seq<Block>, k: int)
    requires 0 <= k < s.len()
    ensures bswords(s.take(k + 1)) == bswords(s.take(k)) + bwords(s[k])
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
// no block of a kind that the parser never builds
spec fn used(b: Block) -> bool decreases b, 0nat {
    match b {
        Block::SectionBody | Block::NonSectionBlockBody(_) | Block::DiscreteHeading | Block::BlockMetadata(_) => false,
        Block::Section(x) => useds(x.blocks@),
        Block::List(x) => useds(x.items@),
        Block::DList(x) => useds(x.items@),
        Block::ListItem(x) => useds(x.blocks@),
        Block::DListItem(x) => useds(x.blocks@),
        Block::ParentBlock(x) => useds(x.blocks@),
        _ => true,
    }
}
spec fn useds(s: Seq<Block>) -> bool decreases s, s.len() {
    s.len() == 0 || (useds(s.drop_last()) && used(s.last()))
}
proof fn useds_at(s: Seq<Block>, k: int)
    requires useds(s), 0 <= k < s.len()
    ensures used(s[k])
    decreases s.len()
{
    if k < s.len() - 1 { useds_at(s.drop_last(), k); }
}
// std: str::split_whitespace().count()
#[verifier::external_body]
fn sh_word_count<A: StrView + ?Sized>(s: &A) -> (r: usize)
    ensures r == words(s.sv())
{ unimplemented!() }
//! contract Inline::extract_values_to_string
    ensures
        r@ == itext(*self), // [B02 +]
    decreases *self
//! default-loop Inline::extract_values_to_string
    invariant
        it_.seq().len() == inl_(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == inl_(*self)[i],
        values@ == its(inl_(*self).take(it_.index() as int)),
//! hint Inline::extract_values_to_string loop * start
proof { its_take(inl_(*self), it_.index() as int); }
//! prologue Inline::extract_values_to_string
broadcast use {take_all, take_none};
//! prologue Block::block_text
broadcast use {take_all, take_none};
//! raw
broadcast proof fn take_all<T>(s: Seq<T>, n: int)
    requires n == s.len()
    ensures #[trigger] s.take(n) == s
{ assert(s.take(n) =~= s); }
broadcast proof fn take_none<T>(s: Seq<T>, n: int)
    requires n == 0
    ensures #[trigger] s.take(n) == Seq::<T>::empty()
{ assert(s.take(n) =~= Seq::<T>::empty()); }
spec fn inl_(i: Inline) -> Seq<Inline> {
    match i { Inline::InlineSpan(s) => s.inlines@, Inline::InlineRef(s) => s.inlines@, _ => Seq::empty() }
}
// the inlines of a block itself
spec fn own(b: Block) -> Seq<Inline> {
    match b {
        Block::Section(x) => x.inlines@,
        Block::ListItem(x) => x.principal@,
        Block::DListItem(x) => x.principal@,
        Block::ParentBlock(x) => x.title@,
        Block::LeafBlock(x) => x.inlines@,
        Block::TableCell(x) => x.inlines@,
        Block::BlockMacro(x) => x.caption@,
        _ => Seq::empty(),
    }
}
spec fn terms(b: Block) -> Seq<Inline> {
    match b { Block::DListItem(x) => x.terms@, _ => Seq::empty() }
}
spec fn kids(b: Block) -> Seq<Block> {
    match b {
        Block::Section(x) => x.blocks@,
        Block::List(x) => x.items@,
        Block::DList(x) => x.items@,
        Block::ListItem(x) => x.blocks@,
        Block::DListItem(x) => x.blocks@,
        Block::ParentBlock(x) => x.blocks@,
        _ => Seq::empty(),
    }
}
//! contract Section::title
    ensures
        r@ == self.inlines@, // [B02 +]
//! contract Block::block_text
    requires
        used(*self),
    ensures
        words(r@) == bwords(*self), // [B02]
        closed(r@), // [B02]
    decreases *self
//! contract Asg::all_text
    requires
        useds(self.blocks@),
    ensures
        words(r@) == bswords(self.blocks@), // [B02]
//! hint Asg::all_text loop 0 start
proof { broadcast use {take_all, take_none}; useds_at(self.blocks@, it_.index() as int); bs_take(self.blocks@, it_.index() as int); let ghost g0 = graph_text@; assert forall|t: Seq<char>| true implies #[trigger] words(g0 + t) == words(g0) + words(t) by { words_cat(g0, t); } }
//! prologue Asg::all_text
broadcast use {take_all, take_none};
//! loop Asg::all_text 0
    invariant
        useds(self.blocks@),
        it_.seq().len() == self.blocks@.len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == self.blocks@[i],
        closed(graph_text@), words(graph_text@) == bswords(self.blocks@.take(it_.index() as int)),
//! contract Asg::word_count
    requires
        useds(self.blocks@),
    ensures
        r == bswords(self.blocks@), // [B02]
//! loop Block::block_text 0
    invariant
        it_.seq().len() == own(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> (#[trigger] it_.seq()[i]) == own(*self)[i],
        block_text@ == its(own(*self).take(it_.index() as int)),
//! hint Block::block_text loop 0 start
proof { its_take(own(*self), it_.index() as int); }
//! loop Block::block_text 1
    invariant
        used(*self),
        it_.seq().len() == kids(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == kids(*self)[i],
        closed(block_text@), words(block_text@) == words(its(own(*self))) + bswords(kids(*self).take(it_.index() as int)),
//! hint Block::block_text loop 1 start
proof { useds_at(kids(*self), it_.index() as int); bs_take(kids(*self), it_.index() as int); let ghost g0 = block_text@; assert forall|t: Seq<char>| true implies #[trigger] words(g0 + t) == words(g0) + words(t) by { words_cat(g0, t); } }
//! loop Block::block_text 2
    invariant
        used(*self),
        it_.seq().len() == kids(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == kids(*self)[i],
        closed(block_text@), words(block_text@) == 0 + bswords(kids(*self).take(it_.index() as int)),
//! hint Block::block_text loop 2 start
proof { useds_at(kids(*self), it_.index() as int); bs_take(kids(*self), it_.index() as int); let ghost g0 = block_text@; assert forall|t: Seq<char>| true implies #[trigger] words(g0 + t) == words(g0) + words(t) by { words_cat(g0, t); } }
//! loop Block::block_text 3
    invariant
        it_.seq().len() == own(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == own(*self)[i],
        block_text@ == its(own(*self).take(it_.index() as int)),
//! hint Block::block_text loop 3 start
proof { its_take(own(*self), it_.index() as int); }
//! loop Block::block_text 4
    invariant
        used(*self),
        it_.seq().len() == kids(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == kids(*self)[i],
        closed(block_text@), words(block_text@) == words(its(own(*self))) + bswords(kids(*self).take(it_.index() as int)),
//! hint Block::block_text loop 4 start
proof { useds_at(kids(*self), it_.index() as int); bs_take(kids(*self), it_.index() as int); let ghost g0 = block_text@; assert forall|t: Seq<char>| true implies #[trigger] words(g0 + t) == words(g0) + words(t) by { words_cat(g0, t); } }
//! loop Block::block_text 5
    invariant
        used(*self),
        it_.seq().len() == kids(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == kids(*self)[i],
        closed(block_text@), words(block_text@) == 0 + bswords(kids(*self).take(it_.index() as int)),
//! hint Block::block_text loop 5 start
proof { useds_at(kids(*self), it_.index() as int); bs_take(kids(*self), it_.index() as int); let ghost g0 = block_text@; assert forall|t: Seq<char>| true implies #[trigger] words(g0 + t) == words(g0) + words(t) by { words_cat(g0, t); } }
//! loop Block::block_text 6
    invariant
        it_.seq().len() == terms(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == terms(*self)[i],
        block_text@ == its(terms(*self).take(it_.index() as int)),
//! hint Block::block_text loop 6 start
proof { its_take(terms(*self), it_.index() as int); }
//! loop Block::block_text 7
    invariant
        it_.seq().len() == own(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == own(*self)[i],
        block_text@ == its(terms(*self)).push('\n') + its(own(*self).take(it_.index() as int)),
//! hint Block::block_text loop 7 start
proof { its_take(own(*self), it_.index() as int); }
//! loop Block::block_text 8
    invariant
        used(*self),
        it_.seq().len() == kids(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == kids(*self)[i],
        closed(block_text@), words(block_text@) == words(its(terms(*self))) + words(its(own(*self))) + bswords(kids(*self).take(it_.index() as int)),
//! hint Block::block_text loop 8 start
proof { useds_at(kids(*self), it_.index() as int); bs_take(kids(*self), it_.index() as int); let ghost g0 = block_text@; assert forall|t: Seq<char>| true implies #[trigger] words(g0 + t) == words(g0) + words(t) by { words_cat(g0, t); } }
//! loop Block::block_text 9
    invariant
        it_.seq().len() == own(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == own(*self)[i],
        block_text@ == its(own(*self).take(it_.index() as int)),
//! hint Block::block_text loop 9 start
proof { its_take(own(*self), it_.index() as int); }
//! loop Block::block_text 10
    invariant
        it_.seq().len() == own(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == own(*self)[i],
        block_text@ == its(own(*self).take(it_.index() as int)),
//! hint Block::block_text loop 10 start
proof { its_take(own(*self), it_.index() as int); }
//! loop Block::block_text 11
    invariant
        it_.seq().len() == own(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == own(*self)[i],
        block_text@ == its(own(*self).take(it_.index() as int)),
//! hint Block::block_text loop 11 start
proof { its_take(own(*self), it_.index() as int); }
//! loop Block::block_text 12
    invariant
        used(*self),
        it_.seq().len() == kids(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == kids(*self)[i],
        closed(block_text@), words(block_text@) == words(its(own(*self))) + bswords(kids(*self).take(it_.index() as int)),
//! hint Block::block_text loop 12 start
proof { useds_at(kids(*self), it_.index() as int); bs_take(kids(*self), it_.index() as int); let ghost g0 = block_text@; assert forall|t: Seq<char>| true implies #[trigger] words(g0 + t) == words(g0) + words(t) by { words_cat(g0, t); } }
//! loop Block::block_text 13
    invariant
        it_.seq().len() == own(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == own(*self)[i],
        block_text@ == its(own(*self).take(it_.index() as int)),
//! hint Block::block_text loop 13 start
proof { its_take(own(*self), it_.index() as int); }
//! hint Block::block_text before-call push
proof { words_nl(block_text@); words_nl(its(terms(*self))); words_nl(its(own(*self))); words_cat(its(terms(*self)).push('\n'), its(own(*self))); }
