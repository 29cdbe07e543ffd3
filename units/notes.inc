//! # Footnotes: numbered in the order of the document, defined at its end.
//! impl src/graph/blocks.rs Block only extract_footnote_definitions
//! impl src/graph/blocks.rs LeafBlock only new_footnote_def_from_id_and_inlines
//! impl src/graph/blocks.rs ParentBlock only new_footnotes_container
//! impl src/graph/lists.rs ListItem only extract_footnotes
//! impl src/graph/lists.rs DListItem only extract_footnotes
//! impl src/graph/asg.rs Asg only standardize_footnotes
//! attr Block::extract_footnote_definitions verifier::rlimit(100)
//! contract LeafBlock::new_footnote_def_from_id_and_inlines
    ensures
        kind(Block::LeafBlock(r)) == K::Leaf(LeafBlockName::Paragraph) && used(Block::LeafBlock(r)), // [D01 +]
        r.inlines == inlines, // [D01 +]
        r.metadata is Some && has_id(r.metadata->0, definition_id@) && r.metadata->0.roles@.len() == 1 && r.metadata->0.roles@[0]@ == "footnote"@, // [D01 +]
//! prologue LeafBlock::new_footnote_def_from_id_and_inlines
broadcast use {nodes, inuse};
//! contract ParentBlock::new_footnotes_container
    ensures
        kind(Block::ParentBlock(r)) == K::Parent(ParentBlockName::FootnoteContainer, None), // [D01 +]
        r.blocks == footnote_defs, // [D01 +]
        nd(Block::ParentBlock(r)) == (N { kids: nds(footnote_defs@), ..fresh(K::Parent(ParentBlockName::FootnoteContainer, None)) }), // [D01 +]
        useds(footnote_defs@) ==> used(Block::ParentBlock(r)), // [D01 +]
//! prologue ParentBlock::new_footnotes_container
broadcast use {nodes, inuse};
//! raw
// ---------------------------------------------------------------- notes
spec fn is_note(i: Inline) -> bool { i is InlineSpan && i->InlineSpan_0.variant == InlineSpanVariant::Footnote }
// the notes of a text, in order
spec fn notes(s: Seq<Inline>) -> Seq<Seq<Inline>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if is_note(s.last()) { notes(s.drop_last()).push(inl_(s.last())) } else { notes(s.drop_last()) }
}
spec fn noteful(n: N) -> bool { n.kind is Leaf || n.kind is Item || n.kind is DItem }
spec fn own_notes(n: N) -> Seq<Seq<Inline>> { if noteful(n) { notes(n.text) } else { Seq::empty() } }
// the notes of a block, in the order of the document
#[verifier::opaque]
spec fn bnotes(n: N) -> Seq<Seq<Inline>> decreases n, n.kids.len() + 1 { own_notes(n) + knotes(n, n.kids.len()) }
#[verifier::opaque]
spec fn knotes(n: N, i: nat) -> Seq<Seq<Inline>> decreases n, i {
    if i == 0 || i > n.kids.len() { Seq::empty() } else { knotes(n, (i - 1) as nat) + bnotes(n.kids[i - 1]) }
}
broadcast proof fn bnotes_def(n: N)
    ensures #[trigger] bnotes(n) == own_notes(n) + knotes(n, n.kids.len())
{ reveal(bnotes); reveal(knotes); }
broadcast proof fn knotes_none(n: N, i: nat)
    requires i == 0
    ensures #[trigger] knotes(n, i) == Seq::<Seq<Inline>>::empty()
{ reveal(bnotes); reveal(knotes); }
proof fn knotes_step(n: N, i: nat)
    requires i < n.kids.len()
    ensures knotes(n, i + 1) == knotes(n, i) + bnotes(n.kids[i as int])
{ reveal(bnotes); reveal(knotes); }
proof fn knotes_len(n: N, i: nat, j: nat)
    requires i <= j <= n.kids.len()
    ensures knotes(n, i).len() <= knotes(n, j).len()
    decreases j
{ if i < j { knotes_len(n, i, (j - 1) as nat); knotes_step(n, (j - 1) as nat); } }
spec fn def_id(doc: Seq<char>, k: nat) -> Seq<char> { doc + "_footnotedef_"@ + dec(k) }
spec fn ref_id(doc: Seq<char>, k: nat) -> Seq<char> { doc + "_footnoteref_"@ + dec(k) }
// each note is replaced by a reference with the next number, everything else stays
spec fn renoted(a: Seq<Inline>, b: Seq<Inline>, c: nat, doc: Seq<char>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> if is_note(a[i]) { note_mark(#[trigger] b[i], def_id(doc, c + notes(a.take(i)).len() + 1), ref_id(doc, c + notes(a.take(i)).len() + 1), dec(c + notes(a.take(i)).len() + 1)) } else { b[i] == a[i] }
}
spec fn noted(a: N, b: N, c: nat, doc: Seq<char>) -> bool decreases a {
    &&& b.kind == a.kind && b.meta == a.meta && b.title == a.title
    &&& if noteful(a) { renoted(a.text, b.text, c, doc) } else { b.text == a.text }
    &&& b.kids.len() == a.kids.len()
    &&& forall|i: int| 0 <= i < a.kids.len() ==> noted(#[trigger] a.kids[i], b.kids[i], c + own_notes(a).len() + knotes(a, i as nat).len(), doc)
}
spec fn def_of(b: N, body: Seq<Inline>, k: nat, doc: Seq<char>) -> bool {
    &&& b.kind == K::Leaf(LeafBlockName::Paragraph)
    &&& b.meta is Some && has_id(b.meta->0, def_id(doc, k)) && b.meta->0.roles@.len() == 1 && b.meta->0.roles@[0]@ == "footnote"@
    &&& b.text.len() == body.len() + 1 && b.text.subrange(1, b.text.len() as int) == body
    &&& b.text[0] is InlineRef && b.text[0]->InlineRef_0.target@ == ref_id(doc, k) && itext(b.text[0]) == dec(k)
}
// the definitions, numbered from c + 1 on
spec fn defs(s: Seq<N>, n: Seq<Seq<Inline>>, c: nat, doc: Seq<char>) -> bool {
    s.len() == n.len() && forall|i: int| 0 <= i < s.len() ==> def_of(#[trigger] s[i], n[i], c + i as nat + 1, doc)
}
spec fn item(i: ListItem) -> N { nd(Block::ListItem(i)) }
spec fn ditem(i: DListItem) -> N { nd(Block::DListItem(i)) }
proof fn notes_take(s: Seq<Inline>, k: int)
    requires 0 <= k < s.len()
    ensures notes(s.take(k + 1)) == if is_note(s[k]) { notes(s.take(k)).push(inl_(s[k])) } else { notes(s.take(k)) }
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
proof fn notes_max(s: Seq<Inline>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures notes(s.take(i)).len() <= notes(s.take(j)).len()
    decreases j
{ if i < j { notes_max(s, i, j - 1); notes_take(s, j - 1); } }
broadcast proof fn defs_push(s: Seq<N>, n: Seq<Seq<Inline>>, b: N, x: Seq<Inline>, c: nat, doc: Seq<char>)
    requires defs(s, n, c, doc), def_of(b, x, c + s.len() + 1, doc)
    ensures #[trigger] defs(s.push(b), n.push(x), c, doc)
{ }
broadcast proof fn defs_cat(s: Seq<N>, n: Seq<Seq<Inline>>, t: Seq<N>, m: Seq<Seq<Inline>>, c: nat, doc: Seq<char>)
    requires defs(s, n, c, doc), defs(t, m, c + s.len(), doc)
    ensures #[trigger] defs(s + t, n + m, c, doc)
{
    assert forall|i: int| 0 <= i < (s + t).len() implies def_of(#[trigger] (s + t)[i], (n + m)[i], c + i as nat + 1, doc) by {
        if i >= s.len() { assert(def_of(t[i - s.len()], m[i - s.len()], (c + s.len()) + (i - s.len()) as nat + 1, doc)); }
        else { assert(def_of(s[i], n[i], c + i as nat + 1, doc)); }
    }
}
broadcast proof fn set_at<T>(s: Seq<T>, i: int, x: T)
    requires 0 <= i < s.len()
    ensures #[trigger] s.remove(i).insert(i, x) == s.update(i, x)
{ assert(s.remove(i).insert(i, x) =~= s.update(i, x)); }
broadcast proof fn nocat0(a: Seq<Seq<Inline>>, b: Seq<Seq<Inline>>)
    ensures a.len() == 0 ==> #[trigger] (a + b) == b, b.len() == 0 ==> a + b == a
{ if a.len() == 0 { assert(a + b =~= b); } if b.len() == 0 { assert(a + b =~= a); } }
broadcast group noting { bnotes_def, knotes_none, nocat0, defs_push, defs_cat, set_at, take_all, take_none }
//! contract Block::extract_footnote_definitions
    requires
        used(*old(self)), footnote_count + bnotes(nd(*old(self))).len() <= usize::MAX,
    ensures
        r is Ok, // [D01 +]
        used(*final(self)), // [+]
        r is Ok ==> noted(nd(*old(self)), nd(*final(self)), footnote_count as nat, document_id@), // [D01 +]
        r is Ok ==> useds(r->Ok_0@) && defs(nds(r->Ok_0@), bnotes(nd(*old(self))), footnote_count as nat, document_id@), // [D01 +]
    decreases *old(self)
//! contract ListItem::extract_footnotes
    requires
        used(Block::ListItem(*old(self))), count + bnotes(item(*old(self))).len() <= usize::MAX,
    ensures
        r is Ok, // [D01 +]
        used(Block::ListItem(*final(self))), // [+]
        r is Ok ==> noted(item(*old(self)), item(*final(self)), count as nat, document_id@), // [D01 +]
        r is Ok ==> useds(r->Ok_0@) && defs(nds(r->Ok_0@), bnotes(item(*old(self))), count as nat, document_id@), // [D01 +]
    decreases *old(self)
//! contract DListItem::extract_footnotes
    requires
        used(Block::DListItem(*old(self))), count + bnotes(ditem(*old(self))).len() <= usize::MAX,
    ensures
        r is Ok, // [D01 +]
        used(Block::DListItem(*final(self))), // [+]
        r is Ok ==> noted(ditem(*old(self)), ditem(*final(self)), count as nat, document_id@), // [D01 +]
        r is Ok ==> useds(r->Ok_0@) && defs(nds(r->Ok_0@), bnotes(ditem(*old(self))), count as nat, document_id@), // [D01 +]
    decreases *old(self)
//! prologue Block::extract_footnote_definitions
broadcast use {nodes, inuse, noting};
//! default-loop Block::extract_footnote_definitions
    invariant
        it_.seq().len() == kids(*old(self)).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == kids(*old(self))[i],
        local_count == footnote_count + own_notes(nd(*old(self))).len() + knotes(nd(*old(self)), it_.index() as nat).len(),
        useds(extracted@), defs(nds(extracted@), own_notes(nd(*old(self))) + knotes(nd(*old(self)), it_.index() as nat), footnote_count as nat, document_id@),
        forall|i: int| 0 <= i < it_.index() ==> noted(nd(kids(*old(self))[i]), nd(*final(#[trigger] it_.seq()[i])), footnote_count as nat + own_notes(nd(*old(self))).len() + knotes(nd(*old(self)), i as nat).len(), document_id@) && used(*final(it_.seq()[i])),
//! hint Block::extract_footnote_definitions loop 0 start
proof { knotes_step(nd(*old(self)), it_.index() as nat); knotes_len(nd(*old(self)), (it_.index() + 1) as nat, nd(*old(self)).kids.len()); let i_ = it_.index() as nat; assert(own_notes(nd(*old(self))) + (knotes(nd(*old(self)), i_) + bnotes(nd(*old(self)).kids[i_ as int])) =~= (own_notes(nd(*old(self))) + knotes(nd(*old(self)), i_)) + bnotes(nd(*old(self)).kids[i_ as int])); }
//! hint Block::extract_footnote_definitions loop 0 after
proof {
    assert(forall|i: int| 0 <= i < block.blocks@.len() ==> noted(nd(kids(*old(self))[i]), nd(#[trigger] block.blocks@[i]), footnote_count as nat + own_notes(nd(*old(self))).len() + knotes(nd(*old(self)), i as nat).len(), document_id@) && used(block.blocks@[i]));
    useds_all(block.blocks@);
}
//! hint Block::extract_footnote_definitions loop 1 start
proof { knotes_step(nd(*old(self)), it_.index() as nat); knotes_len(nd(*old(self)), (it_.index() + 1) as nat, nd(*old(self)).kids.len()); let i_ = it_.index() as nat; assert(own_notes(nd(*old(self))) + (knotes(nd(*old(self)), i_) + bnotes(nd(*old(self)).kids[i_ as int])) =~= (own_notes(nd(*old(self))) + knotes(nd(*old(self)), i_)) + bnotes(nd(*old(self)).kids[i_ as int])); }
//! hint Block::extract_footnote_definitions loop 1 after
proof {
    assert(forall|i: int| 0 <= i < block.blocks@.len() ==> noted(nd(kids(*old(self))[i]), nd(#[trigger] block.blocks@[i]), footnote_count as nat + own_notes(nd(*old(self))).len() + knotes(nd(*old(self)), i as nat).len(), document_id@) && used(block.blocks@[i]));
    useds_all(block.blocks@);
}
//! hint Block::extract_footnote_definitions loop 2 start
proof { knotes_step(nd(*old(self)), it_.index() as nat); knotes_len(nd(*old(self)), (it_.index() + 1) as nat, nd(*old(self)).kids.len()); let i_ = it_.index() as nat; assert(own_notes(nd(*old(self))) + (knotes(nd(*old(self)), i_) + bnotes(nd(*old(self)).kids[i_ as int])) =~= (own_notes(nd(*old(self))) + knotes(nd(*old(self)), i_)) + bnotes(nd(*old(self)).kids[i_ as int])); }
//! hint Block::extract_footnote_definitions loop 2 after
proof {
    assert(forall|i: int| 0 <= i < block.items@.len() ==> noted(nd(kids(*old(self))[i]), nd(#[trigger] block.items@[i]), footnote_count as nat + own_notes(nd(*old(self))).len() + knotes(nd(*old(self)), i as nat).len(), document_id@) && used(block.items@[i]));
    useds_all(block.items@);
}
//! hint Block::extract_footnote_definitions loop 3 start
proof { knotes_step(nd(*old(self)), it_.index() as nat); knotes_len(nd(*old(self)), (it_.index() + 1) as nat, nd(*old(self)).kids.len()); let i_ = it_.index() as nat; assert(own_notes(nd(*old(self))) + (knotes(nd(*old(self)), i_) + bnotes(nd(*old(self)).kids[i_ as int])) =~= (own_notes(nd(*old(self))) + knotes(nd(*old(self)), i_)) + bnotes(nd(*old(self)).kids[i_ as int])); }
//! hint Block::extract_footnote_definitions loop 3 after
proof {
    assert(forall|i: int| 0 <= i < block.items@.len() ==> noted(nd(kids(*old(self))[i]), nd(#[trigger] block.items@[i]), footnote_count as nat + own_notes(nd(*old(self))).len() + knotes(nd(*old(self)), i as nat).len(), document_id@) && used(block.items@[i]));
    useds_all(block.items@);
}
//! loop Block::extract_footnote_definitions 4
    invariant
        block.inlines@.len() == text(*old(self)).len(),
        local_count == footnote_count + notes(text(*old(self)).take(idx as int)).len(),
        useds(extracted@), defs(nds(extracted@), notes(text(*old(self)).take(idx as int)), footnote_count as nat, document_id@),
        forall|j: int| idx <= j < block.inlines@.len() ==> #[trigger] block.inlines@[j] == text(*old(self))[j],
        forall|j: int| 0 <= j < idx ==> if is_note(text(*old(self))[j]) { note_mark(#[trigger] block.inlines@[j], def_id(document_id@, footnote_count as nat + notes(text(*old(self)).take(j)).len() + 1), ref_id(document_id@, footnote_count as nat + notes(text(*old(self)).take(j)).len() + 1), dec(footnote_count as nat + notes(text(*old(self)).take(j)).len() + 1)) } else { block.inlines@[j] == text(*old(self))[j] },
        block.name == (*old(self))->LeafBlock_0.name && block.metadata == (*old(self))->LeafBlock_0.metadata,
//! hint Block::extract_footnote_definitions loop 4 start
proof { notes_take(text(*old(self)), idx as int); notes_max(text(*old(self)), idx + 1, text(*old(self)).len() as int);  }
//! prologue ListItem::extract_footnotes
broadcast use {nodes, inuse, noting};
//! loop ListItem::extract_footnotes 0
    invariant
        self.principal@.len() == old(self).principal@.len(),
        local_count == count + notes(old(self).principal@.take(idx as int)).len(),
        useds(extracted@), defs(nds(extracted@), notes(old(self).principal@.take(idx as int)), count as nat, document_id@),
        forall|j: int| idx <= j < self.principal@.len() ==> #[trigger] self.principal@[j] == old(self).principal@[j],
        forall|j: int| 0 <= j < idx ==> if is_note(old(self).principal@[j]) { note_mark(#[trigger] self.principal@[j], def_id(document_id@, count as nat + notes(old(self).principal@.take(j)).len() + 1), ref_id(document_id@, count as nat + notes(old(self).principal@.take(j)).len() + 1), dec(count as nat + notes(old(self).principal@.take(j)).len() + 1)) } else { self.principal@[j] == old(self).principal@[j] },
        *self == (ListItem { principal: self.principal, ..*old(self) }),
//! hint ListItem::extract_footnotes loop 0 start
proof { notes_take(old(self).principal@, idx as int); notes_max(old(self).principal@, idx + 1, old(self).principal@.len() as int);  }
//! loop ListItem::extract_footnotes 1
    invariant
        it_.seq().len() == old(self).blocks@.len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == old(self).blocks@[i],
        local_count == count + own_notes(item(*old(self))).len() + knotes(item(*old(self)), it_.index() as nat).len(),
        useds(extracted@), defs(nds(extracted@), own_notes(item(*old(self))) + knotes(item(*old(self)), it_.index() as nat), count as nat, document_id@),
        forall|i: int| 0 <= i < it_.index() ==> noted(nd(old(self).blocks@[i]), nd(*final(#[trigger] it_.seq()[i])), count as nat + own_notes(item(*old(self))).len() + knotes(item(*old(self)), i as nat).len(), document_id@) && used(*final(it_.seq()[i])),
//! hint ListItem::extract_footnotes loop 1 start
proof { knotes_step(item(*old(self)), it_.index() as nat); knotes_len(item(*old(self)), (it_.index() + 1) as nat, item(*old(self)).kids.len()); let i_ = it_.index() as nat; assert(own_notes(item(*old(self))) + (knotes(item(*old(self)), i_) + bnotes(item(*old(self)).kids[i_ as int])) =~= (own_notes(item(*old(self))) + knotes(item(*old(self)), i_)) + bnotes(item(*old(self)).kids[i_ as int])); }
//! hint ListItem::extract_footnotes loop 1 after
proof {
    assert(forall|i: int| 0 <= i < self.blocks@.len() ==> noted(nd(old(self).blocks@[i]), nd(#[trigger] self.blocks@[i]), count as nat + own_notes(item(*old(self))).len() + knotes(item(*old(self)), i as nat).len(), document_id@) && used(self.blocks@[i]));
    useds_all(self.blocks@);
}
//! prologue DListItem::extract_footnotes
broadcast use {nodes, inuse, noting};
//! loop DListItem::extract_footnotes 0
    invariant
        self.principal@.len() == old(self).principal@.len(),
        local_count == count + notes(old(self).principal@.take(idx as int)).len(),
        useds(extracted@), defs(nds(extracted@), notes(old(self).principal@.take(idx as int)), count as nat, document_id@),
        forall|j: int| idx <= j < self.principal@.len() ==> #[trigger] self.principal@[j] == old(self).principal@[j],
        forall|j: int| 0 <= j < idx ==> if is_note(old(self).principal@[j]) { note_mark(#[trigger] self.principal@[j], def_id(document_id@, count as nat + notes(old(self).principal@.take(j)).len() + 1), ref_id(document_id@, count as nat + notes(old(self).principal@.take(j)).len() + 1), dec(count as nat + notes(old(self).principal@.take(j)).len() + 1)) } else { self.principal@[j] == old(self).principal@[j] },
        *self == (DListItem { principal: self.principal, ..*old(self) }),
//! hint DListItem::extract_footnotes loop 0 start
proof { notes_take(old(self).principal@, idx as int); notes_max(old(self).principal@, idx + 1, old(self).principal@.len() as int);  }
//! loop DListItem::extract_footnotes 1
    invariant
        it_.seq().len() == old(self).blocks@.len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == old(self).blocks@[i],
        local_count == count + own_notes(ditem(*old(self))).len() + knotes(ditem(*old(self)), it_.index() as nat).len(),
        useds(extracted@), defs(nds(extracted@), own_notes(ditem(*old(self))) + knotes(ditem(*old(self)), it_.index() as nat), count as nat, document_id@),
        forall|i: int| 0 <= i < it_.index() ==> noted(nd(old(self).blocks@[i]), nd(*final(#[trigger] it_.seq()[i])), count as nat + own_notes(ditem(*old(self))).len() + knotes(ditem(*old(self)), i as nat).len(), document_id@) && used(*final(it_.seq()[i])),
//! hint DListItem::extract_footnotes loop 1 start
proof { knotes_step(ditem(*old(self)), it_.index() as nat); knotes_len(ditem(*old(self)), (it_.index() + 1) as nat, ditem(*old(self)).kids.len()); let i_ = it_.index() as nat; assert(own_notes(ditem(*old(self))) + (knotes(ditem(*old(self)), i_) + bnotes(ditem(*old(self)).kids[i_ as int])) =~= (own_notes(ditem(*old(self))) + knotes(ditem(*old(self)), i_)) + bnotes(ditem(*old(self)).kids[i_ as int])); }
//! hint DListItem::extract_footnotes loop 1 after
proof {
    assert(forall|i: int| 0 <= i < self.blocks@.len() ==> noted(nd(old(self).blocks@[i]), nd(#[trigger] self.blocks@[i]), count as nat + own_notes(ditem(*old(self))).len() + knotes(ditem(*old(self)), i as nat).len(), document_id@) && used(self.blocks@[i]));
    useds_all(self.blocks@);
}
//! contract Asg::standardize_footnotes
    requires
        useds(old(self).blocks@), bnotes(root(old(self).blocks@)).len() <= usize::MAX,
    ensures
        r is Ok, // [D01 +]
        final(self).blocks@.len() == old(self).blocks@.len() + 1, // [D01 +]
        noted(root(old(self).blocks@), root(final(self).blocks@.drop_last()), 0, old(self).document_id@), // [D01 +]
        nds(final(self).blocks@).last().kind == K::Parent(ParentBlockName::FootnoteContainer, None), // [D01 +]
        defs(nds(final(self).blocks@).last().kids, bnotes(root(old(self).blocks@)), 0, old(self).document_id@), // [D01 +]
//! prologue Asg::standardize_footnotes
broadcast use {nodes, inuse, noting};
//! loop Asg::standardize_footnotes 0
    invariant
        it_.seq().len() == old(self).blocks@.len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == old(self).blocks@[i],
        useds(footnote_defs@), defs(nds(footnote_defs@), knotes(root(old(self).blocks@), it_.index() as nat), 0, old(self).document_id@),
        self.document_id == old(self).document_id,
        forall|i: int| 0 <= i < it_.index() ==> noted(nd(old(self).blocks@[i]), nd(*final(#[trigger] it_.seq()[i])), knotes(root(old(self).blocks@), i as nat).len(), old(self).document_id@) && used(*final(it_.seq()[i])),
//! hint Asg::standardize_footnotes loop 0 start
proof { let n = root(old(self).blocks@); knotes_step(n, it_.index() as nat); knotes_len(n, (it_.index() + 1) as nat, n.kids.len()); }
//! hint Asg::standardize_footnotes loop 0 after
proof {
    assert(forall|i: int| 0 <= i < self.blocks@.len() ==> noted(nd(old(self).blocks@[i]), nd(#[trigger] self.blocks@[i]), knotes(root(old(self).blocks@), i as nat).len(), old(self).document_id@) && used(self.blocks@[i]));
    useds_all(self.blocks@);
}

