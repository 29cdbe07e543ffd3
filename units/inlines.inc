//! # Spans, references and literals: nesting and text.
//! impl src/scanner/tokens.rs Token only token_type text locations first_location last_location
//! impl src/graph/nodes.rs Location only new reconcile
//! impl src/graph/metadata.rs ElementMetadata only new_with_role new_with_id new_inline_with_id
//! impl src/graph/inlines.rs Inline except Display.fmt trim
//! impl src/graph/inlines.rs InlineSpan
//! impl src/graph/inlines.rs InlineRef
//! impl src/graph/inlines.rs InlineLiteral except value_or_refd_char
//! impl src/graph/inlines.rs LineBreak
//! method last_mut => sh_last_mut &mut
//! method front_mut => sh_front_mut &mut
//! method back_mut => sh_back_mut &mut
//! method extend in=InlineSpan::extract_span_inlines => sh_vd_extend &mut
//! method into recv=extract_span_inlines => sh_vd_into
//! method into recv=" => sh_into_string
//! method filter recvend=last_mut() => sh_filter_mut
//! method get recv=id_hash => sh_ids_get &
//! method insert_str => sh_insert_str &mut
//! method collect recv=flat_map => @drop
//! method flat_map => sh_flat_map
//! slice token.text() => sh_tslice &
//! slice token.lexeme => sh_tslice &
//! method len recv=token.text() => sh_blen &
//! path std::iter::repeat_n => sh_repeat_n
//! eq text=last_inline => sh_inline_eq
//! raw
// std: String::len, in bytes
#[verifier::external_body]
fn sh_blen(s: &str) -> (r: usize)
    ensures r == s.spec_bytes().len()
{ unimplemented!() }
// std: slicing off ASCII characters at both ends (panics when they are not there)
#[verifier::external_body]
fn sh_tslice<'a>(s: &'a str, i: usize, j: usize) -> (r: &'a str)
    requires i <= j <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), i as int), is_char_boundary(s.spec_bytes(), j as int)
    ensures r.spec_bytes() == s.spec_bytes().subrange(i as int, j as int)
{ unimplemented!() }
// std: String::insert_str
#[verifier::external_body]
fn sh_insert_str(s: &mut String, i: usize, t: &str)
    requires i == 0
    ensures final(s)@ == t@ + old(s)@
{ unimplemented!() }
// std: iter::repeat_n
#[verifier::external_body]
fn sh_repeat_n(c: char, n: usize) -> (r: Vec<char>)
    ensures r@ == Seq::new(n as nat, |i: int| c)
{ unimplemented!() }
// std: chars().flat_map(f).collect::<String>(), for a text of one character
#[verifier::external_body]
fn sh_flat_map<F: Fn(char) -> Vec<char>>(c: core::str::Chars<'_>, f: F) -> (r: String)
    requires forall|x: char| f.requires((x,))
    ensures
        vstd::std_specs::iter::IteratorSpec::remaining(&c).len() == 1 ==> exists|v: Vec<char>| f.ensures((vstd::std_specs::iter::IteratorSpec::remaining(&c)[0],), v) && r@ == v@,
{ unimplemented!() }
// Inline's PartialEq (contract below): kind, and for spans variant and form
#[verifier::external_body]
fn sh_inline_eq(a: &Inline, b: &Inline) -> (r: bool)
    ensures r == same_mark(*a, *b)
{ unimplemented!() }
// ---------------------------------------------------------------- text and nesting
spec fn same_mark(a: Inline, b: Inline) -> bool {
    match (a, b) {
        (Inline::InlineSpan(x), Inline::InlineSpan(y)) => x.variant == y.variant && x.node_form == y.node_form,
        (Inline::InlineRef(_), Inline::InlineRef(_)) => true,
        (Inline::InlineLiteral(_), Inline::InlineLiteral(_)) => true,
        (Inline::InlineBreak(_), Inline::InlineBreak(_)) => true,
        _ => false,
    }
}
// the characters a span was opened with
spec fn mark(s: InlineSpan) -> Seq<char> {
    let m = match s.variant {
        InlineSpanVariant::Strong => seq!['*'],
        InlineSpanVariant::Emphasis => seq!['_'],
        InlineSpanVariant::Mark => seq!['#'],
        InlineSpanVariant::Code => seq!['`'],
        InlineSpanVariant::Superscript => seq!['^'],
        InlineSpanVariant::Subscript => seq!['~'],
        InlineSpanVariant::Footnote => seq!['f', 'o', 'o', 't', 'n', 'o', 't', 'e', ':', '['],
    };
    if s.node_form == InlineSpanForm::Unconstrained && s.variant != InlineSpanVariant::Footnote { m + m } else { m }
}
// what is read from left to right: characters, and where formatting, links and
// references start and end
enum T {
    C(char), Open(InlineSpanVariant, InlineSpanForm, Option<ElementMetadata>), Close,
    Ref(InlineRefVariant, Seq<char>, Option<ElementMetadata>), EndRef, Break,
}
spec fn as_t() -> spec_fn(char) -> T { |c: char| T::C(c) }
#[verifier::opaque]
spec fn cs(s: Seq<char>) -> Seq<T> { s.map_values(as_t()) }
broadcast proof fn cs_cat(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] cs(a + b) == cs(a) + cs(b)
{ reveal(cs); assert(cs(a + b) =~= cs(a) + cs(b)); }
broadcast proof fn cs_none(a: Seq<char>)
    ensures #[trigger] cs(a).len() == a.len()
{ reveal(cs); }
spec fn lt(l: InlineLiteral) -> Seq<T> { cs(l.value@) }
spec fn around(s: InlineSpan, inner: Seq<T>) -> Seq<T> { (seq![T::Open(s.variant, s.node_form, s.metadata)] + inner) + seq![T::Close] }
spec fn from_ref(s: InlineRef) -> Seq<T> { seq![T::Ref(s.variant, s.target@, s.metadata)] }
spec fn after_ref(s: InlineRef) -> Seq<T> { if s.open { Seq::empty() } else { seq![T::EndRef] } }
// a span that is still open shows its mark
#[verifier::opaque]
spec fn mt(i: Inline) -> Seq<T> decreases i, 0nat {
    match i {
        Inline::InlineSpan(s) => if s.open { cs(mark(s)) + mts(s.inlines@) } else { around(s, mts(s.inlines@)) },
        Inline::InlineRef(s) => (from_ref(s) + mts(s.inlines@)) + after_ref(s),
        Inline::InlineLiteral(l) => lt(l),
        Inline::InlineBreak(_) => seq![T::Break],
    }
}
#[verifier::opaque]
spec fn mts(s: Seq<Inline>) -> Seq<T> decreases s, s.len() {
    if s.len() == 0 { Seq::empty() } else { mts(s.drop_last()) + mt(s.last()) }
}
// the text of an inline: its literals, in order
#[verifier::opaque]
spec fn itext(i: Inline) -> Seq<char> decreases i, 0nat {
    match i {
        Inline::InlineSpan(s) => its(s.inlines@),
        Inline::InlineRef(s) => its(s.inlines@),
        Inline::InlineLiteral(l) => l.value@,
        Inline::InlineBreak(_) => Seq::empty(),
    }
}
#[verifier::opaque]
spec fn its(s: Seq<Inline>) -> Seq<char> decreases s, s.len() {
    if s.len() == 0 { Seq::empty() } else { its(s.drop_last()) + itext(s.last()) }
}
// nothing in it is still open
#[verifier::opaque]
spec fn shut(i: Inline) -> bool decreases i, 0nat {
    match i {
        Inline::InlineSpan(s) => !s.open && shuts(s.inlines@),
        Inline::InlineRef(s) => shuts(s.inlines@) && (s.open ==> takes_text(s.inlines@)),
        _ => true,
    }
}
#[verifier::opaque]
spec fn shuts(s: Seq<Inline>) -> bool decreases s, s.len() {
    s.len() == 0 || (shuts(s.drop_last()) && shut(s.last()))
}
// what is closed has nothing open in it
#[verifier::opaque]
spec fn good(i: Inline) -> bool decreases i, 0nat {
    match i {
        Inline::InlineSpan(s) => if s.open { goods(s.inlines@) } else { shuts(s.inlines@) },
        Inline::InlineRef(s) => shuts(s.inlines@) && (s.open ==> takes_text(s.inlines@)),
        _ => true,
    }
}
#[verifier::opaque]
spec fn goods(s: Seq<Inline>) -> bool decreases s, s.len() {
    s.len() == 0 || (goods(s.drop_last()) && good(s.last()))
}
spec fn is_open_(i: Inline) -> bool {
    match i { Inline::InlineSpan(s) => s.open, _ => false }
}
spec fn inl_(i: Inline) -> Seq<Inline> {
    match i { Inline::InlineSpan(s) => s.inlines@, Inline::InlineRef(s) => s.inlines@, _ => Seq::empty() }
}
spec fn lit_(i: Inline) -> Seq<char> {
    match i { Inline::InlineLiteral(l) => l.value@, _ => Seq::empty() }
}
// equal but for the position and what it contains
spec fn same_head(a: Inline, b: Inline) -> bool {
    match (a, b) {
        (Inline::InlineSpan(x), Inline::InlineSpan(y)) => same_span(x, y),
        (Inline::InlineRef(x), Inline::InlineRef(y)) => same_ref(x, y),
        (Inline::InlineLiteral(x), Inline::InlineLiteral(y)) => x.name == y.name,
        (Inline::InlineBreak(_), Inline::InlineBreak(_)) => true,
        _ => false,
    }
}
spec fn same_span(x: InlineSpan, y: InlineSpan) -> bool {
    x.variant == y.variant && x.node_form == y.node_form && x.metadata == y.metadata && x.open == y.open
}
spec fn same_ref(x: InlineRef, y: InlineRef) -> bool {
    x.variant == y.variant && x.target == y.target && x.metadata == y.metadata && x.open == y.open
}
spec fn kept(a: Inline, b: Inline) -> bool { same_head(a, b) && inl_(a) == inl_(b) && lit_(a) == lit_(b) }
broadcast proof fn mts_push(s: Seq<Inline>, i: Inline)
    ensures #[trigger] mts(s.push(i)) == mts(s) + mt(i)
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); assert(s.push(i).drop_last() =~= s); }
broadcast proof fn its_push(s: Seq<Inline>, i: Inline)
    ensures #[trigger] its(s.push(i)) == its(s) + itext(i)
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); assert(s.push(i).drop_last() =~= s); }
broadcast proof fn shuts_push(s: Seq<Inline>, i: Inline)
    ensures #[trigger] shuts(s.push(i)) == (shuts(s) && shut(i))
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); assert(s.push(i).drop_last() =~= s); }
broadcast proof fn goods_push(s: Seq<Inline>, i: Inline)
    ensures #[trigger] goods(s.push(i)) == (goods(s) && good(i))
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); assert(s.push(i).drop_last() =~= s); }
broadcast proof fn cat3<A>(a: Seq<A>, b: Seq<A>, c: Seq<A>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
broadcast proof fn cat0<A>(a: Seq<A>, b: Seq<A>)
    ensures a.len() == 0 ==> #[trigger] (a + b) == b, b.len() == 0 ==> a + b == a
{ if a.len() == 0 { assert(a + b =~= b); } if b.len() == 0 { assert(a + b =~= a); } }
// the definitions above, one step at a time
broadcast proof fn mts_last(s: Seq<Inline>)
    ensures #![trigger mts(s), s.last()] s.len() > 0 ==> mts(s) == mts(s.drop_last()) + mt(s.last())
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); }
broadcast proof fn its_last(s: Seq<Inline>)
    ensures #![trigger its(s), s.last()] s.len() > 0 ==> its(s) == its(s.drop_last()) + itext(s.last())
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); }
broadcast proof fn shuts_last(s: Seq<Inline>)
    ensures #![trigger shuts(s), s.last()] s.len() > 0 ==> shuts(s) == (shuts(s.drop_last()) && shut(s.last()))
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); }
broadcast proof fn goods_last(s: Seq<Inline>)
    ensures #![trigger goods(s), s.last()] s.len() > 0 ==> goods(s) == (goods(s.drop_last()) && good(s.last()))
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); }
broadcast proof fn mt_def(i: Inline)
    ensures #[trigger] mt(i) == match i {
        Inline::InlineSpan(s) => if s.open { cs(mark(s)) + mts(s.inlines@) } else { around(s, mts(s.inlines@)) },
        Inline::InlineRef(s) => (from_ref(s) + mts(s.inlines@)) + after_ref(s),
        Inline::InlineLiteral(l) => lt(l),
        Inline::InlineBreak(_) => seq![T::Break],
    }
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); }
broadcast proof fn itext_def(i: Inline)
    ensures #[trigger] itext(i) == match i {
        Inline::InlineSpan(s) => its(s.inlines@),
        Inline::InlineRef(s) => its(s.inlines@),
        Inline::InlineLiteral(l) => l.value@,
        Inline::InlineBreak(_) => Seq::empty(),
    }
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); }
broadcast proof fn shut_def(i: Inline)
    ensures #[trigger] shut(i) == match i {
        Inline::InlineSpan(s) => !s.open && shuts(s.inlines@),
        Inline::InlineRef(s) => shuts(s.inlines@) && (s.open ==> takes_text(s.inlines@)),
        _ => true,
    }
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); }
broadcast proof fn good_def(i: Inline)
    ensures #[trigger] good(i) == match i {
        Inline::InlineSpan(s) => if s.open { goods(s.inlines@) } else { shuts(s.inlines@) },
        Inline::InlineRef(s) => shuts(s.inlines@) && (s.open ==> takes_text(s.inlines@)),
        _ => true,
    }
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); }
broadcast proof fn none_inl(s: Seq<Inline>)
    requires s.len() == 0
    ensures #![trigger mts(s)] #![trigger shuts(s)] #![trigger goods(s)] #![trigger its(s)] mts(s).len() == 0 && its(s).len() == 0 && shuts(s) && goods(s)
{ reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods); }
broadcast group inl { push_last, cs_cat, cs_none, mts_cat, cat3, cat0, shuts_goods, mts_push, its_push, shuts_push, goods_push, mts_last, its_last, shuts_last, goods_last, mt_def, itext_def, shut_def, good_def, none_inl }
// what is shut is good
broadcast proof fn shuts_goods(s: Seq<Inline>)
    requires #[trigger] shuts(s)
    ensures goods(s)
    decreases s, s.len()
{
    broadcast use {shuts_last, goods_last, shut_def, good_def};
    if s.len() > 0 {
        assert(shut(s.last()));
        shuts_goods(s.drop_last());
        match s.last() {
            Inline::InlineSpan(x) => { shuts_goods(x.inlines@); }
            Inline::InlineRef(x) => { shuts_goods(x.inlines@); }
            _ => {}
        }
        assert(good(s.last()));
        assert(goods(s));
    } else { broadcast use none_inl; assert(goods(s)); }
}
proof fn mts_take(s: Seq<Inline>, k: int)
    requires 0 <= k < s.len()
    ensures mts(s.take(k + 1)) == mts(s.take(k)) + mt(s[k]), its(s.take(k + 1)) == its(s.take(k)) + itext(s[k])
{
    reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods);
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
broadcast proof fn mts_cat(a: Seq<Inline>, b: Seq<Inline>)
    ensures #![trigger mts(a + b)] #![trigger its(a + b)] #![trigger shuts(a + b)] #![trigger goods(a + b)] mts(a + b) == mts(a) + mts(b), its(a + b) == its(a) + its(b), shuts(a + b) == (shuts(a) && shuts(b)), goods(a + b) == (goods(a) && goods(b))
    decreases b.len()
{
    reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods);
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        mts_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(mts(a + b) =~= mts(a) + mts(b));
        assert(its(a + b) =~= its(a) + its(b));
    }
}
proof fn mts_first(s: Seq<Inline>)
    requires s.len() > 0
    ensures s == seq![s[0]] + s.subrange(1, s.len() as int)
{
    assert(s =~= seq![s[0]] + s.subrange(1, s.len() as int));
}
proof fn goods_at(s: Seq<Inline>, k: int)
    requires goods(s), 0 <= k < s.len()
    ensures good(s[k])
    decreases s.len()
{
    reveal(mt); reveal(mts); reveal(itext); reveal(its); reveal(shut); reveal(shuts); reveal(good); reveal(goods);
    if k < s.len() - 1 { goods_at(s.drop_last(), k); }
}
// ---------------------------------------------------------------- contracts
//! contract Token::token_type
    ensures
        r == self.token_type, // [+]
//! contract Token::text
    ensures
        r@ == ttext(*self), // [+]
//! contract Location::reconcile
    ensures
        start@.len() + other@.len() > 0 ==> r@.len() > 0, // [+]
//! contract Token::locations
    ensures
        r@.len() > 0, // [+]
//! raw
spec fn ttext(t: Token) -> Seq<char> {
    match t.token_type {
        TokenType::OpenDoubleQuote => seq!['\u{201c}'],
        TokenType::CloseDoubleQuote => seq!['\u{201d}'],
        TokenType::OpenSingleQuote => seq!['\u{2018}'],
        TokenType::CloseSingleQuote => seq!['\u{2019}'],
        _ => match t.literal { Some(l) => l@, None => t.lexeme@ },
    }
}
spec fn role_only(m: ElementMetadata, r: Seq<char>) -> bool {
    m.roles@.len() == 1 && m.roles@[0]@ == r && attrs(m.attributes) == Map::<Seq<char>, Seq<char>>::empty() && m.options@.len() == 0 && !m.inline_metadata
}
//! contract Inline::PartialEq.eq
    ensures
        r == same_mark(*self, *other), // [C07 +]
//! contract Inline::push_inline
    requires
        (*old(self)) is InlineSpan || (*old(self)) is InlineRef,
    ensures
        same_head(*old(self), *final(self)), // [C07 +]
        inl_(*final(self)) == inl_(*old(self)).push(child), // [C07 +]
//! contract Inline::reconcile_locations
    ensures
        kept(*old(self), *final(self)), // [C07 +]
//! contract Inline::is_literal
    ensures
        r == self is InlineLiteral, // [C07 +]
//! contract Inline::is_open_macro
    ensures
        r == open_macro(*self), // [C07 +]
//! raw
spec fn open_macro(i: Inline) -> bool {
    match i {
        Inline::InlineRef(x) => x.open,
        Inline::InlineSpan(x) => x.open && x.variant == InlineSpanVariant::Footnote,
        _ => false,
    }
}
//! contract Inline::is_open
    ensures
        r == is_open_(*self), // [C07 +]
//! contract Inline::is_newline
    ensures
        r == (self is InlineLiteral && lit_(*self) == "\n"@), // [C07 +]
//! contract Inline::is_footnote
    ensures
        r == (self is InlineSpan && self->InlineSpan_0.variant == InlineSpanVariant::Footnote), // [C08 +]
//! contract Inline::extract_values_to_string
    ensures
        r@ == itext(*self), // [C07 +]
    decreases *self
//! default-loop Inline::extract_values_to_string
    invariant
        it_.seq().len() == inl_(*self).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == inl_(*self)[i],
        values@ == its(inl_(*self).take(it_.index() as int)),
//! hint Inline::extract_values_to_string loop * start
proof { mts_take(inl_(*self), it_.index() as int); }
//! prologue Inline::extract_values_to_string
broadcast use {take_all, take_none, inl};
//! contract Inline::extract_literal
    requires
        (*old(self)) is InlineLiteral,
    ensures
        Inline::InlineLiteral(r) == *old(self), // [C07 +]
        *final(self) == *old(self), // [C07 +]
//! contract Inline::extract_child_inlines
    requires
        (*old(self)) is InlineSpan,
    ensures
        mts(r@) == mts(inl_(*old(self))), // [C07 +]
        goods(inl_(*old(self))) ==> shuts(r@), // [C07 +]
        *final(self) == *old(self), // [C07 +]
    decreases inl_(*old(self)), 1nat
//! contract Inline::produce_literal_from_self
    requires
        (*old(self)) is InlineSpan,
    ensures
        r@ == mark((*old(self))->InlineSpan_0), // [C07 +]
        *final(self) == *old(self), // [C07 +]
//! closure Inline::produce_literal_from_self 0
|c: char| -> (v: Vec<char>) ensures v@ == Seq::new(2, |i: int| c)
//! contract Inline::prepend_literal
    requires
        (*old(self)) is InlineLiteral,
        (*old(self))->InlineLiteral_0.location@.len() > 0 ==> preceding_literal.location@.len() > 0,
    ensures
        same_head(*old(self), *final(self)), // [C07 +]
        lit_(*final(self)) == preceding_literal.value@ + lit_(*old(self)), // [C07 +]
//! contract Inline::is_empty
    requires
        !(self is InlineBreak),
    ensures
        r == (if self is InlineLiteral { lit_(*self).len() == 0 } else { inl_(*self).len() == 0 }), // [C07 +]
//! contract Inline::consolidate_locations_from_token
    requires
        (*old(self)) is InlineSpan || (*old(self)) is InlineRef,
    ensures
        kept(*old(self), *final(self)), // [C07 +]
//! contract Inline::add_metadata
    requires
        (*old(self)) is InlineSpan,
    ensures
        (*final(self)) is InlineSpan, // [C09 +]
        (*final(self))->InlineSpan_0.metadata == Some(metadata), // [C09 +]
        (*final(self))->InlineSpan_0 == (InlineSpan { metadata: (*final(self))->InlineSpan_0.metadata, ..(*old(self))->InlineSpan_0 }), // [C07 C09 +]
//! contract Inline::close
    requires
        (*old(self)) is InlineSpan || (*old(self)) is InlineRef,
    ensures
        mts(inl_(*final(self))) == mts(inl_(*old(self))), // [C07 +]
        closed_head(*old(self), *final(self)), // [C07 +]
        goods(inl_(*old(self))) ==> shut(*final(self)), // [C07 +]
    decreases *old(self), 2nat
//! raw
spec fn closed_head(a: Inline, b: Inline) -> bool {
    match (a, b) {
        (Inline::InlineSpan(x), Inline::InlineSpan(y)) => same_span(InlineSpan { open: false, ..x }, y),
        (Inline::InlineRef(x), Inline::InlineRef(y)) => same_ref(InlineRef { open: false, ..x }, y),
        _ => false,
    }
}
//! contract Inline::attempt_xref_standardization
    ensures
        resolved(*old(self), *final(self), ids(*id_hash)), // [C08 +]
    decreases *old(self)
//! loop Inline::attempt_xref_standardization 0
    invariant
        it_.seq().len() == inl_(*old(self)).len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == inl_(*old(self))[i],
        forall|i: int| 0 <= i < it_.index() ==> resolved(inl_(*old(self))[i], *final(#[trigger] it_.seq()[i]), ids(*id_hash)),
//! hint Inline::attempt_xref_standardization loop 0 after
assert(forall|i: int| 0 <= i < span.inlines@.len() ==> resolved(inl_(*old(self))[i], #[trigger] span.inlines@[i], ids(*id_hash)));
assert(resolveds(inl_(*old(self)), span.inlines@, ids(*id_hash)));
//! prologue Inline::attempt_xref_standardization
reveal(resolveds);
broadcast use resolved_all;
//! raw
// references to a known place show what they point to; everything else stays as it is
uninterp spec fn ids(m: HashMap<String, Vec<Inline>>) -> Map<Seq<char>, Seq<Inline>>;
#[verifier::external_body]
fn sh_ids_get<'a>(m: &'a HashMap<String, Vec<Inline>>, k: &str) -> (r: Option<&'a Vec<Inline>>)
    ensures
        ids(*m).contains_key(k@) ==> r is Some && (*r->0)@ == ids(*m)[k@],
        !ids(*m).contains_key(k@) ==> r is None,
{ unimplemented!() }
spec fn resolved(a: Inline, b: Inline, m: Map<Seq<char>, Seq<Inline>>) -> bool decreases a, 0nat {
    match a {
        Inline::InlineSpan(x) => b is InlineSpan && same_span(x, b->InlineSpan_0) && resolveds(x.inlines@, inl_(b), m),
        Inline::InlineRef(x) => b is InlineRef && same_ref(x, b->InlineRef_0)
            && inl_(b) == (if x.variant == InlineRefVariant::Xref && m.contains_key(x.target@) { m[x.target@] } else { x.inlines@ }),
        _ => b == a,
    }
}
#[verifier::opaque]
spec fn resolveds(a: Seq<Inline>, b: Seq<Inline>, m: Map<Seq<char>, Seq<Inline>>) -> bool decreases a, a.len() {
    a.len() == b.len() && (a.len() == 0 || (resolveds(a.drop_last(), b.drop_last(), m) && resolved(a.last(), b.last(), m)))
}
broadcast proof fn resolved_all(a: Seq<Inline>, b: Seq<Inline>, m: Map<Seq<char>, Seq<Inline>>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> resolved(#[trigger] a[i], b[i], m)
    ensures #[trigger] resolveds(a, b, m)
    decreases a.len()
{
    reveal(resolveds);
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies resolved(#[trigger] a.drop_last()[i], b.drop_last()[i], m) by { assert(resolved(a[i], b[i], m)); }
        resolved_all(a.drop_last(), b.drop_last(), m);
        assert(resolved(a[a.len() - 1], b[a.len() - 1], m));
    }
}
//! contract InlineSpan::new
    ensures
        r.variant == variant && r.node_form == node_form && r.inlines@.len() == 0 && r.metadata is None && r.open, // [C07 +]
//! contract InlineSpan::inline_span_from_token
    requires
        is_mark_token(token.token_type),
        token.token_type == TokenType::CodeCallout ==> is_callout(ttext(token)),
    ensures
        token.token_type != TokenType::CodeCallout ==> r.open && r.inlines@.len() == 0 && r.metadata is None && mark(r) == tmark(token.token_type), // [C07 +]
        token.token_type == TokenType::CodeCallout ==> !r.open && r.inlines@.len() == 1 && r.inlines@[0] is InlineLiteral && shut(Inline::InlineSpan(r)), // [C07 +]
//! prologue InlineSpan::inline_span_from_token
broadcast use inl;
proof { if token.token_type == TokenType::CodeCallout { lemma_trim(ttext(token), 1, 1); } }
//! raw
spec fn is_mark_token(t: TokenType) -> bool {
    t is Strong || t is Emphasis || t is Monospace || t is Literal || t is Mark || t is Superscript || t is Subscript || t is UnconstrainedStrong || t is UnconstrainedEmphasis || t is UnconstrainedMonospace || t is UnconstrainedLiteral || t is UnconstrainedMark || t is FootnoteMacro || t is CodeCallout
}
spec fn tmark(t: TokenType) -> Seq<char> {
    match t {
        TokenType::Strong => seq!['*'],
        TokenType::Emphasis => seq!['_'],
        TokenType::Monospace | TokenType::Literal => seq!['`'],
        TokenType::Mark => seq!['#'],
        TokenType::Superscript => seq!['^'],
        TokenType::Subscript => seq!['~'],
        TokenType::UnconstrainedStrong => seq!['*', '*'],
        TokenType::UnconstrainedEmphasis => seq!['_', '_'],
        TokenType::UnconstrainedMonospace | TokenType::UnconstrainedLiteral => seq!['`', '`'],
        TokenType::UnconstrainedMark => seq!['#', '#'],
        TokenType::FootnoteMacro => seq!['f', 'o', 'o', 't', 'n', 'o', 't', 'e', ':', '['],
        _ => Seq::empty(),
    }
}
//! contract InlineSpan::add_inline
    ensures
        same_span(*old(self), *final(self)), // [C07 +]
        mts(final(self).inlines@) == mts(old(self).inlines@) + mt(inline), // [C07 +]
        goods(old(self).inlines@) && good(inline) ==> goods(final(self).inlines@), // [C07 +]
        shuts(old(self).inlines@) && shut(inline) ==> shuts(final(self).inlines@), // [C07 +]
    decreases *old(self)
//! contract InlineSpan::close_inner_span
    ensures
        r == has_open(old(self).inlines@, *mark), // [C07 +]
        !r ==> *final(self) == *old(self), // [C07 +]
        same_span(*old(self), *final(self)), // [C07 +]
        r ==> closed_in(old(self).inlines@, final(self).inlines@, *mark), // [C07 +]
        r && goods(old(self).inlines@) ==> goods(final(self).inlines@), // [C07 +]
    decreases *old(self)
//! closure InlineSpan::close_inner_span 0
|last: &&mut Inline| -> (b: bool) ensures b == is_open_(*old(*last))
//! raw
// an open span of the mark's kind, on the chain of open last spans
spec fn has_open(s: Seq<Inline>, m: Inline) -> bool decreases s {
    s.len() > 0 && is_open_(s.last()) && (same_mark(m, s.last()) || has_open(inl_(s.last()), m))
}
// the outermost one of them is closed, keeping the text in it, and nothing else changes
spec fn closed_in(a: Seq<Inline>, b: Seq<Inline>, m: Inline) -> bool decreases a {
    &&& a.len() == b.len() && a.len() > 0 && a.drop_last() == b.drop_last()
    &&& if same_mark(m, a.last()) { closed_head(a.last(), b.last()) && mts(inl_(a.last())) == mts(inl_(b.last())) }
        else { same_head(a.last(), b.last()) && b.last() is InlineSpan && closed_in(inl_(a.last()), inl_(b.last()), m) }
}
//! contract InlineSpan::extract_span_inlines
    ensures
        mts(r@) == mts(inlines@), // [C07 +]
        goods(inlines@) ==> shuts(r@), // [C07 +]
    decreases inlines@, 0nat
//! loop InlineSpan::extract_span_inlines 0
    invariant
        it_.seq().len() == inlines@.len(),
        forall|i: int| 0 <= i < it_.seq().len() ==> *(#[trigger] it_.seq()[i]) == inlines@[i],
        mts(children@) == mts(inlines@.take(it_.index() as int)),
        goods(inlines@) ==> shuts(children@),
//! hint InlineSpan::extract_span_inlines loop 0 start
proof { mts_take(inlines@, it_.index() as int); if goods(inlines@) { goods_at(inlines@, it_.index() as int); } }
//! hint InlineSpan::extract_span_inlines before-call front_mut
proof { if inline_children@.len() > 0 { mts_first(inline_children@); } }
//! prologue InlineSpan::extract_span_inlines
broadcast use {take_all, take_none, inl};
//! contract InlineSpan::new_footnote_ref
    ensures
        r.variant == InlineSpanVariant::Superscript, // [C08 +]
        r.inlines@ == seq![Inline::InlineRef(footnote_ref)], // [C08 +]
        r.metadata is Some && role_only(r.metadata->0, "footnote"@), // [C08 +]
//! contract InlineSpan::deconstruct_footnote
    ensures
        r.0@ == document_id@ + "_footnotedef_"@ + dec(count as nat), // [C08 +]
        note_mark(r.1, r.0@, document_id@ + "_footnoteref_"@ + dec(count as nat), dec(count as nat)), // [C08 +]
        r.2@.len() == old(self).inlines@.len() + 1 && r.2@.subrange(1, r.2@.len() as int) == old(self).inlines@, // [C08 +]
        r.2@[0] is InlineRef && r.2@[0]->InlineRef_0.target@ == document_id@ + "_footnoteref_"@ + dec(count as nat) && itext(r.2@[0]) == dec(count as nat), // [C08 +]
        final(self).inlines == r.2, // [C08 +]
//! contract InlineRef::new
    ensures
        r.variant == variant && r.target == target && r.inlines@.len() == 0 && r.metadata is None && !r.open, // [C08 +]
//! contract InlineRef::new_footnote_ref
    ensures
        r.variant == InlineRefVariant::Xref && r.target == target && r.inlines@ == seq![numbering] && !r.open, // [C08 +]
        id is None ==> r.metadata is None, // [C08 +]
        id is Some ==> r.metadata is Some && has_id(r.metadata->0, id->0@), // [C08 +]
//! contract InlineRef::new_xref_from_token
    requires
        is_xref(ttext(token)),
    ensures
        r.variant == InlineRefVariant::Xref && r.inlines@.len() == 0 && !r.open && r.metadata is None, // [C08 +]
        r.target@ == ttext(token).subrange(2, ttext(token).len() - 2), // [C08 +]
//! contract InlineRef::new_link_from_macro_token
    ensures
        r.variant == InlineRefVariant::Link && r.inlines@.len() == 0 && r.open && r.metadata is None, // [C07 C08 +]
        ttext(token).len() > 0 ==> r.target@ == ttext(token).drop_last(), // [C08 +]
//! contract InlineRef::new_link_from_token
    ensures
        r.variant == InlineRefVariant::Link && r.inlines@.len() == 0 && !r.open && r.metadata is None, // [C07 C08 +]
        r.target@ == ttext(token), // [C08 +]
//! contract InlineRef::new_inline_image
    ensures
        r.variant == InlineRefVariant::Image && r.inlines@.len() == 0 && !r.open, // [C07 C08 +]
        r.target == target && r.metadata == metadata, // [C08 +]
//! contract InlineRef::is_link
    ensures
        r == (self.variant == InlineRefVariant::Link), // [C08 +]
//! contract InlineRef::text_from_token
    requires
        takes_text(old(self).inlines@),
    ensures
        same_ref(*old(self), *final(self)), // [C07 C08 +]
        mts(final(self).inlines@) == mts(old(self).inlines@) + cs(if pass { token.lexeme@ } else { ttext(token) }), // [C07 C08 +]
        shuts(old(self).inlines@) ==> shuts(final(self).inlines@), // [C07 +]
        takes_text(final(self).inlines@), // [+]
//! contract InlineRef::add_text_from_token
    requires
        takes_text(old(self).inlines@),
    ensures
        same_ref(*old(self), *final(self)), // [C07 C08 +]
        mts(final(self).inlines@) == mts(old(self).inlines@) + cs(ttext(token)), // [C07 C08 +]
        shuts(old(self).inlines@) ==> shuts(final(self).inlines@), // [C07 +]
        takes_text(final(self).inlines@), // [+]
//! contract InlineRef::pass_text_from_token
    requires
        takes_text(old(self).inlines@),
    ensures
        same_ref(*old(self), *final(self)), // [C07 C08 +]
        mts(final(self).inlines@) == mts(old(self).inlines@) + cs(token.lexeme@), // [C07 C08 +]
        shuts(old(self).inlines@) ==> shuts(final(self).inlines@), // [C07 +]
        takes_text(final(self).inlines@), // [+]
//! contract InlineLiteral::new
    ensures
        r.name == name && r.value == value && r.location == location, // [C07 C08 +]
//! contract InlineLiteral::new_text_from_token
    ensures
        r.name is Text && r.value@ == ttext(*token), // [C07 C08 +]
        r.location@.len() > 0, // [+]
//! contract InlineLiteral::new_charref_from_token
    ensures
        r.name is Charref && r.value@ == ttext(*token), // [C07 C08 +]
        r.location@.len() > 0, // [+]
//! contract InlineLiteral::new_text_from_token_pass
    ensures
        r.name is Text && r.value@ == token.lexeme@, // [C07 C08 +]
        r.location@.len() > 0, // [+]
//! contract InlineLiteral::text_from_token
    ensures
        final(self).name == old(self).name, // [C07 +]
        final(self).value@ == old(self).value@ + (if pass_through { token.lexeme@ } else { ttext(*token) }), // [C07 +]
//! contract InlineLiteral::add_text_from_token
    ensures
        final(self).name == old(self).name, // [C07 +]
        final(self).value@ == old(self).value@ + ttext(*token), // [C07 +]
//! contract InlineLiteral::pass_text_from_token
    ensures
        final(self).name == old(self).name, // [C07 +]
        final(self).value@ == old(self).value@ + token.lexeme@, // [C07 +]
//! contract InlineLiteral::add_text_from_inline_literal
    requires
        inline is InlineLiteral,
    ensures
        final(self).name == old(self).name, // [C07 +]
        final(self).value@ == old(self).value@ + lit_(inline), // [C07 +]
//! contract InlineLiteral::combine_literals
    ensures
        final(self).name == old(self).name, // [C07 +]
        final(self).value@ == old(self).value@ + inline.value@, // [C07 +]
//! contract InlineLiteral::prepend_to_value
    ensures
        final(self).name == old(self).name, // [C07 +]
        final(self).value@ == value@ + old(self).value@, // [C07 +]
//! contract InlineLiteral::value
    ensures
        r@ == self.value@, // [C07 +]
//! contract ElementMetadata::new_with_role
    ensures
        r.roles@ == seq![role_name] && attrs(r.attributes) == Map::<Seq<char>, Seq<char>>::empty() && r.options@.len() == 0 && !r.inline_metadata && r.declared_type is None, // [C08 C09 +]
//! contract ElementMetadata::new_with_id
    ensures
        has_id(r, id@) && r.roles@.len() == 0 && r.options@.len() == 0 && !r.inline_metadata && r.declared_type is None, // [C08 C09 +]
//! contract ElementMetadata::new_inline_with_id
    ensures
        has_id(r, id@) && r.roles@.len() == 0 && r.options@.len() == 0 && r.inline_metadata && r.declared_type is None, // [C08 C09 +]
//! raw
// where the text of a link macro can go
spec fn takes_text(s: Seq<Inline>) -> bool {
    s.len() == 0 || is_open_(s.last()) || s.last() is InlineLiteral
}
// an ASCII character at each end
spec fn is_callout(t: Seq<char>) -> bool { t.len() >= 2 && t[0] == '<' && t.last() == '>' }
// cutting i ASCII characters off the front and j off the end, in bytes
proof fn lemma_trim(t: Seq<char>, i: nat, j: nat)
    requires i + j <= t.len(), all_ascii(t.subrange(0, i as int)), all_ascii(t.subrange(t.len() - j, t.len() as int))
    ensures
        encode_utf8(t).len() >= i + j,
        is_char_boundary(encode_utf8(t), i as int), is_char_boundary(encode_utf8(t), encode_utf8(t).len() - j),
        encode_utf8(t).subrange(i as int, encode_utf8(t).len() - j) == encode_utf8(t.subrange(i as int, t.len() - j)),
{
    let a = t.subrange(0, i as int); let m = t.subrange(i as int, t.len() - j); let z = t.subrange(t.len() - j, t.len() as int);
    assert(t =~= a + (m + z));
    encode_utf8_concat(a, m + z);
    encode_utf8_concat(m, z);
    lemma_ascii_bytes(a); lemma_ascii_bytes(z);
    let b = encode_utf8(t);
    encode_utf8_valid_utf8(t); encode_utf8_valid_utf8(a); encode_utf8_valid_utf8(m + z); encode_utf8_valid_utf8(m); encode_utf8_valid_utf8(z);
    assert(b.subrange(i as int, b.len() - j) =~= encode_utf8(m));
    is_char_boundary_start_end_of_seq(b);
    if i > 0 {
        assert(b[i - 1] == a[i - 1] as u8); 
        lemma_ascii_bnd(b, i - 1);
    }
    if j > 0 {
        assert(b[b.len() - j] == encode_utf8(z)[0]);
        assert(encode_utf8(z)[0] == z[0] as u8);
        lemma_ascii_bnd(b, b.len() - j);
    }
}
proof fn lemma_bytes_eq(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b)
    ensures a == b
{
    encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b);
}
spec fn is_xref(t: Seq<char>) -> bool {
    t.len() >= 4 && t[0] == '<' && t[1] == '<' && t[t.len() - 2] == '>' && t[t.len() - 1] == '>'
}
spec fn has_id(m: ElementMetadata, id: Seq<char>) -> bool {
    attrs(m.attributes) == Map::<Seq<char>, Seq<char>>::empty().insert("id"@, id)
}
spec fn note_mark(i: Inline, target: Seq<char>, id: Seq<char>, num: Seq<char>) -> bool {
    &&& i is InlineSpan && i->InlineSpan_0.variant == InlineSpanVariant::Superscript && itext(i) == num
    &&& i->InlineSpan_0.inlines@.len() == 1 && i->InlineSpan_0.inlines@[0] is InlineRef
    &&& i->InlineSpan_0.inlines@[0]->InlineRef_0.target@ == target
    &&& i->InlineSpan_0.inlines@[0]->InlineRef_0.metadata is Some
    &&& has_id(i->InlineSpan_0.inlines@[0]->InlineRef_0.metadata->0, id)
}
//! prologue InlineSpan::add_inline
broadcast use inl;
//! prologue InlineSpan::close_inner_span
broadcast use inl;
//! prologue InlineSpan::deconstruct_footnote
broadcast use inl;
//! prologue Inline::close
broadcast use inl;
//! prologue InlineRef::text_from_token
broadcast use inl;
//! prologue InlineRef::new_xref_from_token
proof { lemma_trim(ttext(token), 2, 2); assert forall|x: Seq<char>| #[trigger] encode_utf8(x) == encode_utf8(ttext(token).subrange(2, ttext(token).len() - 2)) implies x == ttext(token).subrange(2, ttext(token).len() - 2) by { lemma_bytes_eq(x, ttext(token).subrange(2, ttext(token).len() - 2)); } }
