//! # The parser: where each token's text, marks and macros go.
//! impl src/graph/nodes.rs Location only destructure_inline_locations
//! impl src/parser.rs Parser only add_text_to_last_inline pass_text_to_last_inline push_complete_inline add_dangling_newline parse_text pass_text_through parse_charref parse_link_macro parse_hyperlink parse_cross_reference parse_footnote_macro parse_code_callout parse_passthrough_inline_macro parse_inline_macro_close parse_inline_span handle_dangling_spans close_dangling_spans parse_level_offset get_heading_level parse_attribute_reference parse_attribute add_last_to_block_stack_or_graph add_last_block_to_graph in_block_continuation close_list_continuation push_block_to_stack add_to_block_stack_or_graph attach_admonition close_admonition_paragraph close_delimited_block add_inlines_to_block_stack
//! unguard Parser::parse_level_offset
//! unguard Parser::push_complete_inline
//! unguard Parser::add_to_block_stack_or_graph
//! unguard Parser::close_admonition_paragraph
//! external Location::destructure_inline_locations
//! raw
// ---------------------------------------------------------------- std
trait StackView<T> { spec fn sq(&self) -> Seq<T>; }
impl<T> StackView<T> for Vec<T> { spec fn sq(&self) -> Seq<T> { self@ } }
impl<T> StackView<T> for VecDeque<T> { spec fn sq(&self) -> Seq<T> { self@ } }
// std: Iterator::rposition
#[verifier::external_body]
fn sh_rposition<T, S: StackView<T>, F: Fn(&T) -> bool>(s: &S, f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < s.sq().len() ==> f.requires((&#[trigger] s.sq()[i],))
    ensures
        s.sq().len() <= usize::MAX,
        r is Some ==> (r->0) < s.sq().len() && f.ensures((&s.sq()[r->0 as int],), true) && forall|i: int| (r->0) < i < s.sq().len() ==> f.ensures((&#[trigger] s.sq()[i],), false),
        r is None ==> forall|i: int| 0 <= i < s.sq().len() ==> f.ensures((&#[trigger] s.sq()[i],), false),
{ unimplemented!() }
// std: Iterator::position
#[verifier::external_body]
fn sh_position<T, S: StackView<T>, F: Fn(&T) -> bool>(s: &S, f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < s.sq().len() ==> f.requires((&#[trigger] s.sq()[i],))
    ensures
        s.sq().len() <= usize::MAX,
        r is Some ==> (r->0) < s.sq().len() && f.ensures((&s.sq()[r->0 as int],), true) && forall|i: int| 0 <= i < (r->0) ==> f.ensures((&#[trigger] s.sq()[i],), false),
        r is None ==> forall|i: int| 0 <= i < s.sq().len() ==> f.ensures((&#[trigger] s.sq()[i],), false),
{ unimplemented!() }
// std: Iterator::any
#[verifier::external_body]
fn sh_any<T, S: StackView<T>, F: Fn(&T) -> bool>(s: &S, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s.sq().len() ==> f.requires((&#[trigger] s.sq()[i],))
    ensures
        r ==> exists|i: int| 0 <= i < s.sq().len() && f.ensures((&#[trigger] s.sq()[i],), true),
        !r ==> forall|i: int| 0 <= i < s.sq().len() ==> f.ensures((&#[trigger] s.sq()[i],), false),
{ unimplemented!() }
// std: Option::filter
#[verifier::external_body]
fn sh_filter_idx<F: Fn(&usize) -> bool>(o: Option<usize>, f: F) -> (r: Option<usize>)
    requires o is Some ==> f.requires((&o->0,))
    ensures
        o is None ==> r is None,
        o is Some && r is Some ==> f.ensures((&o->0,), true) && r == o,
        o is Some && r is None ==> f.ensures((&o->0,), false),
{ unimplemented!() }
// std: VecDeque::insert, remove, split_off; Vec into VecDeque
#[verifier::external_body]
fn sh_vd_insert<T>(v: &mut VecDeque<T>, i: usize, x: T)
    requires i <= old(v)@.len()
    ensures final(v)@ == old(v)@.insert(i as int, x)
{ unimplemented!() }
#[verifier::external_body]
fn sh_vd_remove<T>(v: &mut VecDeque<T>, i: usize) -> (r: Option<T>)
    ensures
        i < old(v)@.len() ==> r == Some(old(v)@[i as int]) && final(v)@ == old(v)@.remove(i as int),
        i >= old(v)@.len() ==> r is None && *final(v) == *old(v),
{ unimplemented!() }
#[verifier::external_body]
fn sh_vd_split_off<T>(v: &mut VecDeque<T>, i: usize) -> (r: VecDeque<T>)
    requires i <= old(v)@.len()
    ensures r@ == old(v)@.subrange(i as int, old(v)@.len() as int), final(v)@ == old(v)@.subrange(0, i as int)
{ unimplemented!() }
#[verifier::external_body]
fn sh_vec_into<T>(v: Vec<T>) -> (r: VecDeque<T>)
    ensures r@ == v@
{ unimplemented!() }
#[verifier::external_body]
fn sh_vd_is_empty<T>(v: &VecDeque<T>) -> (r: bool)
    ensures r == (v@.len() == 0)
{ unimplemented!() }
// std: i8::saturating_add, str::parse, str::starts_with
#[verifier::external_body]
fn sh_i8_sat(a: i8, b: i8) -> (r: i8)
    ensures r as int == (if a + b > i8::MAX { i8::MAX as int } else if a + b < i8::MIN { i8::MIN as int } else { a + b })
{ unimplemented!() }
pub uninterp spec fn num_of(s: Seq<char>) -> Option<i8>;
#[verifier::external_body]
fn sh_parse_i8(s: &str) -> (r: Result<i8, ()>)
    ensures r is Ok <==> num_of(s@) is Some, r is Ok ==> num_of(s@) == Some(r->Ok_0)
{ unimplemented!() }
#[verifier::external_body]
fn sh_starts_any<const N: usize>(s: &str, a: [char; N]) -> (r: bool)
    ensures r == (s@.len() > 0 && a@.contains(s@[0]))
{ unimplemented!() }
// std: Option::take
#[verifier::external_body]
fn sh_take<T>(o: &mut Option<T>) -> (r: Option<T>)
    ensures r == *old(o), *final(o) is None
{ unimplemented!() }
// b reads like a, with t after it
#[verifier::opaque]
spec fn adds(a: Seq<Inline>, b: Seq<Inline>, t: Seq<T>) -> bool { mts(b) == mts(a) + t }
broadcast proof fn adds_push(a: Seq<Inline>, x: Inline, t: Seq<T>)
    requires t == mt(x)
    ensures #[trigger] adds(a, a.push(x), t)
{ reveal(adds); broadcast use inl; }
broadcast proof fn adds_last(a: Seq<Inline>, y: Inline, t: Seq<T>)
    requires a.len() > 0, extended(a.last(), y, t)
    ensures #[trigger] adds(a, a.drop_last().push(y), t)
{
    reveal(adds); broadcast use {mts_last, mts_push, mt_def, cat3};
    let x = a.last(); let d = mts(a.drop_last());
    match (x, y) {
        (Inline::InlineSpan(p), Inline::InlineSpan(q)) => { assert(mt(y) =~= mt(x) + t); }
        (Inline::InlineRef(p), Inline::InlineRef(q)) => { assert(mt(y) =~= mt(x) + t); }
        _ => {}
    }
    assert(mts(a.drop_last().push(y)) =~= mts(a) + t);
}
// y is x and t after it
spec fn extended(x: Inline, y: Inline, t: Seq<T>) -> bool {
    match (x, y) {
        (Inline::InlineSpan(p), Inline::InlineSpan(q)) => p.open && same_span(p, q) && mts(q.inlines@) == mts(p.inlines@) + t,
        (Inline::InlineRef(p), Inline::InlineRef(q)) => p.open && same_ref(p, q) && mts(q.inlines@) == mts(p.inlines@) + t,
        (Inline::InlineLiteral(p), Inline::InlineLiteral(q)) => cs(q.value@) == cs(p.value@) + t,
        _ => false,
    }
}
broadcast proof fn adds_then(a: Seq<Inline>, b: Seq<Inline>, c: Seq<Inline>, t: Seq<T>, u: Seq<T>)
    requires #[trigger] adds(a, b, t), adds(b, c, u)
    ensures #[trigger] adds(a, c, t + u)
{ reveal(adds); assert(mts(c) =~= mts(a) + (t + u)); }
broadcast proof fn adds_none(a: Seq<Inline>, b: Seq<Inline>, t: Seq<T>)
    requires a == b, t.len() == 0
    ensures #[trigger] adds(a, b, t)
{ reveal(adds); assert(mts(b) =~= mts(a) + t); }
broadcast proof fn adds_same(a: Seq<Inline>, b: Seq<Inline>, t: Seq<T>, e: Seq<T>)
    requires adds(a, b, t), e.len() == 0
    ensures #[trigger] adds(a, b, e + t), 
{ reveal(adds); assert(e + t =~= t); }
broadcast proof fn adds_push2(a: Seq<Inline>, b: Seq<Inline>, y: Inline, t: Seq<T>, u: Seq<T>)
    requires adds(a, b, t), u == mt(y)
    ensures #[trigger] adds(a, b.push(y), t + u)
{ adds_push(b, y, u); adds_then(a, b, b.push(y), t, u); }
broadcast proof fn adds_last2(a: Seq<Inline>, b: Seq<Inline>, y: Inline, t: Seq<T>, u: Seq<T>)
    requires adds(a, b, t), b.len() > 0, extended(b.last(), y, u)
    ensures #[trigger] adds(a, b.drop_last().push(y), t + u)
{ adds_last(b, y, u); adds_then(a, b, b.drop_last().push(y), t, u); }
broadcast proof fn mt_lit(l: InlineLiteral)
    ensures #[trigger] mt(Inline::InlineLiteral(l)) == cs(l.value@)
{ broadcast use mt_def; }
broadcast group pl { push_last, cs_cat, shuts_goods, shuts_push, goods_push, goods_last, shut_def, good_def, none_inl, mt_def, adds_push2, adds_last2, adds_push, adds_last, adds_then, adds_none, adds_same }
// ---------------------------------------------------------------- levels of headings
spec fn signed(s: Seq<char>) -> bool { s.len() > 0 && (s[0] == '+' || s[0] == '-') }
spec fn heading_no(t: TokenType) -> Option<int> {
    match t {
        TokenType::Heading1 => Some(0), TokenType::Heading2 => Some(1), TokenType::Heading3 => Some(2),
        TokenType::Heading4 => Some(3), TokenType::Heading5 => Some(4), _ => None,
    }
}
// ---------------------------------------------------------------- the parser's stack of inlines
// a reference is complete
spec fn ends(t: Seq<T>) -> bool { exists|i: int| 0 <= i < t.len() && #[trigger] t[i] is EndRef }
#[verifier::opaque]
spec fn ended(s: Seq<Inline>) -> bool { ends(mts(s)) }
broadcast proof fn ended_adds(a: Seq<Inline>, b: Seq<Inline>, t: Seq<T>)
    requires #[trigger] adds(a, b, t), !ended(a), !ends(t)
    ensures !ended(b)
{
    reveal(adds); reveal(ended);
    assert forall|i: int| 0 <= i < mts(b).len() implies !(#[trigger] mts(b)[i] is EndRef) by {
        if i < mts(a).len() { assert(!(mts(a)[i] is EndRef)); } else { assert(!(t[i - mts(a).len()] is EndRef)); }
    }
}
broadcast proof fn ended_last(s: Seq<Inline>)
    ensures #![trigger ended(s), s.last()] !ended(s) && s.len() > 0 && s.last() is InlineRef ==> s.last()->InlineRef_0.open
{
    reveal(ended); broadcast use {mts_last, mt_def};
    if s.len() > 0 && s.last() is InlineRef && !s.last()->InlineRef_0.open { let m = mts(s); assert(m[m.len() - 1] is EndRef); }
}
broadcast proof fn ends_cs(v: Seq<char>)
    ensures !#[trigger] ends(cs(v))
{ reveal(cs); }
broadcast proof fn ends_cat(a: Seq<T>, b: Seq<T>)
    ensures #[trigger] ends(a + b) == (ends(a) || ends(b))
{
    let c = a + b;
    assert forall|i: int| 0 <= i < a.len() && #[trigger] a[i] is EndRef implies ends(c) by { assert(c[i] is EndRef); }
    assert forall|i: int| 0 <= i < b.len() && #[trigger] b[i] is EndRef implies ends(c) by { assert(c[i + a.len()] is EndRef); }
}
broadcast proof fn ended_none(s: Seq<Inline>)
    requires s.len() == 0
    ensures !#[trigger] ended(s)
{ reveal(ended); broadcast use none_inl; }
broadcast proof fn ends_push(a: Seq<T>, x: T)
    ensures #[trigger] ends(a.push(x)) == (ends(a) || x is EndRef)
{
    let c = a.push(x);
    assert forall|i: int| 0 <= i < a.len() && #[trigger] a[i] is EndRef implies ends(c) by { assert(c[i] is EndRef); }
    if x is EndRef { assert(c[a.len() as int] is EndRef); }
}
broadcast proof fn ends_none(a: Seq<T>)
    requires a.len() == 0
    ensures !#[trigger] ends(a)
{}
broadcast proof fn ended_push(s: Seq<Inline>, x: Inline)
    ensures #[trigger] ended(s.push(x)) == (ended(s) || ends(mt(x)))
{ reveal(ended); broadcast use {mts_push, ends_cat}; }
broadcast proof fn ended_top(s: Seq<Inline>)
    ensures #![trigger ended(s), s.last()] s.len() > 0 ==> ended(s) == (ended(s.drop_last()) || ends(mt(s.last())))
{ reveal(ended); broadcast use {mts_last, ends_cat}; }
broadcast proof fn ends_callout(s: InlineSpan)
    requires s.inlines@.len() == 1, s.inlines@[0] is InlineLiteral
    ensures !ends(#[trigger] mt(Inline::InlineSpan(s)))
{ broadcast use {mts_last, mt_def, none_inl, ends_cat, ends_push, ends_cs, ends_none}; assert(s.inlines@.last() is InlineLiteral); }
broadcast group ending { ended_push, ended_top, ended_last, ends_cs, ends_cat, ends_push, ends_none, ended_none }
// what is not closed yet takes the text that follows, and nothing else does
spec fn inv(p: Parser) -> bool { inv_(p.inline_stack@, p.in_inline_span, p.close_parent_after_push) }
spec fn inv_(s: Seq<Inline>, in_span: bool, after: bool) -> bool {
    &&& goods(s)
    &&& s.len() > 0 && s.last() is InlineSpan && in_span ==> is_open_(s.last())
    &&& !after ==> !ended(s)
}
spec fn only_stack(a: Parser, b: Parser) -> bool { b == (Parser { inline_stack: b.inline_stack, ..a }) }
spec fn told(p: Parser, q: Parser, t: Seq<T>) -> bool { adds(p.inline_stack@, q.inline_stack@, t) }
// the line end that is still to be added
spec fn line_end(p: Parser) -> Seq<T> { match p.dangling_newline { Some(t) => cs(ttext(t)), None => Seq::empty() } }
//! contract Parser::add_text_to_last_inline
    requires
        inv(*old(self)),
    ensures
        told(*old(self), *final(self), cs(ttext(token))), // [C07 +]
        inv(*final(self)), // [C07 +]
        only_stack(*old(self), *final(self)), // [C07 +]
        grown(old(self).inline_stack@, final(self).inline_stack@), // [+]
        opens(final(self).inline_stack@) == opens(old(self).inline_stack@), // [+]
//! raw
// only the last one may have changed, or new ones follow it
#[verifier::opaque]
spec fn grown(a: Seq<Inline>, b: Seq<Inline>) -> bool {
    a.len() <= b.len() && b.len() > 0 && (a.len() > 0 ==> a.drop_last() == b.take(a.len() - 1) && is_open_(a.last()) == is_open_(b[a.len() - 1]))
}
broadcast proof fn grown_push(a: Seq<Inline>, x: Inline)
    ensures #[trigger] grown(a, a.push(x))
{ reveal(grown); if a.len() > 0 { assert(a.push(x).take(a.len() - 1) =~= a.drop_last()); } }
broadcast proof fn grown_last(a: Seq<Inline>, y: Inline)
    requires a.len() > 0, is_open_(y) == is_open_(a.last())
    ensures #[trigger] grown(a, a.drop_last().push(y))
{ reveal(grown); assert(a.drop_last().push(y).take(a.len() - 1) =~= a.drop_last()); }
broadcast proof fn grown_same(a: Seq<Inline>)
    requires a.len() > 0
    ensures #[trigger] grown(a, a)
{ reveal(grown); assert(a.take(a.len() - 1) =~= a.drop_last()); }
broadcast group growing { grown_push, grown_last, grown_same }
//! prologue Parser::add_text_to_last_inline
broadcast use {pl, ending, growing, opens_push, opens_last};
//! contract Parser::pass_text_to_last_inline
    requires
        inv(*old(self)),
    ensures
        told(*old(self), *final(self), cs(token.lexeme@)), // [C05 C07 +]
        inv(*final(self)), // [C05 C07 +]
        only_stack(*old(self), *final(self)), // [C05 C07 +]
//! prologue Parser::pass_text_to_last_inline
broadcast use {pl, ending};
//! contract Parser::push_complete_inline
    requires
        inv(*old(self)), shut(inline), inline is InlineRef,
    ensures
        told(*old(self), *final(self), mt(inline)), // [C07 C08 +]
        inv_(final(self).inline_stack@, final(self).in_inline_span, true), // [C07 C08 +]
        only_stack(*old(self), *final(self)), // [C07 C08 +]
//! prologue Parser::push_complete_inline
broadcast use {pl, ending};
//! contract Parser::add_dangling_newline
    requires
        inv(*old(self)),
    ensures
        told(*old(self), *final(self), nl_(*old(self))), // [C07 +]
        inv(*final(self)), // [C07 +]
        final(self).dangling_newline is None, // [C07 +]
        *final(self) == (Parser { inline_stack: final(self).inline_stack, dangling_newline: None, ..*old(self) }), // [C07 +]
        newlined(*old(self), final(self).inline_stack@), // [+]
//! prologue Parser::add_dangling_newline
broadcast use {pl, ending, growing};
//! raw
// a line end ahead of something that does not start a paragraph
spec fn nl_(p: Parser) -> Seq<T> { if p.inline_stack@.len() == 0 { Seq::empty() } else { line_end(p) } }
spec fn newlined(p: Parser, s: Seq<Inline>) -> bool {
    inv_(s, p.in_inline_span, p.close_parent_after_push) && (p.inline_stack@.len() == 0 ==> s.len() == 0) && (p.inline_stack@.len() > 0 ==> grown(p.inline_stack@, s)) && (p.dangling_newline is None ==> s == p.inline_stack@)
}
//! contract Parser::parse_text
    requires
        inv(*old(self)),
    ensures
        r is Ok, // [C07 +]
        told(*old(self), *final(self), line_end(*old(self)) + cs(ttext(token))), // [C07 +]
        inv(*final(self)), // [C07 +]
        *final(self) == (Parser { inline_stack: final(self).inline_stack, dangling_newline: None, ..*old(self) }), // [C07 +]
//! prologue Parser::parse_text
broadcast use {pl, ending};
//! contract Parser::pass_text_through
    requires
        inv(*old(self)),
    ensures
        r is Ok, // [C05 +]
        told(*old(self), *final(self), line_end(*old(self)) + cs(token.lexeme@)), // [C05 +]
        inv(*final(self)), // [C05 +]
        *final(self) == (Parser { inline_stack: final(self).inline_stack, dangling_newline: None, ..*old(self) }), // [C05 +]
//! prologue Parser::pass_text_through
broadcast use {pl, ending};
//! contract Parser::parse_charref
    requires
        inv(*old(self)),
    ensures
        r is Ok, // [C07 +]
        told(*old(self), *final(self), line_end(*old(self)) + cs(ttext(token))), // [C07 +]
        inv(*final(self)), // [C07 +]
        *final(self) == (Parser { inline_stack: final(self).inline_stack, dangling_newline: None, ..*old(self) }), // [C07 +]
//! prologue Parser::parse_charref
broadcast use {pl, ending, mts_push};
//! for Parser::parse_inline_span 0 => sh_vd_into
//! raw
spec fn a_ref(v: InlineRefVariant, target: Seq<char>, m: Option<ElementMetadata>) -> Seq<T> { seq![T::Ref(v, target, m)] + seq![T::EndRef] }
//! contract Parser::parse_link_macro
    requires
        inv(*old(self)),
    ensures
        r is Ok, // [C08 +]
        ttext(token).len() > 0 ==> told(*old(self), *final(self), nl_(*old(self)) + seq![T::Ref(InlineRefVariant::Link, ttext(token).drop_last(), None)]), // [C08 +]
        inv(*final(self)), // [C08 +]
        *final(self) == (Parser { inline_stack: final(self).inline_stack, dangling_newline: None, ..*old(self) }), // [C08 +]
//! prologue Parser::parse_link_macro
broadcast use {pl, ending};
//! contract Parser::parse_hyperlink
    requires
        inv(*old(self)),
    ensures
        r is Ok, // [C08 +]
        told(*old(self), *final(self), nl_(*old(self)) + a_ref(InlineRefVariant::Link, ttext(token), None)), // [C08 +]
        inv(*final(self)), // [C08 +]
        *final(self) == (Parser { inline_stack: final(self).inline_stack, dangling_newline: None, close_parent_after_push: true, ..*old(self) }), // [C08 +]
//! prologue Parser::parse_hyperlink
broadcast use {pl, ending};
//! contract Parser::parse_cross_reference
    requires
        inv(*old(self)), is_xref(ttext(token)),
    ensures
        r is Ok, // [C08 +]
        told(*old(self), *final(self), nl_(*old(self)) + a_ref(InlineRefVariant::Xref, ttext(token).subrange(2, ttext(token).len() - 2), None)), // [C08 +]
        inv(*final(self)), // [C08 +]
        *final(self) == (Parser { inline_stack: final(self).inline_stack, dangling_newline: None, close_parent_after_push: true, ..*old(self) }), // [C08 +]
//! prologue Parser::parse_cross_reference
broadcast use {pl, ending};
//! contract Parser::parse_footnote_macro
    requires
        inv(*old(self)), token.token_type is FootnoteMacro,
    ensures
        r is Ok, // [C08 +]
        told(*old(self), *final(self), nl_(*old(self)) + cs(tmark(token.token_type))), // [C08 +]
        inv(*final(self)), // [C08 +]
        *final(self) == (Parser { inline_stack: final(self).inline_stack, dangling_newline: None, in_inline_span: true, ..*old(self) }), // [C08 +]
        final(self).inline_stack@.len() > 0 && open_macro(final(self).inline_stack@.last()), // [C08 +]
//! prologue Parser::parse_footnote_macro
broadcast use {pl, ending};
//! raw
// std: String::len, in bytes; no text is longer than isize::MAX
#[verifier::external_body]
fn sh_blen_max(s: &str) -> (r: usize)
    ensures r == s.spec_bytes().len(), r <= isize::MAX
{ unimplemented!() }
// what the scanner makes a reference of
spec fn is_aref(t: Token) -> bool {
    &&& t.token_type == TokenType::AttributeReference
    &&& ttext(t).len() >= 2 && ttext(t)[0] == '{' && ttext(t).last() == '}'
    &&& 1 <= t.startcol <= isize::MAX
}
spec fn aref_name(t: Token) -> Seq<char> { ttext(t).subrange(1, ttext(t).len() - 1) }
// the value, or the reference as it stands if there is none
spec fn aref_value(p: Parser, t: Token) -> Seq<char> {
    if attrs(p.document_attributes).contains_key(aref_name(t)) { attrs(p.document_attributes)[aref_name(t)] } else { ttext(t) }
}
//! contract Parser::parse_attribute_reference
    requires
        inv(*old(self)),
        is_aref(token),
    ensures
        r is Ok, // [C10 +]
        told(*old(self), *final(self), line_end(*old(self)) + cs(aref_value(*old(self), token))), // [C10 +]
        inv(*final(self)), // [C10 +]
        *final(self) == (Parser { inline_stack: final(self).inline_stack, dangling_newline: None, ..*old(self) }), // [C10 +]
//! prologue Parser::parse_attribute_reference
proof { lemma_trim(ttext(token), 1, 1); assert forall|x: Seq<char>| #[trigger] encode_utf8(x) == encode_utf8(aref_name(token)) implies x == aref_name(token) by { lemma_bytes_eq(x, aref_name(token)); } }
//! raw
// std: str::splitn with a character, skip and next of what it returns
spec fn split_n(s: Seq<char>, n: nat, c: char) -> Seq<Seq<char>>
    decreases n
{
    if n == 0 { Seq::empty() } else if n == 1 || !s.contains(c) { seq![s] } else {
        seq![s.take(s.index_of_first(c)->0)] + split_n(s.skip(s.index_of_first(c)->0 + 1), (n - 1) as nat, c)
    }
}
#[verifier::external_body]
struct Parts<'a> { p: core::marker::PhantomData<&'a str> }
uninterp spec fn parts(p: Parts<'_>) -> Seq<Seq<char>>;
#[verifier::external_body]
fn sh_splitn<'a>(s: &'a str, n: usize, c: char) -> (r: Parts<'a>)
    ensures parts(r) == split_n(s@, n as nat, c)
{ unimplemented!() }
#[verifier::external_body]
fn sh_parts_skip<'a>(p: Parts<'a>, n: usize) -> (r: Parts<'a>)
    ensures parts(r) == (if n <= parts(p).len() { parts(p).skip(n as int) } else { Seq::empty() })
{ unimplemented!() }
#[verifier::external_body]
fn sh_parts_next<'a>(p: &mut Parts<'a>) -> (r: Option<&'a str>)
    ensures
        parts(*old(p)).len() == 0 ==> r is None && parts(*final(p)) == parts(*old(p)),
        parts(*old(p)).len() > 0 ==> r is Some && (r->0)@ == parts(*old(p))[0] && parts(*final(p)) == parts(*old(p)).skip(1),
{ unimplemented!() }
// ":name:value"; the value may have colons of its own
spec fn defines(t: Seq<char>, k: Seq<char>, v: Seq<char>) -> bool { t == seq![':'] + k + seq![':'] + v && !k.contains(':') }
proof fn lemma_defines(t: Seq<char>, k: Seq<char>, v: Seq<char>)
    requires defines(t, k, v)
    ensures split_n(t, 3, ':') == seq![Seq::<char>::empty(), k, v]
{
    reveal_with_fuel(split_n, 4);
    assert(t[0] == ':');
    assert(t.contains(':'));
    t.index_of_first_ensures(':');
    assert(t.index_of_first(':') == Some(0int));
    assert(t.take(0) =~= Seq::<char>::empty());
    let u = t.skip(1);
    assert(u =~= k + seq![':'] + v);
    assert(u[k.len() as int] == ':');
    assert(u.contains(':'));
    u.index_of_first_ensures(':');
    let i = u.index_of_first(':')->0;
    assert(i == k.len()) by {
        if i < k.len() { assert(k[i] == ':'); assert(k.contains(':')); }
    }
    assert(u.take(i) =~= k);
    assert(u.skip(i + 1) =~= v);
    assert(split_n(u, 2, ':') =~= seq![k, v]);
    assert(split_n(t, 3, ':') =~= seq![Seq::<char>::empty(), k, v]);
}
spec fn offset_name() -> Seq<char> { "leveloffset"@ }
//! contract Parser::parse_attribute
    ensures
        forall|k: Seq<char>, v: Seq<char>| #[trigger] defines(ttext(token), k, v) && k != offset_name() ==> r is Ok && attrs(final(self).document_attributes) == attrs(old(self).document_attributes).insert(k, trimmed(v)) && *final(self) == (Parser { document_attributes: final(self).document_attributes, ..*old(self) }), // [C10 +]
        *final(self) == (Parser { document_attributes: final(self).document_attributes, level_offset: final(self).level_offset, ..*old(self) }), // [C10 +]
//! prologue Parser::parse_attribute
proof { assert forall|k: Seq<char>, v: Seq<char>| #[trigger] defines(ttext(token), k, v) implies split_n(ttext(token), 3, ':') == seq![Seq::<char>::empty(), k, v] by { lemma_defines(ttext(token), k, v); } }
//! raw
// the block goes into the last open one, if that takes it
spec fn goes_in(s: Seq<N>, b: N) -> bool { s.len() > 0 && takes(s.last().kind, b.kind) }
// a block with the attributes that stand ahead of it
spec fn meta_fits(b: N, m: Option<ElementMetadata>) -> bool { m is Some && !empty_meta(m->0) ==> takes_meta(b.kind) }
spec fn dressed(b: N, m: Option<ElementMetadata>) -> N { if m is Some && !empty_meta(m->0) { N { meta: m, ..b } } else { b } }
broadcast proof fn useds_last(s: Seq<Block>, x: Block)
    requires useds(s), used(x), s.len() > 0
    ensures #[trigger] useds(s.drop_last().push(x))
{ broadcast use inuse; }
//! contract Parser::add_last_to_block_stack_or_graph
    requires
        useds(old(self).block_stack@), useds(old(asg).blocks@),
    ensures
        old(self).block_stack@.len() == 0 ==> r is Err, // [C03 C04 +]
        old(self).block_stack@.len() > 0 && goes_in(nds(old(self).block_stack@).drop_last(), nds(old(self).block_stack@).last()) ==> {
            let p = pushed(nds(old(self).block_stack@).drop_last().last(), nds(old(self).block_stack@).last());
            r is Ok == p is Some && (r is Ok ==> nds(final(self).block_stack@) == nds(old(self).block_stack@).drop_last().drop_last().push(p->0) && *final(asg) == *old(asg))
        }, // [C03 C04 +]
        old(self).block_stack@.len() > 0 && !goes_in(nds(old(self).block_stack@).drop_last(), nds(old(self).block_stack@).last()) ==>
            r is Ok && nds(final(self).block_stack@) == nds(old(self).block_stack@).drop_last() && nds(final(asg).blocks@) == put(nds(old(asg).blocks@), nds(old(self).block_stack@).last()), // [C03 C04 +]
        *final(self) == (Parser { block_stack: final(self).block_stack, ..*old(self) }), // [C03 C04 +]
        r is Ok ==> useds(final(self).block_stack@) && useds(final(asg).blocks@), // [+]
//! prologue Parser::add_last_to_block_stack_or_graph
broadcast use {nodes, inuse, useds_last};
proof { let s = old(self).block_stack@; if s.len() > 0 { assert(useds(s.drop_last())); assert(s.drop_last() =~= s.subrange(0, s.len() - 1)); if s.len() > 1 { assert(useds(s.drop_last().drop_last())); } } }
//! contract Parser::in_block_continuation
    ensures
        r == continued(*self), // [C03 +]
//! raw
// a block continuation is open where it was asked for, and not inside of a delimited block opened since
spec fn continued(p: Parser) -> bool { p.block_continuations@.len() > 0 && p.block_continuations@.last() == p.open_delimited_block_lines@.len() }
//! contract Parser::close_list_continuation
    ensures
        *final(self) == (Parser { block_continuations: final(self).block_continuations, ..*old(self) }), // [C03 +]
        final(self).block_continuations@ == (if continued(*old(self)) { old(self).block_continuations@.drop_last() } else { old(self).block_continuations@ }), // [C03 +]
//! contract Parser::add_last_block_to_graph
    requires
        useds(old(self).block_stack@), useds(old(asg).blocks@),
    ensures
        *final(self) == (Parser { block_stack: final(self).block_stack, metadata: final(self).metadata, ..*old(self) }), // [C03 C04 +]
        old(self).block_stack@.len() == 0 ==> r is Ok && final(self).block_stack@ == old(self).block_stack@ && final(self).metadata == old(self).metadata && *final(asg) == *old(asg), // [C03 C04 +]
        old(self).block_stack@.len() > 0 && meta_fits(nds(old(self).block_stack@).last(), old(self).metadata) && goes_in(nds(old(self).block_stack@).drop_last(), nds(old(self).block_stack@).last()) ==> {
            let p = pushed(nds(old(self).block_stack@).drop_last().last(), dressed(nds(old(self).block_stack@).last(), old(self).metadata));
            r is Ok == p is Some && (r is Ok ==> nds(final(self).block_stack@) == nds(old(self).block_stack@).drop_last().drop_last().push(p->0) && *final(asg) == *old(asg) && final(self).metadata is None)
        }, // [C03 C04 C09 +]
        old(self).block_stack@.len() > 0 && meta_fits(nds(old(self).block_stack@).last(), old(self).metadata) && !goes_in(nds(old(self).block_stack@).drop_last(), nds(old(self).block_stack@).last()) ==>
            r is Ok && nds(final(self).block_stack@) == nds(old(self).block_stack@).drop_last() && final(self).metadata is None
            && nds(final(asg).blocks@) == put(nds(old(asg).blocks@), dressed(nds(old(self).block_stack@).last(), old(self).metadata)), // [C03 C04 C09 +]
        old(self).block_stack@.len() > 0 && !meta_fits(nds(old(self).block_stack@).last(), old(self).metadata) ==> r is Err, // [C09 +]
//! prologue Parser::add_last_block_to_graph
broadcast use {nodes, inuse};
//! raw
// std: Vec::as_slice against a pattern of its last two elements
#[verifier::external_body]
fn sh_last_two<'a, T>(v: &'a Vec<T>) -> (r: Option<(&'a T, &'a T)>)
    ensures
        v@.len() < 2 ==> r is None,
        v@.len() >= 2 ==> r is Some && *(r->0).0 == v@[v@.len() - 2] && *(r->0).1 == v@.last(),
{ unimplemented!() }
// an admonition that is complete goes into the list item ahead of it
spec fn attaches(s: Seq<N>) -> bool {
    s.len() >= 2 && (s[s.len() - 2].kind is Item || s[s.len() - 2].kind is DItem) && s.last().kind is Parent && s.last().kind->Parent_0 == ParentBlockName::Admonition
}
spec fn attached(s: Seq<N>) -> Seq<N> {
    if attaches(s) { s.drop_last().drop_last().push(N { kids: s[s.len() - 2].kids.push(s.last()), ..s[s.len() - 2] }) } else { s }
}
// equality of positions is not needed here
#[verifier::external_body]
fn sh_loc_eq<'a>(a: &Option<&'a Location>, b: &Option<&'a Location>) -> (r: bool)
{ unimplemented!() }
//! contract Parser::attach_admonition
    requires
        useds(old(self).block_stack@),
    ensures
        r is Ok, // [C03 C04 +]
        nds(final(self).block_stack@) == attached(nds(old(self).block_stack@)), // [C03 C04 +]
        *final(self) == (Parser { block_stack: final(self).block_stack, close_parent_after_push: old(self).close_parent_after_push && !attaches(nds(old(self).block_stack@)), ..*old(self) }), // [C03 C04 +]
//! prologue Parser::attach_admonition
broadcast use {nodes, inuse};
//! raw
// an admonition that waits for its paragraph, or block
spec fn waits(s: Seq<N>) -> bool {
    s.len() >= 2 && s[s.len() - 2].kind is Parent && s[s.len() - 2].kind->Parent_0 == ParentBlockName::Admonition && s[s.len() - 2].kids.len() == 0
}
spec fn given(s: Seq<N>) -> Seq<N> { s.drop_last().drop_last().push(N { kids: s[s.len() - 2].kids.push(s.last()), ..s[s.len() - 2] }) }
//! contract Parser::close_admonition_paragraph
    requires
        useds(old(self).block_stack@),
    ensures
        r is Ok, // [C04 +]
        waits(nds(old(self).block_stack@)) && nds(old(self).block_stack@).last().kind is Leaf ==> nds(final(self).block_stack@) == given(nds(old(self).block_stack@)) && !final(self).close_parent_after_push, // [C04 +]
        !waits(nds(old(self).block_stack@)) || !(nds(old(self).block_stack@).last().kind is Leaf || nds(old(self).block_stack@).last().kind is Parent) ==> *final(self) == *old(self), // [C04 +]
        *final(self) == *old(self) || (waits(nds(old(self).block_stack@)) && nds(final(self).block_stack@) == given(nds(old(self).block_stack@))), // [C04 +]
        *final(self) == (Parser { block_stack: final(self).block_stack, close_parent_after_push: final(self).close_parent_after_push, ..*old(self) }), // [C04 +]
//! prologue Parser::close_admonition_paragraph
broadcast use {nodes, inuse};
//! raw
spec fn whole(b: Block) -> bool { b is LeafBlock || b is ParentBlock }
//! contract Parser::close_delimited_block
    requires
        useds(old(self).block_stack@), useds(old(asg).blocks@),
    ensures
        final(self).force_new_block, // [C04 +]
        old(self).open_delimited_block_lines@.len() == 0 && (old(self).block_stack@.len() == 0 || !whole(old(self).block_stack@.last())) ==> r is Ok && final(self).block_stack == old(self).block_stack && *final(asg) == *old(asg), // [C04 +]
        old(self).open_delimited_block_lines@.len() == 0 && old(self).block_stack@.len() > 0 && whole(old(self).block_stack@.last()) && goes_in(nds(old(self).block_stack@).drop_last(), nds(old(self).block_stack@).last()) && !old(self).close_parent_after_push ==> {
            let p = pushed(nds(old(self).block_stack@).drop_last().last(), nds(old(self).block_stack@).last());
            r is Ok == p is Some && (r is Ok ==> nds(final(self).block_stack@) == nds(old(self).block_stack@).drop_last().drop_last().push(p->0) && *final(asg) == *old(asg))
        }, // [C04 +]
        old(self).open_delimited_block_lines@.len() == 0 && old(self).block_stack@.len() > 0 && whole(old(self).block_stack@.last()) && !goes_in(nds(old(self).block_stack@).drop_last(), nds(old(self).block_stack@).last()) && !old(self).close_parent_after_push ==>
            r is Ok && nds(final(self).block_stack@) == nds(old(self).block_stack@).drop_last() && nds(final(asg).blocks@) == put(nds(old(asg).blocks@), nds(old(self).block_stack@).last()), // [C04 +]
        // inside of another one
        old(self).open_delimited_block_lines@.len() > 0 ==> r is Ok && *final(asg) == *old(asg) && (final(self).block_stack == old(self).block_stack || (waits(nds(old(self).block_stack@)) && nds(final(self).block_stack@) == given(nds(old(self).block_stack@)))), // [C04 +]
        old(self).open_delimited_block_lines@.len() > 0 && waits(nds(old(self).block_stack@)) && nds(old(self).block_stack@).last().kind is Leaf ==> nds(final(self).block_stack@) == given(nds(old(self).block_stack@)), // [C04 +]
//! prologue Parser::close_delimited_block
broadcast use {nodes, inuse};
//! closure Parser::close_delimited_block 0
|block: &Block| -> (r: bool) ensures r == (block is DListItem)
//! contract Parser::push_block_to_stack
    requires
        useds(old(self).block_stack@), used(block),
    ensures
        continued(*old(self)) && old(self).block_stack@.len() == 0 ==> r is Err, // [C03 +]
        continued(*old(self)) && old(self).block_stack@.len() > 0 ==> {
            let p = pushed(nds(old(self).block_stack@).last(), nd(block));
            r is Ok == p is Some && (r is Ok ==> nds(final(self).block_stack@) == attached(nds(old(self).block_stack@).drop_last().push(p->0)) && final(self).block_continuations@ == old(self).block_continuations@.drop_last() && final(self).metadata == old(self).metadata && final(self).block_title is None)
        }, // [C03 +]
        !continued(*old(self)) && meta_fits(nd(block), old(self).metadata) ==> r is Ok && nds(final(self).block_stack@) == nds(old(self).block_stack@).push(dressed(nd(block), old(self).metadata)), // [C03 C04 C09 +]
        !continued(*old(self)) && r is Ok ==> final(self).metadata is None && final(self).block_title is None, // [C09 +]
        !continued(*old(self)) && r is Ok ==> *final(self) == (Parser { block_stack: final(self).block_stack, metadata: None, block_title: None, ..*old(self) }), // [C09 +]
        !continued(*old(self)) && !meta_fits(nd(block), old(self).metadata) ==> r is Err, // [C09 +]
//! prologue Parser::push_block_to_stack
broadcast use {nodes, inuse};
//! contract Parser::add_to_block_stack_or_graph
    requires
        useds(old(self).block_stack@), useds(old(asg).blocks@), used(block),
    ensures
        !goes_in(nds(old(self).block_stack@), nd(block)) && meta_fits(nd(block), old(self).metadata) ==> r is Ok && final(self).metadata is None && if old(self).open_delimited_block_lines@.len() == 0 {
            nds(final(self).block_stack@) == nds(old(self).block_stack@) && nds(final(asg).blocks@) == put(nds(old(asg).blocks@), dressed(nd(block), old(self).metadata))
        } else {
            nds(final(self).block_stack@) == nds(old(self).block_stack@).push(dressed(nd(block), old(self).metadata)) && *final(asg) == *old(asg)
        }, // [C03 C04 C09 +]
        goes_in(nds(old(self).block_stack@), nd(block)) && (!(old(self).block_stack@.last() is ParentBlock) || old(self).open_delimited_block_lines@.len() == 0) ==> {
            let p = pushed(nds(old(self).block_stack@).last(), nd(block));
            r is Ok == p is Some && (r is Ok ==> nds(final(self).block_stack@) == nds(old(self).block_stack@).drop_last().push(p->0) && *final(asg) == *old(asg))
        }, // [C03 +]
        *final(self) == (Parser { block_stack: final(self).block_stack, metadata: final(self).metadata, ..*old(self) }), // [C03 C04 +]
//! prologue Parser::add_to_block_stack_or_graph
broadcast use {nodes, inuse};
//! contract Parser::parse_level_offset
    ensures
        *final(self) == (Parser { level_offset: final(self).level_offset, ..*old(self) }), // [E01 +]
        num_of(value@) is None ==> r is Err, // [E01 +]
        num_of(value@) is Some && !signed(value@) ==> r is Ok && final(self).level_offset == num_of(value@)->0, // [E01 +]
        num_of(value@) is Some && signed(value@) && i8::MIN <= old(self).level_offset + num_of(value@)->0 <= i8::MAX ==> r is Ok && final(self).level_offset == old(self).level_offset + num_of(value@)->0, // [E01 +]
        r is Err ==> final(self).level_offset == old(self).level_offset, // [E01 +]
//! contract Parser::get_heading_level
    ensures
        match heading_no(token.token_type) {
            Some(k) => if 1 <= self.level_offset + k <= 4 { r is Ok && r->Ok_0 == self.level_offset + k } else { r is Err },
            None => r is Err,
        }, // [C02 E01 +]
//! contract Parser::parse_code_callout
    requires
        inv(*old(self)), token.token_type is CodeCallout, is_callout(ttext(token)),
    ensures
        r is Ok, // [C05 +]
        inv(*final(self)), // [C05 +]
        *final(self) == (Parser { inline_stack: final(self).inline_stack, in_inline_span: false, ..*old(self) }), // [C05 +]
        final(self).inline_stack@.len() == old(self).inline_stack@.len() + 1 && final(self).inline_stack@.drop_last() == old(self).inline_stack@ && shut(final(self).inline_stack@.last()), // [C05 +]
//! prologue Parser::parse_code_callout
broadcast use {pl, ending, ends_callout};
//! contract Parser::parse_passthrough_inline_macro
    ensures
        r is Ok, // [C07 +]
        *final(self) == (Parser { open_parse_after_as_text_type: Some(token.token_type), ..*old(self) }), // [C07 +]
//! contract Parser::parse_inline_macro_close
    requires
        inv(*old(self)),
    ensures
        r is Ok, // [C08 +]
        inv(*final(self)), // [C08 +]
        in_passthrough(*old(self)) ==> *final(self) == (Parser { open_parse_after_as_text_type: None, ..*old(self) }), // [C07 C08 +]
        !in_passthrough(*old(self)) ==> final(self).open_parse_after_as_text_type == old(self).open_parse_after_as_text_type && final(self).dangling_newline == old(self).dangling_newline, // [C08 +]
        !in_passthrough(*old(self)) && last_macro(old(self).inline_stack@) < 0 ==> told(*old(self), *final(self), cs(ttext(token))) && only_stack(*old(self), *final(self)), // [C07 C08 +]
        !in_passthrough(*old(self)) && last_macro(old(self).inline_stack@) >= 0 ==> wrapped(old(self).inline_stack@, final(self).inline_stack@, last_macro(old(self).inline_stack@)), // [C08 +]
        !in_passthrough(*old(self)) && last_macro(old(self).inline_stack@) >= 0 ==> *final(self) == (Parser { inline_stack: final(self).inline_stack, close_parent_after_push: true, in_inline_span: false, ..*old(self) }), // [C08 +]
//! closure Parser::parse_inline_macro_close 0
|inline: &Inline| -> (b: bool) ensures b == open_macro(*inline)
//! loop Parser::parse_inline_macro_close 0
    invariant
        inline_macro_idx <= self.inline_stack@.len() < s0.len(),
        same_head(s0[inline_macro_idx as int], inline_macro),
        self.inline_stack@ == s0.take(inline_macro_idx as int) + s0.skip(rest_at(s0, self.inline_stack@, inline_macro_idx as int)),
        inl_(inline_macro) == inl_(s0[inline_macro_idx as int]) + s0.subrange(inline_macro_idx + 1, rest_at(s0, self.inline_stack@, inline_macro_idx as int)),
        *self == (Parser { inline_stack: self.inline_stack, ..*old(self) }),
    decreases self.inline_stack@.len()
//! hint Parser::parse_inline_macro_close loop 0 start
let ghost s1 = self.inline_stack@;
proof { let m = rest_at(s0, s1, inline_macro_idx as int); assert(s1[inline_macro_idx as int] == s0[m]); assert(s1.remove(inline_macro_idx as int) =~= s0.take(inline_macro_idx as int) + s0.skip(m + 1)); }
//! hint Parser::parse_inline_macro_close loop 0 end
proof { let m = rest_at(s0, s1, inline_macro_idx as int); assert(inl_(inline_macro) =~= inl_(s0[inline_macro_idx as int]) + s0.subrange(inline_macro_idx + 1, m + 1)); }
//! hint Parser::parse_inline_macro_close loop 0 after
proof {
    cut(s0, inline_macro_idx as int);
    assert(s0.subrange(inline_macro_idx + 1, s0.len() as int) =~= s0.skip(inline_macro_idx + 1));
    assert(self.inline_stack@ =~= s0.take(inline_macro_idx as int));
}
//! hint Parser::parse_inline_macro_close before-call unwrap
proof { if self.inline_stack@ == s0 && inline_macro_idx < s0.len() { assert(s0.remove(inline_macro_idx as int) =~= s0.take(inline_macro_idx as int) + s0.skip(inline_macro_idx + 1)); assert(s0.subrange(inline_macro_idx + 1, inline_macro_idx + 1) =~= Seq::<Inline>::empty()); } }
//! prologue Parser::parse_inline_macro_close
broadcast use {pl, ending, last_macro_is, mts_cat, push_take};
let ghost s0 = self.inline_stack@;
//! raw
spec fn in_passthrough(p: Parser) -> bool { p.open_parse_after_as_text_type == Some(TokenType::PassthroughInlineMacro) }
broadcast proof fn push_take<A>(s: Seq<A>, x: A, n: int)
    requires n == s.len()
    ensures #[trigger] s.push(x).take(n) == s
{ assert(s.push(x).take(n) =~= s); }
spec fn rest_at(s0: Seq<Inline>, s: Seq<Inline>, k: int) -> int { s0.len() - s.len() + k }
proof fn cut(s: Seq<Inline>, k: int)
    requires 0 <= k < s.len()
    ensures
        s == (s.take(k) + seq![s[k]]) + s.skip(k + 1),
        mts(s) == (mts(s.take(k)) + mt(s[k])) + mts(s.skip(k + 1)),
        goods(s) == (goods(s.take(k)) && good(s[k]) && goods(s.skip(k + 1))),
{
    broadcast use inl;
    assert(s =~= (s.take(k) + seq![s[k]]) + s.skip(k + 1));
    assert(s.take(k) + seq![s[k]] =~= s.take(k).push(s[k]));
}
spec fn last_macro(s: Seq<Inline>) -> int decreases s.len() {
    if s.len() == 0 { -1 } else if open_macro(s.last()) { s.len() - 1 } else { last_macro(s.drop_last()) }
}
// the one at k is closed, around all that followed it
spec fn wrapped(a: Seq<Inline>, b: Seq<Inline>, k: int) -> bool {
    &&& b.len() == k + 1 && b.take(k) == a.take(k)
    &&& closed_head(a[k], b[k]) && shut(b[k])
    &&& mts(inl_(b[k])) == mts(inl_(a[k])) + mts(a.subrange(k + 1, a.len() as int))
}
broadcast proof fn last_macro_is(s: Seq<Inline>)
    ensures
        -1 <= #[trigger] last_macro(s) < s.len(),
        last_macro(s) >= 0 ==> open_macro(s[last_macro(s)]),
        forall|i: int| last_macro(s) < i < s.len() ==> !open_macro(#[trigger] s[i]),
    decreases s.len()
{
    if s.len() > 0 && !open_macro(s.last()) {
        last_macro_is(s.drop_last());
        let m = last_macro(s);
        assert forall|i: int| m < i < s.len() implies !open_macro(#[trigger] s[i]) by { if i < s.len() - 1 { assert(!open_macro(s.drop_last()[i])); } }
    }
}
//! contract Parser::parse_inline_span
    requires
        inv(*old(self)), unfilled(inline),
    ensures
        r is Ok, // [C07 +]
        inv(*final(self)), // [C07 +]
        exists|s: Seq<Inline>| #[trigger] lined(*old(self), s) && spanned(s, inline, *old(self), *final(self)), // [C07 C09 +]
//! closure Parser::parse_inline_span 0
|other: &Inline| -> (b: bool) ensures b == or_macro(*other, inline)
//! closure Parser::parse_inline_span 1
|idx: &usize| -> (b: bool) requires *idx < self.inline_stack@.len() ensures b == !open_macro(self.inline_stack@[*idx as int])
//! closure Parser::parse_inline_span 2
|last: &&mut Inline| -> (b: bool) ensures b == is_open_(*old(*last))
//! loop Parser::parse_inline_span 0
    invariant
        0 <= k < s0.len(), s0[k] is InlineSpan,
        it_.seq() == s0.skip(k + 1),
        same_span(s0[k]->InlineSpan_0, *open_span),
        mts(open_span.inlines@) == mts(inl_(s0[k])) + mts(it_.seq().take(it_.index() as int)),
        goods(s0) ==> goods(open_span.inlines@),
//! hint Parser::parse_inline_span loop 0 start
proof { cut(s0, k); mts_take(it_.seq(), it_.index() as int); if goods(s0) { goods_at(it_.seq(), it_.index() as int); } }
//! hint Parser::parse_inline_span before-call rposition
proof { s0 = self.inline_stack@; k = opened(s0, inline); assert(lined(*old(self), s0)); }
//! hint Parser::parse_inline_span before-call split_off
proof { cut(s0, k); cut_ended(s0, k); assert(s0.subrange(k + 1, s0.len() as int) =~= s0.skip(k + 1)); assert(s0.subrange(0, k + 1) =~= s0.take(k).push(s0[k])); }
//! prologue Parser::parse_inline_span
let ghost mut s0 = self.inline_stack@;
let ghost mut k = -1int;
broadcast use {pl, ending, closed_ends, opened_is, push_take, take_none, take_all};
//! raw
spec fn unfilled(i: Inline) -> bool { i is InlineSpan && is_open_(i) && inl_(i).len() == 0 && i->InlineSpan_0.metadata is None && i->InlineSpan_0.variant != InlineSpanVariant::Footnote }
spec fn lined(p: Parser, s: Seq<Inline>) -> bool { newlined(p, s) && adds(p.inline_stack@, s, nl_(p)) }
spec fn or_macro(o: Inline, m: Inline) -> bool { open_macro(o) || (is_open_(o) && same_mark(o, m)) }
spec fn opened(s: Seq<Inline>, m: Inline) -> int decreases s.len() {
    if s.len() == 0 { -1 } else if or_macro(s.last(), m) { s.len() - 1 } else { opened(s.drop_last(), m) }
}
broadcast proof fn opened_is(s: Seq<Inline>, m: Inline)
    ensures
        -1 <= #[trigger] opened(s, m) < s.len(),
        opened(s, m) >= 0 ==> or_macro(s[opened(s, m)], m),
        forall|i: int| opened(s, m) < i < s.len() ==> !or_macro(#[trigger] s[i], m),
    decreases s.len()
{
    if s.len() > 0 && !or_macro(s.last(), m) {
        opened_is(s.drop_last(), m);
        let k = opened(s, m);
        assert forall|i: int| k < i < s.len() implies !or_macro(#[trigger] s[i], m) by { if i < s.len() - 1 { assert(!or_macro(s.drop_last()[i], m)); } }
    }
}
// the mark closes the span that it opened, or opens one
spec fn spanned(s: Seq<Inline>, m: Inline, p: Parser, q: Parser) -> bool {
    let k = opened(s, m);
    let t = q.inline_stack@;
    let rest = Parser { inline_stack: q.inline_stack, dangling_newline: None, in_inline_span: q.in_inline_span, inline_metadata: q.inline_metadata, ..p };
    &&& q == rest
    &&& if s.len() > 0 && is_open_(s.last()) && same_mark(m, s.last()) {
        wrapped(s, t, s.len() - 1) && !q.in_inline_span && q.inline_metadata == p.inline_metadata
    } else if s.len() > 0 && is_open_(s.last()) && has_open(inl_(s.last()), m) {
        t.len() == s.len() && t.drop_last() == s.drop_last() && same_head(s.last(), t.last()) && closed_in(inl_(s.last()), inl_(t.last()), m) && q.in_inline_span == p.in_inline_span && q.inline_metadata == p.inline_metadata
    } else if k >= 0 && !open_macro(s[k]) {
        wrapped(s, t, k) && !q.in_inline_span && q.inline_metadata == p.inline_metadata
    } else if s.len() > 0 && is_open_(s.last()) {
        adds(s, t, cs(mark(m->InlineSpan_0))) && t.len() == s.len() && t.drop_last() == s.drop_last() && same_head(s.last(), t.last()) && q.inline_metadata is None && q.in_inline_span == p.in_inline_span
    } else {
        t == s.push(Inline::InlineSpan(InlineSpan { metadata: p.inline_metadata, ..m->InlineSpan_0 })) && q.inline_metadata is None && q.in_inline_span
    }
}
// how many of them are open
#[verifier::opaque]
spec fn opens(s: Seq<Inline>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { opens(s.drop_last()) + op(s.last()) }
}
spec fn op(i: Inline) -> int { if is_open_(i) { 1 } else { 0 } }
broadcast proof fn opens_push(s: Seq<Inline>, x: Inline)
    ensures #[trigger] opens(s.push(x)) == opens(s) + op(x)
{ reveal(opens); assert(s.push(x).drop_last() =~= s); }
broadcast proof fn opens_last(s: Seq<Inline>)
    ensures #![trigger opens(s), s.last()] s.len() > 0 ==> opens(s) == opens(s.drop_last()) + op(s.last())
{ reveal(opens); }
proof fn opens_cat(a: Seq<Inline>, b: Seq<Inline>)
    ensures opens(a + b) == opens(a) + opens(b)
    decreases b.len()
{
    reveal(opens);
    if b.len() == 0 { assert(a + b =~= a); } else { opens_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
broadcast proof fn opens_shut(s: Seq<Inline>)
    requires shuts(s)
    ensures #[trigger] opens(s) == 0
    decreases s.len()
{ reveal(opens); broadcast use {shuts_last, shut_def}; if s.len() > 0 { assert(shut(s.last())); opens_shut(s.drop_last()); } }
broadcast proof fn opens_min(s: Seq<Inline>)
    ensures #[trigger] opens(s) >= 0, opens(s) == 0 ==> forall|i: int| 0 <= i < s.len() ==> !is_open_(#[trigger] s[i])
    decreases s.len()
{
    reveal(opens);
    if s.len() > 0 {
        opens_min(s.drop_last());
        if opens(s) == 0 { assert forall|i: int| 0 <= i < s.len() implies !is_open_(#[trigger] s[i]) by { if i < s.len() - 1 { assert(!is_open_(s.drop_last()[i])); } } }
    }
}
broadcast proof fn opens_swap(s: Seq<Inline>, y: Inline)
    requires s.len() > 0
    ensures #[trigger] opens(s.drop_last().push(y)) == opens(s) - op(s.last()) + op(y)
{ broadcast use {opens_push, opens_last}; }
broadcast proof fn goods_swap(s: Seq<Inline>, y: Inline)
    requires s.len() > 0, goods(s), good(y)
    ensures #[trigger] goods(s.drop_last().push(y))
{ broadcast use {goods_push, goods_last}; assert(good(s.last())); }
proof fn opens_some(s: Seq<Inline>)
    requires opens(s) > 0
    ensures exists|i: int| 0 <= i < s.len() && is_open_(#[trigger] s[i])
    decreases s.len()
{
    reveal(opens);
    if s.len() > 0 {
        if is_open_(s.last()) { assert(is_open_(s[s.len() - 1])); }
        else { opens_some(s.drop_last()); let i = choose|i: int| 0 <= i < s.len() - 1 && is_open_(#[trigger] s.drop_last()[i]); assert(is_open_(s[i])); }
    }
}
// one at k, cut out
proof fn cut_open(s: Seq<Inline>, k: int)
    requires 0 <= k < s.len()
    ensures
        opens(s) == opens(s.take(k)) + op(s[k]) + opens(s.skip(k + 1)),
        s.remove(k) == s.take(k) + s.skip(k + 1),
        opens(s.remove(k)) == opens(s) - op(s[k]),
        s.remove(k).take(k) == s.take(k), s.remove(k).skip(k) == s.skip(k + 1),
{
    broadcast use opens_push;
    cut(s, k);
    opens_cat(s.take(k) + seq![s[k]], s.skip(k + 1));
    assert(s.take(k) + seq![s[k]] =~= s.take(k).push(s[k]));
    assert(s.remove(k) =~= s.take(k) + s.skip(k + 1));
    opens_cat(s.take(k), s.skip(k + 1));
    assert(s.remove(k).take(k) =~= s.take(k)); assert(s.remove(k).skip(k) =~= s.skip(k + 1));
}
#[verifier::opaque]
spec fn two(a: Seq<Inline>, b: Seq<Inline>, m: Seq<T>) -> bool { mts(a) + mts(b) == m }
broadcast proof fn two_push(a: Seq<Inline>, x: Inline, s: Seq<Inline>, n: int, m: Seq<T>)
    requires two(a, s, m), s.len() > 0, x == s[0], n == s.len()
    ensures #[trigger] two(a.push(x), s.subrange(1, n), m)
{
    reveal(two); broadcast use {mts_push, mts_cat};
    mts_first(s); one(x);
    assert((mts(a) + mt(x)) + mts(s.subrange(1, n)) =~= mts(a) + (mt(x) + mts(s.subrange(1, n))));
}
broadcast proof fn two_last(a: Seq<Inline>, y: Inline, s: Seq<Inline>, n: int, m: Seq<T>)
    requires two(a, s, m), s.len() > 0, a.len() > 0, extended(a.last(), y, mt(s[0])), n == s.len()
    ensures #[trigger] two(a.drop_last().push(y), s.subrange(1, n), m)
{
    reveal(two); reveal(adds); broadcast use mts_cat;
    mts_first(s); one(s[0]); adds_last(a, y, mt(s[0]));
    assert((mts(a) + mt(s[0])) + mts(s.subrange(1, n)) =~= mts(a) + (mt(s[0]) + mts(s.subrange(1, n))));
}
proof fn one(x: Inline)
    ensures mts(seq![x]) == mt(x), goods(seq![x]) == good(x), shuts(seq![x]) == shut(x), opens(seq![x]) == op(x)
{
    broadcast use {mts_push, goods_push, shuts_push, none_inl, opens_push};
    reveal(opens);
    assert(seq![x] =~= Seq::<Inline>::empty().push(x));
    assert(mts(Seq::<Inline>::empty()) + mt(x) =~= mt(x));
}
broadcast proof fn first_gone(s: Seq<Inline>, n: int)
    requires s.len() > 0, n == s.len()
    ensures
        #![trigger goods(s.subrange(1, n))] #![trigger opens(s.subrange(1, n))]
        goods(s) == (good(s[0]) && goods(s.subrange(1, n))), opens(s) == op(s[0]) + opens(s.subrange(1, n)),
{
    broadcast use mts_cat;
    mts_first(s); one(s[0]); opens_cat(seq![s[0]], s.subrange(1, n));
}
// the last of c goes ahead of what is at k
proof fn put_in(c: Seq<Inline>, s: Seq<Inline>, k: int, m: Seq<T>)
    requires 0 <= k <= s.len(), c.len() > 0, two(c, s.skip(k), m)
    ensures
        s.insert(k, c.last()).take(k) == s.take(k),
        two(c.drop_last(), s.insert(k, c.last()).skip(k), m),
        opens(s.insert(k, c.last()).skip(k)) == opens(s.skip(k)) + op(c.last()),
        goods(s.insert(k, c.last()).skip(k)) == (goods(s.skip(k)) && good(c.last())),
        shuts(c) ==> shuts(c.drop_last()) && shut(c.last()) && good(c.last()) && op(c.last()) == 0,
{
    reveal(two); broadcast use {mts_cat, mts_last, shuts_last};
    let x = c.last(); let t = s.insert(k, x);
    assert(t.take(k) =~= s.take(k));
    assert(t.skip(k) =~= seq![x] + s.skip(k));
    one(x); opens_cat(seq![x], s.skip(k));
    assert((mts(c.drop_last()) + mt(x)) + mts(s.skip(k)) =~= mts(c.drop_last()) + (mt(x) + mts(s.skip(k))));
    if shuts(c) { broadcast use {shut_def, good_def, shuts_goods}; assert(shut(x)); }
}
// x in place of the one at k
broadcast proof fn swapped(s: Seq<Inline>, k: int, x: Inline)
    requires 0 <= k < s.len(), mt(x) == mt(s[k])
    ensures
        #![trigger s.remove(k).insert(k, x)]
        mts(s.remove(k).insert(k, x)) == mts(s),
        goods(s) && good(x) ==> goods(s.remove(k).insert(k, x)),
        opens(s.remove(k).insert(k, x)) == opens(s) - op(s[k]) + op(x),
{
    let t = s.remove(k).insert(k, x);
    cut(s, k); cut(t, k); cut_open(s, k); cut_open(t, k);
    assert(t.take(k) =~= s.take(k)); assert(t.skip(k + 1) =~= s.skip(k + 1));
}
proof fn cut_ended(s: Seq<Inline>, k: int)
    requires 0 <= k < s.len()
    ensures ended(s) == (ended(s.take(k)) || ends(mt(s[k])) || ends(mts(s.skip(k + 1)))), ended(s.remove(k)) ==> ended(s), goods(s) ==> goods(s.remove(k))
{ cut(s, k); cut_open(s, k); reveal(ended); broadcast use {ends_cat, mts_cat}; }
broadcast proof fn closed_ends(a: Seq<Inline>, b: Seq<Inline>, m: Inline)
    requires #[trigger] closed_in(a, b, m), m is InlineSpan
    ensures ends(mts(a)) == ends(mts(b))
    decreases a
{
    broadcast use {mts_last, mt_def, ends_cat, ends_push, ends_cs, ends_none};
    if a.len() > 0 && b.len() > 0 && !same_mark(m, a.last()) { closed_ends(inl_(a.last()), inl_(b.last()), m); }
}
// the stack is what was at its front, and the rest
proof fn halves(s: Seq<Inline>, k: int)
    requires 0 <= k <= s.len()
    ensures mts(s) == mts(s.take(k)) + mts(s.skip(k)), goods(s) == (goods(s.take(k)) && goods(s.skip(k))), opens(s) == opens(s.take(k)) + opens(s.skip(k))
{
    broadcast use mts_cat;
    assert(s =~= s.take(k) + s.skip(k));
    opens_cat(s.take(k), s.skip(k));
}
// the open one at k
spec fn last_open(s: Seq<Inline>, k: int) -> bool { 0 <= k < s.len() && is_open_(s[k]) }
// c has the mark of the span that was at k, and what was in it
spec fn laid_out(s: Seq<Inline>, k: int, c: Seq<Inline>) -> bool { mts(c) == mt(s[k]) && shuts(c) }
proof fn lay(s: Seq<Inline>, k: int, c: Seq<Inline>)
    requires 0 <= k < s.len(), laid_out(s, k, c), goods(s)
    ensures two(c, s.remove(k).skip(k), mt(s[k]) + mts(s.skip(k + 1)))
{ reveal(two); cut_open(s, k); }
// the mark goes ahead of the first of c
proof fn mark_first(c: Seq<Inline>, d: Seq<Inline>, v: Seq<char>)
    requires
        c.len() > 0, shuts(c), d == seq![d[0]] + c || (d == seq![d[0]] + c.subrange(1, c.len() as int) && c[0] is InlineLiteral),
        d[0] is InlineLiteral, d == seq![d[0]] + c ==> true,
        d == seq![d[0]] + c && lit_(d[0]) == v || d == seq![d[0]] + c.subrange(1, c.len() as int) && lit_(d[0]) == v + lit_(c[0]),
    ensures mts(d) == cs(v) + mts(c), shuts(d)
{
    broadcast use {mts_cat, mt_def, cs_cat, shut_def};
    one(d[0]); one(c[0]); mts_first(c);
    assert((cs(v) + mt(c[0])) + mts(c.subrange(1, c.len() as int)) =~= cs(v) + (mt(c[0]) + mts(c.subrange(1, c.len() as int))));
}
//! contract Parser::handle_dangling_spans
    requires
        inv_(old(self).inline_stack@, false, old(self).close_parent_after_push),
        opens(old(self).inline_stack@) > 0,
    ensures
        inv_(final(self).inline_stack@, false, final(self).close_parent_after_push), // [C07 +]
        mts(final(self).inline_stack@) == mts(old(self).inline_stack@), // [C07 +]
        opens(final(self).inline_stack@) < opens(old(self).inline_stack@), // [+]
        *final(self) == (Parser { inline_stack: final(self).inline_stack, in_inline_span: final(self).in_inline_span, ..*old(self) }), // [C07 +]
//! closure Parser::handle_dangling_spans 0
|inline: &Inline| -> (b: bool) ensures b == is_open_(*inline)
//! hint Parser::handle_dangling_spans before-call remove
proof { cut(s0, open_span_idx as int); cut_ended(s0, open_span_idx as int); cut_open(s0, open_span_idx as int); }
//! hint Parser::handle_dangling_spans before-call front_mut
proof { c0 = children@; k = open_span_idx as int; if c0.len() > 0 { mts_first(c0); } }
//! hint Parser::handle_dangling_spans loop 0 before
proof { mark_first(c0, children@, mark(s0[k]->InlineSpan_0)); assert(mts(children@) =~= mt(s0[k])); lay(s0, k, children@); }
//! loop Parser::handle_dangling_spans 0
    invariant
        k == open_span_idx, 0 <= k < s0.len(), k <= self.inline_stack@.len(),
        self.inline_stack@.take(k) == s0.take(k),
        two(children@, self.inline_stack@.skip(k), mt(s0[k]) + mts(s0.skip(k + 1))),
        shuts(children@), goods(self.inline_stack@.skip(k)),
        opens(self.inline_stack@.skip(k)) == opens(s0.skip(k + 1)),
        *self == (Parser { inline_stack: self.inline_stack, ..*old(self) }),
    decreases children@.len()
//! hint Parser::handle_dangling_spans loop 0 start
proof { put_in(children@, self.inline_stack@, k, mt(s0[k]) + mts(s0.skip(k + 1))); }
//! hint Parser::handle_dangling_spans loop 0 after
proof {
    halves(self.inline_stack@, k); reveal(two);
    assert(mts(self.inline_stack@) =~= mts(s0));
    assert(two(Seq::<Inline>::empty(), self.inline_stack@, mts(s0)));
}
//! loop Parser::handle_dangling_spans 1
    invariant
        two(temp_stack@, self.inline_stack@, mts(s0)),
        goods(self.inline_stack@),
        goods(temp_stack@),
        opens(temp_stack@) + opens(self.inline_stack@) < opens(s0),
        *self == (Parser { inline_stack: self.inline_stack, ..*old(self) }),
    decreases self.inline_stack@.len()
//! prologue Parser::handle_dangling_spans
reveal(adds); reveal(ended);
broadcast use {push_last, mts_push, cs_cat, shuts_goods, goods_push, good_def, mt_def, none_inl, goods_swap, opens_swap, swapped, opens_push, opens_shut, two_push, two_last, first_gone};
let ghost s0 = self.inline_stack@;
let ghost mut c0 = Seq::<Inline>::empty();
let ghost mut k = 0int;
proof { opens_some(s0); }
//! contract Parser::close_dangling_spans
    requires
        inv_(old(self).inline_stack@, false, old(self).close_parent_after_push),
    ensures
        inv(*final(self)), // [C07 +]
        mts(final(self).inline_stack@) == mts(old(self).inline_stack@), // [C07 +]
        forall|i: int| 0 <= i < final(self).inline_stack@.len() ==> !is_open_(#[trigger] final(self).inline_stack@[i]), // [C07 +]
        *final(self) == (Parser { inline_stack: final(self).inline_stack, in_inline_span: false, ..*old(self) }), // [C07 +]
//! closure Parser::close_dangling_spans 0
|inline: &Inline| -> (b: bool) ensures b == is_open_(*inline)
//! loop Parser::close_dangling_spans 0
    invariant
        inv_(self.inline_stack@, false, self.close_parent_after_push),
        mts(self.inline_stack@) == mts(old(self).inline_stack@),
        *self == (Parser { inline_stack: self.inline_stack, in_inline_span: self.in_inline_span, ..*old(self) }),
    decreases opens(self.inline_stack@)
//! hint Parser::close_dangling_spans loop 0 after
assert(forall|i: int| 0 <= i < self.inline_stack@.len() ==> !is_open_(#[trigger] self.inline_stack.sq()[i]));
//! prologue Parser::close_dangling_spans
broadcast use {pl, ending, opens_min};
//! raw
// std: VecDeque::front
#[verifier::external_body]
fn sh_vd_front<T>(v: &VecDeque<T>) -> (r: Option<&T>)
    ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r is Some && *r->0 == v@[0]
{ unimplemented!() }
// the full paths by which the source names the blocks
mod graph { pub(crate) mod blocks { pub(crate) use crate::{LeafBlockName, LeafBlockForm, ParentBlockName}; } }
// the first inline goes from one place to the end of another: the text of both stays as it is
broadcast proof fn moved(a: Seq<Inline>, s: Seq<Inline>, n: int)
    requires s.len() > 0, n == s.len()
    ensures #![trigger mts(a.push(s[0])), mts(s.subrange(1, n))] mts(a.push(s[0])) + mts(s.subrange(1, n)) == mts(a) + mts(s)
{
    broadcast use {mts_cat, mts_push};
    mts_first(s);
    assert(seq![s[0]] =~= Seq::<Inline>::empty().push(s[0]));
    assert(mts(Seq::<Inline>::empty()) =~= Seq::<T>::empty()) by { reveal(mts); }
    assert(mts(seq![s[0]]) =~= mt(s[0]));
    assert(mts(a.push(s[0])) + mts(s.subrange(1, n)) =~= mts(a) + mts(s));
}
broadcast proof fn moved_all(a: Seq<T>, s: Seq<Inline>)
    requires s.len() == 0
    ensures #[trigger] (a + mts(s)) == a
{ reveal(mts); assert(a + mts(s) =~= a); }
broadcast proof fn moved_none(a: Seq<Inline>, s: Seq<T>)
    requires a.len() == 0
    ensures #[trigger] (mts(a) + s) == s
{ reveal(mts); assert(mts(a) + s =~= s); }
// a block that takes the text as a part of its own
spec fn text_fits(p: Parser) -> bool {
    p.block_stack@.len() > 0 && !p.in_block_line && !p.force_new_block
    && (p.block_stack@.last() is Section || p.block_stack@.last() is LeafBlock || p.block_stack@.last() is ListItem || p.block_stack@.last() is DListItem || p.block_stack@.last() is TableCell)
}
// the same but for text, which has another one at its end
spec fn with_text(a: N, b: N, t: Seq<T>) -> bool {
    if a.kind is Section { b == (N { title: b.title, ..a }) && mts(b.title) == mts(a.title) + t } else { b == (N { text: b.text, ..a }) && mts(b.text) == mts(a.text) + t }
}
// the text becomes a paragraph of its own
spec fn makes_para(p: Parser) -> bool { p.inline_stack@.len() > 0 && p.document_header is None && !text_fits(p) }
// a paragraph that is declared to be a quotation becomes one
spec fn quoted(p: Parser) -> bool { p.metadata is Some && p.metadata->0.declared_type == Some(AttributeType::Quote) && p.open_delimited_block_lines@.len() == 0 }
spec fn para(b: N, t: Seq<T>) -> bool { b == (N { text: b.text, ..fresh(K::Leaf(LeafBlockName::Paragraph)) }) && mts(b.text) == t }
//! contract Parser::add_inlines_to_block_stack
    requires
        inv_(old(self).inline_stack@, false, old(self).close_parent_after_push),
        useds(old(self).block_stack@),
    ensures
        old(self).inline_stack@.len() == 0 ==> r is Ok && *final(self) == *old(self), // [C05 C07 +]
        r is Ok ==> final(self).inline_stack@.len() == 0, // [C05 C07 +]
        old(self).inline_stack@.len() > 0 && old(self).document_header is Some ==> r is Ok && final(self).document_header is Some && final(self).block_stack == old(self).block_stack
            && mts(final(self).document_header->0.title@) == mts(old(self).document_header->0.title@) + mts(old(self).inline_stack@), // [C07 +]
        old(self).inline_stack@.len() > 0 && old(self).document_header is None && text_fits(*old(self)) ==> r is Ok
            && nds(final(self).block_stack@).len() == old(self).block_stack@.len()
            && nds(final(self).block_stack@).drop_last() == nds(old(self).block_stack@).drop_last()
            && with_text(nds(old(self).block_stack@).last(), nds(final(self).block_stack@).last(), mts(old(self).inline_stack@))
            && final(self).metadata == old(self).metadata, // [C03 C05 C07 +]
        makes_para(*old(self)) && continued(*old(self)) && r is Ok ==> old(self).block_stack@.len() > 0 && final(self).block_continuations@ == old(self).block_continuations@.drop_last() && exists|b: N| #[trigger] para(b, mts(old(self).inline_stack@)) && pushed(nds(old(self).block_stack@).last(), b) is Some
            && nds(final(self).block_stack@) == attached(nds(old(self).block_stack@).drop_last().push(pushed(nds(old(self).block_stack@).last(), b)->0)), // [C03 C07 +]
        makes_para(*old(self)) && !continued(*old(self)) ==> r is Ok && final(self).metadata is None && exists|b: N| #[trigger] para(b, mts(old(self).inline_stack@))
            && nds(final(self).block_stack@) == nds(old(self).block_stack@).push(dressed(if quoted(*old(self)) { N { kids: seq![b], ..fresh(K::Parent(ParentBlockName::Quote, None)) } } else { b }, old(self).metadata)), // [C04 C05 C07 C09 +]
//! hint Parser::add_inlines_to_block_stack loop 2 after
assert(para(nd(para_block), mts(old(self).inline_stack@)));
//! loop Parser::add_inlines_to_block_stack 0
    invariant
        mts(header.title@) + mts(self.inline_stack@) == mts(old(self).document_header->0.title@) + mts(old(self).inline_stack@),
    decreases self.inline_stack@.len()
//! loop Parser::add_inlines_to_block_stack 1
    invariant
        used(*last_block), text_fits(*old(self)),
        kind(*last_block) == kind(old(self).block_stack@.last()),
        nd(*last_block).kind is Section ==> nd(*last_block) == (N { title: nd(*last_block).title, ..nd(old(self).block_stack@.last()) }) && mts(nd(*last_block).title) + mts(self.inline_stack@) == mts(nd(old(self).block_stack@.last()).title) + mts(old(self).inline_stack@),
        !(nd(*last_block).kind is Section) ==> nd(*last_block) == (N { text: nd(*last_block).text, ..nd(old(self).block_stack@.last()) }) && mts(nd(*last_block).text) + mts(self.inline_stack@) == mts(nd(old(self).block_stack@.last()).text) + mts(old(self).inline_stack@),
    decreases self.inline_stack@.len()
//! loop Parser::add_inlines_to_block_stack 2
    invariant
        used(para_block),
        para_block is LeafBlock,
        nd(para_block) == (N { text: nd(para_block).text, ..fresh(K::Leaf(LeafBlockName::Paragraph)) }),
        mts(nd(para_block).text) + mts(self.inline_stack@) == mts(old(self).inline_stack@),
    decreases self.inline_stack@.len()
//! prologue Parser::add_inlines_to_block_stack
broadcast use {nodes, inuse, moved, moved_all, moved_none, useds_last};
