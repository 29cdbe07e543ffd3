//! use strings.inc
//! # The scanner: every function of `impl Scanner`, `Token::validate`, `TokenType::block_from_char`.
//! types src/errors.rs ScannerError TokenError
//! types src/scanner/tokens.rs Token TokenType
//! types src/scanner/mod.rs Scanner
//! structural TokenType
//! impl src/scanner/tokens.rs TokenType only block_from_char
//! impl src/scanner/tokens.rs Token only validate token_type final_token text
//! impl src/scanner/mod.rs Scanner
//! attr-all verifier::loop_isolation(false)
//! prologue Scanner::
hide(is_char_boundary); hide(valid_utf8); hide(encode_utf8); hide(str_bytes);
broadcast use {spec_bytes_valid, bnd_ends, bnd_after_peek, peek_ascii, bnd_after_ahead};
//! slice self.source => sh_slice
//! split-match Scanner::scan_token
//! reveal-strlits
//! lit-lemma Scanner::scan_token Scanner::add_tag Scanner::starts_text_symbol_replace_parens Scanner::add_cross_reference Scanner::add_block_anchor Scanner::starts_end_tag_line
//! try ScannerError::Token
//! eq lit=str => sh_str_eq
//! eq text=expected_block => sh_str_eq
//! method contains recv=[" => sh_contains_str &
//! method contains recv=[' => @any
//! method contains recv=[\n => @any
//! method contains lit=str => sh_str_contains
//! method contains lit=char => sh_str_has_char &
//! method contains => sh_contains_char &
//! method starts_with lit=str => sh_starts_with &
//! method last recvend=chars() => sh_chars_last
//! method repeat => sh_repeat &
//! method into recv=" => sh_into_string
//! path String::from => sh_string_from_char
//! raw

// ---------------------------------------------------------------- what a position is
// line and column reached after reading bytes i..j, starting from (line, col)
spec fn adv(b: Seq<u8>, i: int, j: int, line: int, col: int) -> (int, int)
    decreases j - i
{
    if j <= i { (line, col) }
    else {
        let p = adv(b, i, j - 1, line, col);
        if b[j - 1] == 10u8 { (p.0 + 1, 1int) } else { (p.0, p.1 + 1) }
    }
}
proof fn adv_bounds(b: Seq<u8>, i: int, j: int, line: int, col: int)
    requires i <= j, 1 <= line, 1 <= col
    ensures ({ let p = adv(b, i, j, line, col); line <= p.0 <= line + (j - i) && 1 <= p.1 <= col + (j - i) })
    decreases j - i
{
    if i < j { adv_bounds(b, i, j - 1, line, col); }
}
proof fn adv_split(b: Seq<u8>, i: int, m: int, j: int, line: int, col: int)
    requires i <= m <= j
    ensures ({ let p = adv(b, i, m, line, col); adv(b, m, j, p.0, p.1) == adv(b, i, j, line, col) })
    decreases j - m
{
    if m < j { adv_split(b, i, m, j - 1, line, col); }
}
spec fn no_nl(b: Seq<u8>, i: int, j: int) -> bool {
    forall|k: int| i <= k < j ==> (#[trigger] b[k]) != 10u8
}
proof fn adv_no_nl(b: Seq<u8>, i: int, j: int, line: int, col: int)
    requires i <= j, no_nl(b, i, j)
    ensures adv(b, i, j, line, col) == (line, col + (j - i))
    decreases j - i
{
    if i < j { adv_no_nl(b, i, j - 1, line, col); }
}

spec fn at_bol(b: Seq<u8>, i: int) -> bool { i == 0 || b[i - 1] == 10u8 }

// n - 1 times c, then a newline
spec fn rep_line(b: Seq<u8>, i: int, c: char, n: int) -> bool {
    &&& 0 <= i && i + n <= b.len()
    &&& forall|k: int| i <= k < i + n - 1 ==> #[trigger] b[k] == c as u8
    &&& b[i + n - 1] == 10u8
}
spec fn is_directive(b: Seq<u8>, q: int) -> bool {
    ahead_is(b, q, "end::"@) || ahead_is(b, q, "tag::"@)
}
spec fn skip_alnum(b: Seq<u8>, i: int, dash: bool) -> int
    decreases b.len() - i
{
    if i < b.len() && (is_alnum(peekc(b, i)) || (dash && (peekc(b, i) == '-' || peekc(b, i) == '_'))) { skip_alnum(b, i + 1, dash) } else { i }
}
proof fn skip_alnum_bound(b: Seq<u8>, i: int, dash: bool)
    requires i <= b.len()
    ensures i <= skip_alnum(b, i, dash) <= b.len()
    decreases b.len() - i
{
    if i < b.len() && (is_alnum(peekc(b, i)) || (dash && (peekc(b, i) == '-' || peekc(b, i) == '_'))) { skip_alnum_bound(b, i + 1, dash); }
}

#[verifier::opaque]
spec fn paren_ahead(b: Seq<u8>, i: int) -> bool {
    exists|q: int| i <= q && #[trigger] peekc(b, q) == ')'
}
// from i on, the line holds a tag directive
#[verifier::opaque]
spec fn tag_line(b: Seq<u8>, i: int) -> bool {
    exists|q: int| i <= q && #[trigger] is_directive(b, q) && no_nl(b, i, q)
}
impl<'a> Scanner<'a> {
    spec fn b(&self) -> Seq<u8> { self.source.spec_bytes() }
    spec fn n(&self) -> int { self.source.spec_bytes().len() as int }
    // std: no allocation is larger than isize::MAX bytes
    spec fn lenok(&self) -> bool {
        self.n() <= 0x7fff_ffff_ffff_ffff && str_bytes(self.b())
    }
    // while a token is being read
    spec fn mid(&self) -> bool {
        &&& self.lenok()
        &&& self.start < self.current <= self.n()
        &&& is_char_boundary(self.b(), self.start as int)
        &&& 1 <= self.line <= self.start + 1
        &&& 1 <= self.startcol <= self.start + 1
    }
    // between tokens
    spec fn btw(&self) -> bool {
        &&& self.lenok()
        &&& self.current <= self.n()
        &&& is_char_boundary(self.b(), self.current as int)
        &&& 1 <= self.line <= self.current + 1
        &&& 1 <= self.startcol <= self.current + 1
    }
    // everything but the read position is as in o
    spec fn same(&self, o: &Self) -> bool {
        &&& self.source == o.source && self.start == o.start && self.startcol == o.startcol
        &&& self.line == o.line && self.scanning == o.scanning
        &&& self.expecting_tag_end == o.expecting_tag_end && self.file_stack == o.file_stack
    }
    spec fn frame(&self, o: &Self) -> bool {
        self.source == o.source && self.scanning == o.scanning && self.file_stack == o.file_stack
    }
}

spec fn is_tag(t: TokenType) -> bool { t == TokenType::StartTag || t == TokenType::EndTag }

// the token's text is exactly the bytes [s, e) of the source
spec fn text_is(b: Seq<u8>, t: Token, s: int, e: int) -> bool {
    0 <= s < e <= b.len() && encode_utf8(t.lexeme@) == b.subrange(s, e)
}
spec fn stack_is(t: Token, st: Seq<String>) -> bool {
    t.file_stack@.len() == st.len() && forall|i: int| 0 <= i < st.len() ==> (#[trigger] t.file_stack@[i])@ == st[i]@
}

// where the text of token t, read between start and f.current, begins and ends
spec fn tok_s(start: int, f: Scanner, t: Token) -> int {
    if is_tag(t.token_type) { f.start as int } else { start }
}
spec fn tok_e(f: Scanner, t: Token) -> int {
    if is_tag(t.token_type) { f.start + encode_utf8(t.lexeme@).len() } else { f.current as int }
}
// the text of a token is the source text it stands for; nothing is skipped but the rest of a tag directive's line
#[verifier::opaque]
spec fn tok_lossless(o: Scanner, f: Scanner, t: Token) -> bool {
    let b = o.b();
    let s = tok_s(o.start as int, f, t);
    let e = tok_e(f, t);
    &&& text_is(b, t, s, e)
    &&& is_tag(t.token_type) ==> {
        &&& o.start <= s && e <= f.current
        &&& is_directive(b, s)
        &&& no_nl(b, o.start as int, f.current - 1)
        &&& f.current == b.len() || b[f.current - 1] == 10u8
    }
}
#[verifier::opaque]
spec fn tok_line(o: Scanner, f: Scanner, t: Token) -> bool {
    &&& t.line == adv(o.b(), o.start as int, tok_s(o.start as int, f, t), o.line as int, o.startcol as int).0
    &&& t.token_type != TokenType::DescriptionListMarker ==>
        f.line == adv(o.b(), o.start as int, f.current as int, o.line as int, o.startcol as int).0
}
#[verifier::opaque]
spec fn tok_col(o: Scanner, f: Scanner, t: Token) -> bool {
    &&& t.startcol == adv(o.b(), o.start as int, tok_s(o.start as int, f, t), o.line as int, o.startcol as int).1
    &&& t.endcol == t.startcol + (tok_e(f, t) - tok_s(o.start as int, f, t)) - 1
    &&& (t.token_type != TokenType::DescriptionListMarker && f.current < o.n()) ==>
        f.startcol == adv(o.b(), o.start as int, f.current as int, o.line as int, o.startcol as int).1
    &&& t.token_type == TokenType::DescriptionListMarker ==>
        f.line == o.line && f.startcol == o.startcol + (f.current - o.start)
}
// the state with the read position forgotten: what the token contracts speak about
spec fn st0(o: Scanner) -> Scanner { Scanner { current: o.start, expecting_tag_end: false, ..o } }
// the state in which next() starts reading a token
spec fn from(o: Scanner) -> Scanner { st0(Scanner { start: o.current, ..o }) }

// facts about the text from position c on, for any length
proof fn lemma_has_end(b: Seq<u8>, c: int, n: int, t: Seq<char>, i: int)
    requires
        0 <= c, 0 <= n, c + n <= b.len(), encode_utf8(t) == b.subrange(c, c + n), no_nl(b, c, c + n),
        has_sub(t, "end::"@, i),
    ensures tag_line(b, c)
{
    reveal(ahead_is);
    reveal_strlit("end::");
    let p = "end::"@;
    let x = t.subrange(0, i);
    let z = t.subrange(i + 5, t.len() as int);
    assert(t =~= x + p + z);
    encode_utf8_concat(x + p, z);
    encode_utf8_concat(x, p);
    assert(all_ascii(p));
    lemma_ascii_bytes(p);
    let q = c + encode_utf8(x).len();
    let e = encode_utf8(t);
    assert(e == encode_utf8(x) + encode_utf8(p) + encode_utf8(z));
    assert(e.len() == n);
    assert forall|k: int| 0 <= k < p.len() implies b[q + k] == (#[trigger] p[k]) as u8 by {
        assert(e[q - c + k] == encode_utf8(p)[k]);
        assert(b.subrange(c, c + n)[q - c + k] == b[q + k]);
    }
    assert(ahead_is(b, q, p));
    assert(is_directive(b, q) && no_nl(b, c, q));
    reveal(tag_line);
}
proof fn lemma_peek_line(b: Seq<u8>, c: int)
    ensures
        forall|t: Seq<char>, n: int| #![trigger encode_utf8(t), b.subrange(c, c + n)]
            0 <= c && 0 < n && c + n <= b.len() && encode_utf8(t) == b.subrange(c, c + n) && t.len() > 0 ==>
            (t.last() == '\n' <==> b[c + n - 1] == 10u8),
        forall|t: Seq<char>, n: int, i: int| #![trigger b.subrange(c, c + n), has_sub(t, "end::"@, i)]
            0 <= c && 0 <= n && c + n <= b.len() && encode_utf8(t) == b.subrange(c, c + n) && no_nl(b, c, c + n) && has_sub(t, "end::"@, i) ==>
            tag_line(b, c),
{
    assert forall|t: Seq<char>, n: int| #![trigger encode_utf8(t), b.subrange(c, c + n)]
        0 <= c && 0 < n && c + n <= b.len() && encode_utf8(t) == b.subrange(c, c + n) && t.len() > 0 implies
        (t.last() == '\n' <==> b[c + n - 1] == 10u8) by {
        lemma_last_newline(t);
        assert(b.subrange(c, c + n).last() == b[c + n - 1]);
    }
    assert forall|t: Seq<char>, n: int, i: int| #![trigger b.subrange(c, c + n), has_sub(t, "end::"@, i)]
        0 <= c && 0 <= n && c + n <= b.len() && encode_utf8(t) == b.subrange(c, c + n) && no_nl(b, c, c + n) && has_sub(t, "end::"@, i) implies
        tag_line(b, c) by {
        lemma_has_end(b, c, n, t, i);
    }
}
proof fn lemma_tag_line(b: Seq<u8>, i: int, j: int)
    ensures i <= j && no_nl(b, i, j) && tag_line(b, j) ==> tag_line(b, i)
{
    reveal(tag_line);
    if i <= j && no_nl(b, i, j) && tag_line(b, j) {
        let q = choose|q: int| j <= q && #[trigger] is_directive(b, q) && no_nl(b, j, q);
        assert(is_directive(b, q) && no_nl(b, i, q));
    }
}
proof fn lemma_tag_pos(b: Seq<u8>)
    ensures
        forall|i: int, j: int, l: int, c: int| #![trigger adv(b, i, j, l, c)] i <= j && no_nl(b, i, j) ==> adv(b, i, j, l, c) == (l, c + (j - i)),
        forall|i: int, j: int, l: int, c: int| #![trigger adv(b, i, j, l, c)] i < j && no_nl(b, i, j - 1) && b[j - 1] == 10u8 ==> adv(b, i, j, l, c) == (l + 1, 1int),
{
    assert forall|i: int, j: int, l: int, c: int| #![trigger adv(b, i, j, l, c)] i <= j && no_nl(b, i, j) implies adv(b, i, j, l, c) == (l, c + (j - i)) by {
        adv_no_nl(b, i, j, l, c);
    }
    assert forall|i: int, j: int, l: int, c: int| #![trigger adv(b, i, j, l, c)] i < j && no_nl(b, i, j - 1) && b[j - 1] == 10u8 implies adv(b, i, j, l, c) == (l + 1, 1int) by {
        adv_no_nl(b, i, j - 1, l, c);
    }
}
proof fn lemma_rep(c: char, n: nat)
    ensures rep(seq![c], n).len() == n, forall|k: int| 0 <= k < n ==> #[trigger] rep(seq![c], n)[k] == c
    decreases n
{
    if n > 0 { lemma_rep(c, (n - 1) as nat); }
}
proof fn lemma_rep_line(b: Seq<u8>, i: int, c: char, n: int)
    requires 1 <= n, 0 < c as u32, (c as u32) < 128, 0 <= i
    ensures ({
        let e = rep(seq![c], (n - 1) as nat).push('\n');
        asc(e, n) && (ahead_is(b, i, e) <==> rep_line(b, i, c, n))
    }),
        n > 1 ==> asc(rep(seq![c], (n - 1) as nat), n - 1),
        i + n - 1 == b.len() ==> (ahead_is(b, i, rep(seq![c], (n - 1) as nat)) <==> dline(b, i, c, n)),
        i + n - 1 == b.len() ==> !rep_line(b, i, c, n),
{
    let d = rep(seq![c], (n - 1) as nat);
    if i + n - 1 == b.len() {
        reveal(ahead_is);
        lemma_rep(c, (n - 1) as nat);
        if ahead_is(b, i, d) {
            assert forall|k: int| i <= k < i + n - 1 implies #[trigger] b[k] == c as u8 by { assert(b[i + (k - i)] == d[k - i] as u8); }
        }
    }
    reveal(ahead_is); reveal(asc);
    lemma_rep(c, (n - 1) as nat);
    let e = rep(seq![c], (n - 1) as nat).push('\n');
    if rep_line(b, i, c, n) {
        assert forall|k: int| 0 <= k < e.len() implies b[i + k] == (#[trigger] e[k]) as u8 by {
            if k < n - 1 { assert(b[i + k] == c as u8); }
        }
    }
    if ahead_is(b, i, e) {
        assert forall|k: int| i <= k < i + n - 1 implies #[trigger] b[k] == c as u8 by {
            assert(b[i + (k - i)] == e[k - i] as u8);
        }
        assert(e[n - 1] == '\n');
    }
}
// what follows from the two-part lookahead tests in the dispatcher
proof fn lemma_dispatch(b: Seq<u8>, i: int)
    requires str_bytes(b), 0 <= i < b.len()
    ensures
        b[i] < 128 ==> is_char_boundary(b, i + 1),
        b[i] != 10u8 ==> no_nl(b, i, i + 1),
        b[i] == 't' as u8 && ahead_is(b, i + 1, "ag::"@) ==> is_directive(b, i) && tag_line(b, i),
        b[i] == 'e' as u8 && ahead_is(b, i + 1, "nd::"@) ==> is_directive(b, i) && tag_line(b, i),
        ahead_is(b, i + 1, "C)"@) || ahead_is(b, i + 1, "R)"@) ==> paren_ahead(b, i + 1),
        ahead_is(b, i + 1, "TM)"@) ==> paren_ahead(b, i + 1),
{
    if b[i] < 128 { lemma_ascii_bnd(b, i); }
    lemma_directive_ahead(b, i);
    lemma_paren_ahead(b, i + 1, "C)"@, 2);
    lemma_paren_ahead(b, i + 1, "R)"@, 2);
    lemma_paren_ahead(b, i + 1, "TM)"@, 3);
}
proof fn lemma_cons_ahead(b: Seq<u8>, i: int, c: char, rest: Seq<char>, all: Seq<char>)
    requires 0 <= i < b.len(), b[i] == c as u8, ahead_is(b, i + 1, rest), all == seq![c] + rest
    ensures ahead_is(b, i, all)
{
    reveal(ahead_is);
    assert forall|k: int| 0 <= k < all.len() implies b[i + k] == (#[trigger] all[k]) as u8 by {
        if k > 0 { assert(b[i + 1 + (k - 1)] == rest[k - 1] as u8); }
    }
}
proof fn lemma_uncons_ahead(b: Seq<u8>, i: int, c: char, rest: Seq<char>, all: Seq<char>)
    requires ahead_is(b, i, all), all == seq![c] + rest
    ensures b[i] == c as u8, ahead_is(b, i + 1, rest)
{
    reveal(ahead_is);
    assert(b[i + 0] == all[0] as u8);
    assert forall|k: int| 0 <= k < rest.len() implies b[i + 1 + k] == (#[trigger] rest[k]) as u8 by {
        assert(b[i + (k + 1)] == all[k + 1] as u8);
    }
}
// a slice starts with an ASCII text iff the bytes there spell it
proof fn lemma_prefix(b: Seq<u8>, i: int, n: int, t: Seq<char>, p: Seq<char>)
    requires 0 <= i, 0 <= n, i + n <= b.len(), encode_utf8(t) == b.subrange(i, i + n), all_ascii(p), 0 < p.len()
    ensures (p.len() <= t.len() && t.subrange(0, p.len() as int) == p) <==> (p.len() <= n && ahead_is(b, i, p))
{
    reveal(ahead_is);
    lemma_ascii_bytes(p);
    let m = p.len() as int;
    let e = encode_utf8(t);
    encode_utf8_valid_utf8(t);
    if m <= t.len() && t.subrange(0, m) == p {
        let z = t.subrange(m, t.len() as int);
        assert(t =~= p + z);
        encode_utf8_concat(p, z);
        assert forall|k: int| 0 <= k < p.len() implies b[i + k] == (#[trigger] p[k]) as u8 by {
            assert(b.subrange(i, i + n)[k] == encode_utf8(p)[k]);
        }
        assert(e.len() == n && e.len() >= m);
        assert(ahead_is(b, i, p));
    }
    if m <= n && ahead_is(b, i, p) {
        assert forall|k: int| 0 <= k < m implies #[trigger] e[k] == encode_utf8(p)[k] by {
            assert(b.subrange(i, i + n)[k] == b[i + k]);
            assert(b[i + k] == p[k] as u8);
        }
        if m == n {
            assert(e =~= encode_utf8(p));
            encode_utf8_decode_utf8(t);
            encode_utf8_decode_utf8(p);
            assert(t == p && t.subrange(0, m) =~= p);
        } else {
            assert(e[m - 1] == p[m - 1] as u8);
            lemma_ascii_bnd(e, m - 1);
            is_char_boundary_iff_is_leading_byte(e, m);
            valid_utf8_split(e, m);
            decode_utf8_split(e, m);
            assert(e.subrange(0, m) =~= encode_utf8(p));
            encode_utf8_decode_utf8(t);
            encode_utf8_decode_utf8(p);
            assert(t.subrange(0, m) =~= p);
        }
    }
}
proof fn lemma_tag_prefix(b: Seq<u8>, i: int, e: int)
    requires str_bytes(b)
    ensures
        forall|t: Seq<char>| #![trigger encode_utf8(t)]
            0 <= i <= e <= b.len() && encode_utf8(t) == b.subrange(i, e) ==> {
                &&& (5 <= t.len() && t.subrange(0, 5) == "tag::"@) <==> (i + 5 <= e && ahead_is(b, i, "tag::"@))
                &&& (5 <= t.len() && t.subrange(0, 5) == "end::"@) <==> (i + 5 <= e && ahead_is(b, i, "end::"@))
            },
        !(ahead_is(b, i, "tag::"@) && ahead_is(b, i, "end::"@)),
        is_directive(b, i) ==> to_close(b, i) == to_close(b, i + 5) && to_close(b, i + 5) >= i + 5 && to_close(b, i + 1) == to_close(b, i + 5),
{
    reveal_strlit("tag::"); reveal_strlit("end::");
    assert forall|t: Seq<char>| #![trigger encode_utf8(t)] 0 <= i <= e <= b.len() && encode_utf8(t) == b.subrange(i, e) implies {
                &&& (5 <= t.len() && t.subrange(0, 5) == "tag::"@) <==> (i + 5 <= e && ahead_is(b, i, "tag::"@))
                &&& (5 <= t.len() && t.subrange(0, 5) == "end::"@) <==> (i + 5 <= e && ahead_is(b, i, "end::"@))
            } by {
        lemma_prefix(b, i, e - i, t, "tag::"@);
        lemma_prefix(b, i, e - i, t, "end::"@);
    }
    reveal(ahead_is);
    if ahead_is(b, i, "tag::"@) {
        assert(b[i + 0] == "tag::"@[0] as u8); assert(b[i + 1] == "tag::"@[1] as u8); assert(b[i + 2] == "tag::"@[2] as u8); assert(b[i + 3] == "tag::"@[3] as u8); assert(b[i + 4] == "tag::"@[4] as u8);
    }
    if ahead_is(b, i, "end::"@) {
        assert(b[i + 0] == "end::"@[0] as u8); assert(b[i + 1] == "end::"@[1] as u8); assert(b[i + 2] == "end::"@[2] as u8); assert(b[i + 3] == "end::"@[3] as u8); assert(b[i + 4] == "end::"@[4] as u8);
    }
    if is_directive(b, i) {
        lemma_ascii_bnd(b, i); lemma_ascii_bnd(b, i + 1); lemma_ascii_bnd(b, i + 2); lemma_ascii_bnd(b, i + 3); lemma_ascii_bnd(b, i + 4);
        reveal_with_fuel(to_close, 7);
        to_close_bound(b, i + 5);
    }
}
proof fn lemma_directive_ahead(b: Seq<u8>, i: int)
    requires 0 <= i < b.len()
    ensures
        b[i] == 't' as u8 && ahead_is(b, i + 1, "ag::"@) ==> is_directive(b, i) && tag_line(b, i),
        b[i] == 'e' as u8 && ahead_is(b, i + 1, "nd::"@) ==> is_directive(b, i) && tag_line(b, i),
        ahead_is(b, i, "tag::"@) ==> b[i] == 't' as u8 && ahead_is(b, i + 1, "ag::"@),
        ahead_is(b, i, "end::"@) ==> b[i] == 'e' as u8 && ahead_is(b, i + 1, "nd::"@),
{
    if ahead_is(b, i, "tag::"@) { reveal_strlit("ag::"); reveal_strlit("tag::"); assert("tag::"@ =~= seq!['t'] + "ag::"@); lemma_uncons_ahead(b, i, 't', "ag::"@, "tag::"@); }
    if ahead_is(b, i, "end::"@) { reveal_strlit("nd::"); reveal_strlit("end::"); assert("end::"@ =~= seq!['e'] + "nd::"@); lemma_uncons_ahead(b, i, 'e', "nd::"@, "end::"@); }
    reveal(tag_line);
    reveal_strlit("ag::"); reveal_strlit("nd::"); reveal_strlit("tag::"); reveal_strlit("end::");
    assert("tag::"@ =~= seq!['t'] + "ag::"@);
    assert("end::"@ =~= seq!['e'] + "nd::"@);
    if b[i] == 't' as u8 && ahead_is(b, i + 1, "ag::"@) {
        lemma_cons_ahead(b, i, 't', "ag::"@, "tag::"@);
        assert(is_directive(b, i) && no_nl(b, i, i));
    }
    if b[i] == 'e' as u8 && ahead_is(b, i + 1, "nd::"@) {
        lemma_cons_ahead(b, i, 'e', "nd::"@, "end::"@);
        assert(is_directive(b, i) && no_nl(b, i, i));
    }
}
proof fn lemma_paren_ahead(b: Seq<u8>, i: int, s: Seq<char>, n: int)
    requires str_bytes(b), 0 <= i, s == "C)"@ && n == 2 || s == "R)"@ && n == 2 || s == "TM)"@ && n == 3
    ensures ahead_is(b, i, s) ==> paren_ahead(b, i)
{
    reveal(ahead_is); reveal(paren_ahead);
    reveal_strlit("C)"); reveal_strlit("R)"); reveal_strlit("TM)");
    assert(s.len() == n && s[n - 1] == ')');
    if ahead_is(b, i, s) {
        assert(b[i + (n - 1)] == s[n - 1] as u8);
        lemma_ascii_bnd(b, i + n - 1);
        assert(peekc(b, i + n - 1) == ')');
    }
}


// ---------------------------------------------------------------- which text is which kind of token
spec fn hlevel(t: TokenType) -> int {
    match t {
        TokenType::Heading1 => 1, TokenType::Heading2 => 2, TokenType::Heading3 => 3, TokenType::Heading4 => 4,
        TokenType::Heading5 => 5, _ => 0,
    }
}
spec fn eq_run(b: Seq<u8>, i: int) -> int
    decreases b.len() - i
{
    if 0 <= i < b.len() && b[i] == 61u8 { 1 + eq_run(b, i + 1) } else { 0 }
}
// number of '=' of the heading marker at i, 0 if there is none
spec fn head_at(b: Seq<u8>, i: int) -> int {
    let n = eq_run(b, i);
    if at_bol(b, i) && n > 0 && peekc(b, i + n) == ' ' { n } else { 0 }
}
spec fn heading_rule(o: Scanner, f: Scanner, r: Result<Token, ScannerError>) -> bool {
    let n = head_at(o.b(), o.start as int);
    &&& r matches Ok(t) ==> (hlevel(t.token_type) > 0 ==> hlevel(t.token_type) == n && f.current == o.start + n + 1)
    &&& r matches Err(ScannerError::HeadingLevelError(l)) ==> n > 5 && l == o.line
    &&& !o.expecting_tag_end && 1 <= n <= 5 ==> (r matches Ok(t) && hlevel(t.token_type) == n)
    &&& !o.expecting_tag_end && n > 5 ==> (r matches Err(ScannerError::HeadingLevelError(l)) && l == o.line)
}

// n - 1 times c, then a newline or the end
spec fn dline(b: Seq<u8>, i: int, c: char, n: int) -> bool {
    rep_line(b, i, c, n) || (i + n - 1 == b.len() && forall|k: int| i <= k < i + n - 1 ==> #[trigger] b[k] == c as u8)
}
spec fn fence_of(c: char) -> TokenType {
    if c == '+' { TokenType::PassthroughBlock } else if c == '*' { TokenType::SidebarBlock }
    else if c == '-' { TokenType::SourceBlock } else if c == '_' { TokenType::QuoteVerseBlock }
    else if c == '/' { TokenType::CommentBlock } else if c == '=' { TokenType::ExampleBlock }
    else if c == '.' { TokenType::LiteralBlock } else { TokenType::Text }
}
spec fn is_fence(t: TokenType) -> bool {
    t == TokenType::PassthroughBlock || t == TokenType::SidebarBlock || t == TokenType::SourceBlock || t == TokenType::QuoteVerseBlock
    || t == TokenType::CommentBlock || t == TokenType::ExampleBlock || t == TokenType::LiteralBlock
}
spec fn ch(b: Seq<u8>, i: int) -> char { b[i] as char }
// the block-level mark at i (kind and length): delimiters, breaks, the lone '+', the table frame
spec fn mark_at(b: Seq<u8>, i: int) -> (TokenType, int) {
    let c = ch(b, i);
    if !at_bol(b, i) { (TokenType::Text, 0) }
    else if fence_of(c) != TokenType::Text && dline(b, i + 1, c, 4) { (fence_of(c), 4) }
    else if c == '-' && rep_line(b, i + 1, '-', 2) { (TokenType::OpenBlock, 2) }
    else if c == '\'' && dline(b, i + 1, '\'', 3) { (TokenType::ThematicBreak, 3) }
    else if c == '<' && dline(b, i + 1, '<', 3) { (TokenType::PageBreak, 3) }
    else if c == '+' && peekc(b, i + 1) == '\n' { (TokenType::BlockContinuation, 1) }
    else if c == '|' && ahead_is(b, i + 1, "==="@) && (peekc(b, i + 4) == '\n' || peekc(b, i + 4) == '\0') { (TokenType::Table, 4) }
    else { (TokenType::Text, 0) }
}
spec fn is_mark(t: TokenType) -> bool {
    is_fence(t) || t == TokenType::OpenBlock || t == TokenType::ThematicBreak || t == TokenType::PageBreak
    || t == TokenType::BlockContinuation || t == TokenType::Table
}
spec fn mark_rule(o: Scanner, f: Scanner, r: Result<Token, ScannerError>) -> bool {
    let m = mark_at(o.b(), o.start as int);
    &&& r matches Ok(t) ==> (is_mark(t.token_type) ==> t.token_type == m.0 && f.current == o.start + m.1)
    &&& !o.expecting_tag_end && m.1 > 0 ==> (r matches Ok(t) && t.token_type == m.0)
}

// first position from i on at which c stands, or the end
spec fn find(b: Seq<u8>, i: int, c: char) -> int
    decreases b.len() - i
{
    if i < b.len() && peekc(b, i) != c { find(b, i + 1, c) } else { i }
}
spec fn skip_digits(b: Seq<u8>, i: int) -> int
    decreases b.len() - i
{
    if i < b.len() && is_digit_c(peekc(b, i)) { skip_digits(b, i + 1) } else { i }
}
spec fn to_sep(b: Seq<u8>, i: int) -> int
    decreases b.len() - i
{
    if i < b.len() && peekc(b, i) != ' ' && peekc(b, i) != '\n' && peekc(b, i) != ':' { to_sep(b, i + 1) } else { i }
}
spec fn attr_at(b: Seq<u8>, i: int) -> bool {
    at_bol(b, i) && ch(b, i) == ':' && peekc(b, to_sep(b, i + 1)) == ':'
}
spec fn back(b: Seq<u8>, i: int) -> char { if i == 0 { '\0' } else { peekc(b, i - 1) } }
// the list marker at i (kind and length)
spec fn item_at(b: Seq<u8>, i: int) -> (TokenType, int) {
    let c = ch(b, i);
    let q = skip_digits(b, i + 1);
    if at_bol(b, i) && c == '*' && peekc(b, i + 1) == ' ' { (TokenType::UnorderedListItem, 2) }
    else if at_bol(b, i) && c == '.' && peekc(b, i + 1) == ' ' { (TokenType::OrderedListItem, 2) }
    else if at_bol(b, i) && c == '<' && peekc(b, q) == '>' && peekc(b, q + 1) == ' ' { (TokenType::CodeCalloutListItem, q + 2 - i) }
    else if c == '<' && peekc(b, q) == '>' && peekc(b, q + 1) == '\n' { (TokenType::CodeCallout, q + 1 - i) }
    else if c == ':' && !attr_at(b, i) && back(b, i) != ' ' && peekc(b, i + 1) == ':'
        && (peekc(b, i + 2) == ' ' || peekc(b, i + 2) == '\n') { (TokenType::DescriptionListMarker, 3) }
    else { (TokenType::Text, 0) }
}
spec fn is_item(t: TokenType) -> bool {
    t == TokenType::UnorderedListItem || t == TokenType::OrderedListItem || t == TokenType::CodeCalloutListItem
    || t == TokenType::CodeCallout || t == TokenType::DescriptionListMarker
}
spec fn item_rule(o: Scanner, f: Scanner, r: Result<Token, ScannerError>) -> bool {
    let m = item_at(o.b(), o.start as int);
    &&& r matches Ok(t) ==> (is_item(t.token_type) ==> t.token_type == m.0 && f.current == o.start + m.1)
    &&& !o.expecting_tag_end && m.1 > 0 ==> (r matches Ok(t) && t.token_type == m.0)
}

// ---- whole-line directives
spec fn is_directive_kind(t: TokenType) -> bool {
    t == TokenType::Attribute || t == TokenType::Comment || t == TokenType::BlockLabel || t == TokenType::Include
    || t == TokenType::BlockImageMacro || t == TokenType::ElementAttributes
}
// where the line holding i ends
spec fn eol(b: Seq<u8>, i: int) -> int { find(b, i, '\n') }
spec fn line_at(b: Seq<u8>, i: int) -> (TokenType, int) {
    let c = ch(b, i);
    if !at_bol(b, i) { (TokenType::Text, 0) }
    else if c == ':' && attr_at(b, i) { (TokenType::Attribute, eol(b, i + 1) - i) }
    else if c == '/' && peekc(b, i + 1) == '/' && !dline(b, i + 1, '/', 4) {
        (TokenType::Comment, if ahead_is(b, i + 1, "/ tag::"@) || ahead_is(b, i + 1, "/ end::"@) { 3 } else { eol(b, i + 1) - i })
    }
    else if c == '.' && peekc(b, i + 1) != ' ' && !(peekc(b, i + 1) == '.' && peekc(b, i + 2) == '.') { (TokenType::BlockLabel, 1) }
    else if c == 'i' && ahead_is(b, i + 1, "nclude::"@) && find(b, i + 1, ']') < b.len() { (TokenType::Include, find(b, i + 1, ']') + 1 - i) }
    else if c == 'i' && ahead_is(b, i + 1, "mage::"@) && find(b, i + 1, ']') < b.len() { (TokenType::BlockImageMacro, find(b, i + 1, ']') + 1 - i) }
    else if c == '[' && peekc(b, i + 1) != '[' && ch(b, eol(b, i + 1) - 1) == ']' && para_label(b, i, eol(b, i + 1)) == TokenType::Text {
        (TokenType::ElementAttributes, eol(b, i + 1) - i)
    }
    else { (TokenType::Text, 0) }
}
spec fn para_label(b: Seq<u8>, i: int, e: int) -> TokenType {
    if e == i + 6 && ahead_is(b, i, "[NOTE]"@) { TokenType::NotePara } else if e == i + 5 && ahead_is(b, i, "[TIP]"@) { TokenType::TipPara }
    else if e == i + 11 && ahead_is(b, i, "[IMPORTANT]"@) { TokenType::ImportantPara }
    else if e == i + 9 && ahead_is(b, i, "[CAUTION]"@) { TokenType::CautionPara }
    else if e == i + 9 && ahead_is(b, i, "[WARNING]"@) { TokenType::WarningPara } else { TokenType::Text }
}
proof fn lemma_labels(b: Seq<u8>, i: int)
    ensures
        forall|t: Seq<char>, e: int| #![trigger encode_utf8(t), b.subrange(i, e)]
            0 <= i <= e <= b.len() && encode_utf8(t) == b.subrange(i, e) ==> para_label(b, i, e) == (
                if t == "[NOTE]"@ { TokenType::NotePara } else if t == "[TIP]"@ { TokenType::TipPara } else if t == "[IMPORTANT]"@ { TokenType::ImportantPara }
                else if t == "[CAUTION]"@ { TokenType::CautionPara } else if t == "[WARNING]"@ { TokenType::WarningPara } else { TokenType::Text }),
{
    reveal_strlit("[NOTE]"); reveal_strlit("[TIP]"); reveal_strlit("[IMPORTANT]"); reveal_strlit("[CAUTION]"); reveal_strlit("[WARNING]");
    assert forall|t: Seq<char>, e: int| #![trigger encode_utf8(t), b.subrange(i, e)]
        0 <= i <= e <= b.len() && encode_utf8(t) == b.subrange(i, e) implies para_label(b, i, e) == (
            if t == "[NOTE]"@ { TokenType::NotePara } else if t == "[TIP]"@ { TokenType::TipPara } else if t == "[IMPORTANT]"@ { TokenType::ImportantPara }
            else if t == "[CAUTION]"@ { TokenType::CautionPara } else if t == "[WARNING]"@ { TokenType::WarningPara } else { TokenType::Text }) by {
        lemma_slice_is(b, i, e - i, t, "[NOTE]"@); lemma_slice_is(b, i, e - i, t, "[TIP]"@); lemma_slice_is(b, i, e - i, t, "[IMPORTANT]"@);
        lemma_slice_is(b, i, e - i, t, "[CAUTION]"@); lemma_slice_is(b, i, e - i, t, "[WARNING]"@);
    }
}
spec fn line_rule(o: Scanner, f: Scanner, r: Result<Token, ScannerError>) -> bool {
    let m = line_at(o.b(), o.start as int);
    &&& r matches Ok(t) ==> (is_directive_kind(t.token_type) ==> t.token_type == m.0 && f.current == o.start + m.1)
    &&& !o.expecting_tag_end && m.1 > 0 ==> (r matches Ok(t) && t.token_type == m.0)
}

// ---- macros and labels inside a line
spec fn is_macro(t: TokenType) -> bool {
    t == TokenType::FootnoteMacro || t == TokenType::PassthroughInlineMacro || t == TokenType::InlineImageMacro
    || t == TokenType::NotePara || t == TokenType::TipPara || t == TokenType::ImportantPara || t == TokenType::CautionPara || t == TokenType::WarningPara
    || t == TokenType::AttributeReference || t == TokenType::InlineMacroClose || t == TokenType::InlineStyle
}
spec fn macro_at(b: Seq<u8>, i: int) -> (TokenType, int) {
    let c = ch(b, i);
    let e = eol(b, i + 1);
    if c == 'f' && ahead_is(b, i + 1, "ootnote:["@) { (TokenType::FootnoteMacro, 10) }
    else if c == 'p' && ahead_is(b, i + 1, "ass:["@) { (TokenType::PassthroughInlineMacro, 6) }
    else if c == 'i' && ahead_is(b, i + 1, "mage:"@) && !ahead_is(b, i + 1, "mage::"@) && !ahead_is(b, i + 1, "mage: "@)
        && find(b, i + 1, ']') < b.len() { (TokenType::InlineImageMacro, find(b, i + 1, ']') + 1 - i) }
    else if at_bol(b, i) && c == 'N' && ahead_is(b, i + 1, "OTE: "@) { (TokenType::NotePara, 6) }
    else if at_bol(b, i) && c == 'T' && ahead_is(b, i + 1, "IP: "@) { (TokenType::TipPara, 5) }
    else if at_bol(b, i) && c == 'I' && ahead_is(b, i + 1, "MPORTANT: "@) { (TokenType::ImportantPara, 11) }
    else if at_bol(b, i) && c == 'C' && ahead_is(b, i + 1, "AUTION: "@) { (TokenType::CautionPara, 9) }
    else if at_bol(b, i) && c == 'W' && ahead_is(b, i + 1, "ARNING: "@) { (TokenType::WarningPara, 9) }
    else if c == ']' { (TokenType::InlineMacroClose, 1) }
    else if c == '{' && peekc(b, skip_alnum(b, i + 1, true)) == '}' { (TokenType::AttributeReference, skip_alnum(b, i + 1, true) + 1 - i) }
    else if c == '[' && at_bol(b, i) && peekc(b, i + 1) == '[' { (TokenType::Text, 0) }
    else if c == '[' && at_bol(b, i) && ch(b, e - 1) == ']' { (para_label(b, i, e), if para_label(b, i, e) == TokenType::Text { 0 } else { e - i }) }
    else if c == '[' && peekc(b, i + 1) == '.' && find(b, i + 1, ']') < b.len() { (TokenType::InlineStyle, find(b, i + 1, ']') + 1 - i) }
    else { (TokenType::Text, 0) }
}
spec fn macro_rule(o: Scanner, f: Scanner, r: Result<Token, ScannerError>) -> bool {
    let m = macro_at(o.b(), o.start as int);
    &&& r matches Ok(t) ==> (is_macro(t.token_type) ==> t.token_type == m.0 && f.current == o.start + m.1)
    &&& m.1 > 0 ==> (r matches Ok(t) && t.token_type == m.0)
}

// ---- replaced characters
spec fn spc_after(b: Seq<u8>, j: int) -> bool { j >= b.len() || b[j] >= 128 || b[j] == 32 || b[j] == 10 }
spec fn opens(b: Seq<u8>, i: int) -> bool { back(b, i) == '\0' || back(b, i) == ' ' || back(b, i) == '\n' }
spec fn is_repl(t: TokenType) -> bool {
    t == TokenType::CharRef || t == TokenType::OpenSingleQuote || t == TokenType::OpenDoubleQuote
    || t == TokenType::CloseSingleQuote || t == TokenType::CloseDoubleQuote
}
spec fn repl_at(b: Seq<u8>, i: int) -> (TokenType, int) {
    let c = ch(b, i);
    let c1 = peekc(b, i + 1);
    if at_bol(b, i) && mark_at(b, i).1 > 0 { (TokenType::Text, 0) }
    else if c == '\'' && opens(b, i) && c1 == '`' { (TokenType::OpenSingleQuote, 2) }
    else if c == '\'' && c1 == 's' && spc_after(b, i + 2) { (TokenType::CharRef, 1) }
    else if c == '"' && opens(b, i) && c1 == '`' { (TokenType::OpenDoubleQuote, 2) }
    else if c == '`' && c1 == '\'' && spc_after(b, i + 2) { (TokenType::CloseSingleQuote, 2) }
    else if c == '`' && c1 == '"' && spc_after(b, i + 2) { (TokenType::CloseDoubleQuote, 2) }
    else if c == '<' && (c1 == '-' || c1 == '=') { (TokenType::CharRef, 2) }
    else if (c == '=' || c == '-') && c1 == '>' { (TokenType::CharRef, 2) }
    else if c == '-' && c1 == '-' && dash_after(b, i + 2) { (TokenType::CharRef, 2) }
    else if c == '.' && c1 == '.' && peekc(b, i + 2) == '.' { (TokenType::CharRef, 3) }
    else if c == '(' && (ahead_is(b, i + 1, "C)"@) || ahead_is(b, i + 1, "R)"@)) { (TokenType::CharRef, 3) }
    else if c == '(' && ahead_is(b, i + 1, "TM)"@) { (TokenType::CharRef, 4) }
    else if c == '&' && peekc(b, skip_alnum(b, i + 1, false)) == ';' { (TokenType::CharRef, skip_alnum(b, i + 1, false) + 1 - i) }
    else { (TokenType::Text, 0) }
}
spec fn repl_rule(o: Scanner, f: Scanner, r: Result<Token, ScannerError>) -> bool {
    let m = repl_at(o.b(), o.start as int);
    &&& r matches Ok(t) ==> (is_repl(t.token_type) ==> t.token_type == m.0 && f.current == o.start + m.1)
    &&& !o.expecting_tag_end && m.1 > 0 ==> (r matches Ok(t) && t.token_type == m.0)
}
// what a replaced sequence stands for
spec fn repl_text(s: Seq<char>) -> Seq<char> {
    if s == "(C)"@ { "&#169;"@ } else if s == "(R)"@ { "&#174;"@ } else if s == "(TM)"@ { "&#8482;"@ }
    else if s == "..."@ { "&#8230;"@ } else if s == "->"@ { "&#8594;"@ } else if s == "=>"@ { "&#8658;"@ }
    else if s == "<-"@ { "&#8592;"@ } else if s == "<="@ { "&#8656;"@ } else if s == "--"@ { "&#8212;"@ }
    else if s == "'"@ { "&#8217;"@ } else { s }
}
spec fn lit_or_lexeme(t: Token) -> Seq<char> { match t.literal { Some(l) => l@, None => t.lexeme@ } }
spec fn text_rule(t: Token) -> bool {
    lit_or_lexeme(t) == if t.token_type == TokenType::CharRef { repl_text(t.lexeme@) } else { t.lexeme@ }
}

// ---- formatting marks
spec fn fmt_char(c: char) -> bool { c == '*' || c == '_' || c == '`' || c == '+' || c == '^' || c == '~' || c == '#' }
spec fn fmt_end(c: char) -> bool {
    c == ' ' || c == '\0' || c == '.' || c == ',' || c == ';' || c == ':' || c == '\n' || c == ')' || c == '"' || c == '!' || c == '?'
    || c == '\'' || c == ']' || c == '…' || c == '“' || c == '”' || c == '‘' || c == '’' || fmt_char(c)
}
spec fn fmt_begin(c: char) -> bool {
    c == ' ' || c == '\n' || c == '\0' || c == ']' || c == '(' || c == '"' || c == '[' || fmt_char(c)
}
// 0: text, 1: constrained mark, 2: unconstrained mark
spec fn fmt_at(b: Seq<u8>, i: int) -> int {
    let c = ch(b, i);
    let c1 = peekc(b, i + 1);
    if c1 == ' ' && back(b, i) == ' ' { 0 }
    else if c1 == c { 2 }
    else if fmt_end(c1) || fmt_begin(back(b, i)) { 1 }
    else { 0 }
}
spec fn con_of(c: char) -> TokenType {
    if c == '*' { TokenType::Strong } else if c == '_' { TokenType::Emphasis } else if c == '`' { TokenType::Monospace }
    else if c == '+' { TokenType::Literal } else if c == '#' { TokenType::Mark } else { TokenType::Text }
}
spec fn unc_of(c: char) -> TokenType {
    if c == '*' { TokenType::UnconstrainedStrong } else if c == '_' { TokenType::UnconstrainedEmphasis } else if c == '`' { TokenType::UnconstrainedMonospace }
    else if c == '+' { TokenType::UnconstrainedLiteral } else if c == '#' { TokenType::UnconstrainedMark } else { TokenType::Text }
}
spec fn is_fmt(t: TokenType) -> bool {
    t == TokenType::Strong || t == TokenType::Emphasis || t == TokenType::Monospace || t == TokenType::Literal || t == TokenType::Mark
    || t == TokenType::UnconstrainedStrong || t == TokenType::UnconstrainedEmphasis || t == TokenType::UnconstrainedMonospace
    || t == TokenType::UnconstrainedLiteral || t == TokenType::UnconstrainedMark || t == TokenType::Superscript || t == TokenType::Subscript
    || t == TokenType::LineContinuation
}
spec fn fmark_at(b: Seq<u8>, i: int) -> (TokenType, int) {
    let c = ch(b, i);
    if c == '^' { (TokenType::Superscript, 1) }
    else if c == '~' { (TokenType::Subscript, 1) }
    else if con_of(c) == TokenType::Text || mark_at(b, i).1 > 0 || item_at(b, i).1 > 0 || repl_at(b, i).1 > 0 { (TokenType::Text, 0) }
    else if c == '+' && back(b, i) == ' ' && peekc(b, i + 1) == '\n' { (TokenType::LineContinuation, 1) }
    else if fmt_at(b, i) == 1 { (con_of(c), 1) }
    else if fmt_at(b, i) == 2 { (unc_of(c), 2) }
    else { (TokenType::Text, 0) }
}
// text from i + 1 on holds no formatting character (references turned into text aside)
spec fn no_fmt(b: Seq<u8>, i: int, j: int) -> bool { forall|k: int| i <= k < j ==> !fmt_char(#[trigger] peekc(b, k)) }
spec fn fmark_rule(o: Scanner, f: Scanner, r: Result<Token, ScannerError>) -> bool {
    let m = fmark_at(o.b(), o.start as int);
    &&& r matches Ok(t) ==> (is_fmt(t.token_type) ==> t.token_type == m.0 && f.current == o.start + m.1)
    &&& !o.expecting_tag_end && m.1 > 0 ==> (r matches Ok(t) && t.token_type == m.0)
    &&& r matches Ok(t) ==> (t.token_type == TokenType::Text && ch(o.b(), o.start as int) != '[' && ch(o.b(), o.start as int) != '<'
        ==> no_fmt(o.b(), o.start + 1, f.current as int))
}

// ---- tags, anchors, references and cells
spec fn find2(b: Seq<u8>, i: int, s: Seq<char>) -> int
    decreases b.len() - i
{
    if i < b.len() && !ahead_is(b, i, s) { find2(b, i + 1, s) } else { i }
}
spec fn to_close(b: Seq<u8>, i: int) -> int
    decreases b.len() - i
{
    if i < b.len() && peekc(b, i) != ']' && peekc(b, i) != '\n' { to_close(b, i + 1) } else { i }
}
// a cell goes on to the next '|' that follows a space, or to the end of the line
spec fn cell_end(b: Seq<u8>, i: int) -> int
    decreases b.len() - i
{
    if i < b.len() && peekc(b, i) != '\n' && !(peekc(b, i) == '|' && b[i - 1] == 32) { cell_end(b, i + 1) } else { i }
}
proof fn to_close_bound(b: Seq<u8>, i: int)
    ensures to_close(b, i) >= i
    decreases b.len() - i
{
    if i < b.len() && peekc(b, i) != ']' && peekc(b, i) != '\n' { to_close_bound(b, i + 1); }
}
spec fn spaced(t: Token) -> bool { t.lexeme@.contains(' ') || t.lexeme@.contains('\n') }
spec fn ref_at(b: Seq<u8>, i: int) -> (TokenType, int) {
    let c = ch(b, i);
    if mark_at(b, i).1 > 0 { (TokenType::Text, 0) }
    else if c == '<' && peekc(b, i + 1) == '<' && find2(b, i + 1, ">>"@) < b.len() { (TokenType::CrossReference, find2(b, i + 1, ">>"@) + 2 - i) }
    else if c == '[' && at_bol(b, i) && peekc(b, i + 1) == '[' && find2(b, i + 1, "]]\n"@) < b.len() { (TokenType::BlockAnchor, find2(b, i + 1, "]]\n"@) + 2 - i) }
    else if c == '|' && (at_bol(b, i) || back(b, i) == ' ') && !(at_bol(b, i) && ahead_is(b, i + 1, "==="@)) { (TokenType::TableCell, cell_end(b, i + 1) - i) }
    else { (TokenType::Text, 0) }
}
spec fn ref_rule(o: Scanner, f: Scanner, r: Result<Token, ScannerError>) -> bool {
    let m = ref_at(o.b(), o.start as int);
    &&& r matches Ok(t) ==> (t.token_type == TokenType::CrossReference || t.token_type == TokenType::BlockAnchor || t.token_type == TokenType::TableCell
        ==> t.token_type == m.0 && f.current == o.start + m.1)
    &&& !o.expecting_tag_end && m.1 > 0 ==> (r matches Ok(t) && f.current == o.start + m.1
        && t.token_type == if m.0 != TokenType::TableCell && spaced(t) { TokenType::Text } else { m.0 })
}
spec fn tag_rule(o: Scanner, f: Scanner, r: Result<Token, ScannerError>) -> bool {
    let b = o.b();
    let i = o.start as int;
    let q = to_close(b, i + 1);
    let st = ch(b, i) == 't' && ahead_is(b, i + 1, "ag::"@);
    let en = ch(b, i) == 'e' && ahead_is(b, i + 1, "nd::"@);
    &&& r matches Ok(t) ==> {
        &&& t.token_type == TokenType::StartTag ==> ahead_is(b, f.start as int, "tag::"@) && f.expecting_tag_end && (st || o.expecting_tag_end)
        &&& t.token_type == TokenType::EndTag ==> ahead_is(b, f.start as int, "end::"@) && !f.expecting_tag_end && (en || o.expecting_tag_end)
        &&& !is_tag(t.token_type) ==> f.expecting_tag_end == o.expecting_tag_end
    }
    &&& r is Err ==> f.expecting_tag_end == o.expecting_tag_end
    &&& (st || en) && peekc(b, q) == ']' ==> (r matches Ok(t) && f.start == i
        && t.token_type == (if st { TokenType::StartTag } else { TokenType::EndTag }) && encode_utf8(t.lexeme@) == b.subrange(i, q + 1))
    &&& (st || en) && peekc(b, q) != ']' ==> (r matches Ok(t) && t.token_type == TokenType::Text)
}
spec fn fmt_plain(t: TokenType) -> bool { t != TokenType::Text && t != TokenType::BlockAnchor && t != TokenType::CrossReference }
spec fn fmt_rule(o: Scanner, f: Scanner, r: Result<Token, ScannerError>, con: TokenType, unc: TokenType) -> bool {
    let k = fmt_at(o.b(), o.start as int);
    &&& r is Ok
    &&& k == 0 ==> r->Ok_0.token_type == TokenType::Text && no_fmt(o.b(), o.start + 1, f.current as int)
    &&& k == 1 ==> r->Ok_0.token_type == con && f.current == o.start + 1
    &&& k == 2 ==> r->Ok_0.token_type == unc && f.current == o.start + 2
}
proof fn lemma_fmt_sets(e: Seq<char>, g: Seq<char>)
    requires
        e =~= seq![' ', '\0', '.', ',', ';', ':', '\n', ')', '"', '!', '?', '\'', ']', '…', '“', '”', '‘', '’', '*', '_', '`', '+', '^', '~', '#'],
        g =~= seq![' ', '\n', '\0', ']', '(', '"', '[', '*', '_', '`', '+', '^', '~', '#'],
    ensures
        forall|x: char| #[trigger] e.contains(x) <==> fmt_end(x),
        forall|x: char| #[trigger] g.contains(x) <==> fmt_begin(x),
{
    assert forall|x: char| fmt_end(x) implies #[trigger] e.contains(x) by {
        assert(e[0] == ' ' && e[1] == '\0' && e[2] == '.' && e[3] == ',' && e[4] == ';' && e[5] == ':' && e[6] == '\n' && e[7] == ')' && e[8] == '"'
            && e[9] == '!' && e[10] == '?' && e[11] == '\'' && e[12] == ']' && e[13] == '…' && e[14] == '“' && e[15] == '”' && e[16] == '‘' && e[17] == '’'
            && e[18] == '*' && e[19] == '_' && e[20] == '`' && e[21] == '+' && e[22] == '^' && e[23] == '~' && e[24] == '#');
    }
    assert forall|x: char| fmt_begin(x) implies #[trigger] g.contains(x) by {
        assert(g[0] == ' ' && g[1] == '\n' && g[2] == '\0' && g[3] == ']' && g[4] == '(' && g[5] == '"' && g[6] == '[' && g[7] == '*' && g[8] == '_'
            && g[9] == '`' && g[10] == '+' && g[11] == '^' && g[12] == '~' && g[13] == '#');
    }
}

proof fn lemma_ahead_chars(b: Seq<u8>, i: int, s: Seq<char>)
    requires str_bytes(b), 0 <= i, all_ascii(s), s.len() == 2, s[0] != '\0', s[1] != '\0'
    ensures ahead_is(b, i, s) <==> (peekc(b, i) == s[0] && peekc(b, i + 1) == s[1])
{
    reveal(ahead_is);
    if ahead_is(b, i, s) {
        assert(b[i + 0] == s[0] as u8);
        assert(b[i + 1] == s[1] as u8);
        lemma_ascii_bnd(b, i); lemma_ascii_bnd(b, i + 1);
    }
    if peekc(b, i) == s[0] && peekc(b, i + 1) == s[1] {
        assert forall|k: int| 0 <= k < s.len() implies b[i + k] == (#[trigger] s[k]) as u8 by {
            if k == 0 {} else { assert(k == 1); }
        }
    }
}
proof fn lemma_more_marks(b: Seq<u8>, j: int)
    requires str_bytes(b), 0 <= j
    ensures
        ahead_is(b, j, "nclude::"@) ==> !ahead_is(b, j, "mage:"@),
        ahead_is(b, j, "==="@) ==> peekc(b, j) == '=' && peekc(b, j + 1) == '=' && peekc(b, j + 2) == '=',
        ahead_is(b, j, "C)"@) || ahead_is(b, j, "R)"@) ==> find(b, j, ')') == j + 1,
        ahead_is(b, j, "TM)"@) ==> find(b, j, ')') == j + 2 && !ahead_is(b, j, "C)"@) && !ahead_is(b, j, "R)"@),
{
    reveal(ahead_is);
    reveal_strlit("nclude::"); reveal_strlit("mage:"); reveal_strlit("==="); reveal_strlit("C)"); reveal_strlit("R)"); reveal_strlit("TM)");
    reveal_with_fuel(find, 4);
    if ahead_is(b, j, "nclude::"@) && ahead_is(b, j, "mage:"@) { assert(b[j + 0] == "nclude::"@[0] as u8); assert(b[j + 0] == "mage:"@[0] as u8); }
    if ahead_is(b, j, "==="@) {
        let s = "==="@;
        assert(b[j + 0] == s[0] as u8); assert(b[j + 1] == s[1] as u8); assert(b[j + 2] == s[2] as u8);
        lemma_ascii_bnd(b, j); lemma_ascii_bnd(b, j + 1); lemma_ascii_bnd(b, j + 2);
    }
    if ahead_is(b, j, "TM)"@) {
        let s = "TM)"@;
        assert(b[j + 0] == s[0] as u8); assert(b[j + 1] == s[1] as u8); assert(b[j + 2] == s[2] as u8);
        lemma_ascii_bnd(b, j); lemma_ascii_bnd(b, j + 1); lemma_ascii_bnd(b, j + 2);
        if ahead_is(b, j, "C)"@) { assert(b[j + 0] == "C)"@[0] as u8); }
        if ahead_is(b, j, "R)"@) { assert(b[j + 0] == "R)"@[0] as u8); }
    }
    lemma_ahead_chars(b, j, "C)"@); lemma_ahead_chars(b, j, "R)"@);
}
proof fn lemma_marks(b: Seq<u8>, i: int)
    requires str_bytes(b), 0 <= i < b.len()
    ensures
        ch(b, i) != '=' ==> head_at(b, i) == 0,
        ch(b, i) == '=' ==> (dline(b, i + 1, '=', 4) || peekc(b, i + 1) == '>' ==> head_at(b, i) == 0),
        ahead_is(b, i + 1, ".."@) <==> (peekc(b, i + 1) == '.' && peekc(b, i + 2) == '.'),
        ahead_is(b, i + 1, ": "@) <==> (peekc(b, i + 1) == ':' && peekc(b, i + 2) == ' '),
        ahead_is(b, i + 1, ":\n"@) <==> (peekc(b, i + 1) == ':' && peekc(b, i + 2) == '\n'),
        rep_line(b, i + 1, '-', 2) <==> (peekc(b, i + 1) == '-' && peekc(b, i + 2) == '\n'),
        ahead_is(b, i + 1, "nclude::"@) ==> !ahead_is(b, i + 1, "mage:"@),
        ahead_is(b, i + 1, "==="@) ==> peekc(b, i + 1) == '=' && peekc(b, i + 2) == '=' && peekc(b, i + 3) == '=',
        ahead_is(b, i + 1, "C)"@) || ahead_is(b, i + 1, "R)"@) ==> find(b, i + 1, ')') == i + 2,
        ahead_is(b, i + 1, "TM)"@) ==> find(b, i + 1, ')') == i + 3 && !ahead_is(b, i + 1, "C)"@) && !ahead_is(b, i + 1, "R)"@),
        0 < peekc(b, i + 1) as u32 && (peekc(b, i + 1) as u32) < 128 && i + 3 <= b.len() ==> (is_char_boundary(b, i + 3) <==> b[i + 2] < 128),
        ahead_is(b, i + 1, "s "@) <==> (peekc(b, i + 1) == 's' && peekc(b, i + 2) == ' '),
        ahead_is(b, i + 1, "s\n"@) <==> (peekc(b, i + 1) == 's' && peekc(b, i + 2) == '\n'),
        ahead_is(b, i + 1, "' "@) <==> (peekc(b, i + 1) == '\'' && peekc(b, i + 2) == ' '),
        ahead_is(b, i + 1, "'\n"@) <==> (peekc(b, i + 1) == '\'' && peekc(b, i + 2) == '\n'),
        ahead_is(b, i + 1, "\" "@) <==> (peekc(b, i + 1) == '"' && peekc(b, i + 2) == ' '),
        ahead_is(b, i + 1, "\"\n"@) <==> (peekc(b, i + 1) == '"' && peekc(b, i + 2) == '\n'),
{
    lemma_dash(b, i + 1);
    lemma_more_marks(b, i + 1);
    reveal_strlit("s "); reveal_strlit("s\n"); reveal_strlit("' "); reveal_strlit("'\n"); reveal_strlit("\" "); reveal_strlit("\"\n");
    lemma_ahead_chars(b, i + 1, "s "@); lemma_ahead_chars(b, i + 1, "s\n"@);
    lemma_ahead_chars(b, i + 1, "' "@); lemma_ahead_chars(b, i + 1, "'\n"@);
    lemma_ahead_chars(b, i + 1, "\" "@); lemma_ahead_chars(b, i + 1, "\"\n"@);
    reveal_strlit(".."); reveal_strlit(": "); reveal_strlit(":\n");
    lemma_ahead_chars(b, i + 1, ".."@);
    lemma_ahead_chars(b, i + 1, ": "@);
    lemma_ahead_chars(b, i + 1, ":\n"@);
    reveal_with_fuel(eq_run, 6);
    if ch(b, i) == '=' && dline(b, i + 1, '=', 4) {
        assert(b[i + 1] == 61u8 && b[i + 2] == 61u8 && b[i + 3] == 61u8);
    }
    if rep_line(b, i + 1, '-', 2) {
        assert(b[i + 1] == 45u8);
        lemma_ascii_bnd(b, i + 1); lemma_ascii_bnd(b, i + 2);
    }
    if peekc(b, i + 1) == '-' && peekc(b, i + 2) == '\n' {
        assert(i + 1 + 1 - 1 == i + 1);
    }
}
// the character after the second '-' lets "--" stand for a dash
spec fn dash_after(b: Seq<u8>, j: int) -> bool {
    j >= b.len() || b[j] >= 128 || b[j] == 0 || b[j] == 32 || is_alnum(b[j] as char)
}
proof fn lemma_dash(b: Seq<u8>, i: int)
    requires str_bytes(b), 0 <= i
    ensures
        0 < peekc(b, i) as u32 && (peekc(b, i) as u32) < 128 && i + 2 <= b.len() ==> (is_char_boundary(b, i + 2) <==> b[i + 1] < 128),
        peekc(b, i) == '-' ==> (forall|t: Seq<char>| #[trigger] encode_utf8(t) == b.subrange(i, i + 2) && i + 2 <= b.len() && b[i + 1] < 128 ==> t.len() == 2 && t.last() == b[i + 1] as char),
{
    if 0 < peekc(b, i) as u32 && (peekc(b, i) as u32) < 128 && i + 2 <= b.len() {
        if b[i + 1] < 128 { lemma_ascii_bnd(b, i + 1); } else { lemma_ascii_bnd(b, i); lemma_two(b, i + 1); }
    }
    if peekc(b, i) == '-' && i + 2 <= b.len() {
        if b[i + 1] < 128 {
            lemma_ascii_bnd(b, i + 1);
            let s = seq!['-', b[i + 1] as char];
            assert forall|t: Seq<char>| #[trigger] encode_utf8(t) == b.subrange(i, i + 2) implies t.len() == 2 && t.last() == b[i + 1] as char by {
                lemma_slice_is(b, i, 2, t, s);
                reveal(ahead_is);
                assert(ahead_is(b, i, s));
            }
        }
    }
}
// after a boundary, a non-ASCII byte starts a character of at least two bytes
proof fn lemma_two(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), is_char_boundary(b, i), b[i] >= 128
    ensures !is_char_boundary(b, i + 1)
    decreases b.len()
{
    reveal_with_fuel(is_char_boundary, 3);
    reveal_with_fuel(valid_utf8, 2);
    if i == 0 {
    } else {
        let b1 = pop_first_scalar(b);
        let n = length_of_first_scalar(b);
        assert(b1 =~= b.subrange(n as int, b.len() as int));
        lemma_two(b1, i - n);
    }
}

//! contract Token::validate
    ensures
        final(self).lexeme == old(self).lexeme, final(self).line == old(self).line,
        final(self).startcol == old(self).startcol, final(self).endcol == old(self).endcol,
        final(self).file_stack == old(self).file_stack,
        final(self).token_type == old(self).token_type
            || ((old(self).token_type == TokenType::BlockAnchor || old(self).token_type == TokenType::CrossReference)
                && final(self).token_type == TokenType::Text),
        (old(self).token_type == TokenType::BlockAnchor || old(self).token_type == TokenType::CrossReference) ==>
            (final(self).token_type == TokenType::Text <==> (old(self).lexeme@.contains(' ') || old(self).lexeme@.contains('\n'))),
        old(self).token_type != TokenType::CharRef ==> final(self).literal == old(self).literal,
        old(self).token_type == TokenType::CharRef ==> (lit_or_lexeme(*old(self)) == old(self).lexeme@ ==> lit_or_lexeme(*final(self)) == repl_text(old(self).lexeme@)),
//! hint Token::validate start
    broadcast use str_ext;
//! contract Token::token_type
    ensures r == self.token_type
//! contract Token::final_token
    ensures
        r.token_type == TokenType::Eof, r.line == line, r.lexeme@.len() == 0,
        r.file_stack == file_stack,
//! contract TokenType::block_from_char
    ensures
        c == '+' ==> r == Ok::<TokenType, TokenError>(TokenType::PassthroughBlock),
        c == '*' ==> r == Ok::<TokenType, TokenError>(TokenType::SidebarBlock),
        c == '-' ==> r == Ok::<TokenType, TokenError>(TokenType::SourceBlock),
        c == '_' ==> r == Ok::<TokenType, TokenError>(TokenType::QuoteVerseBlock),
        c == '/' ==> r == Ok::<TokenType, TokenError>(TokenType::CommentBlock),
        c == '=' ==> r == Ok::<TokenType, TokenError>(TokenType::ExampleBlock),
        c == '.' ==> r == Ok::<TokenType, TokenError>(TokenType::LiteralBlock),
//! contract Scanner::is_at_end
    requires self.lenok()
    ensures r == (self.current >= self.n())
//! contract Scanner::peek
    requires self.lenok()
    ensures r == peekc(self.b(), self.current as int)
//! contract Scanner::peek_back
    requires self.lenok(), self.start <= self.n()
    ensures r == if self.start == 0 { '\0' } else { peekc(self.b(), self.start - 1) }
//! contract Scanner::starts_new_line
    requires self.lenok(), self.start <= self.n()
    ensures r == at_bol(self.b(), self.start as int)
//! contract Scanner::peeks_ahead
    requires self.lenok(), self.current <= self.n(), count <= 64 || count <= self.n() + 1
    ensures
        count > 0 ==> r@.len() > 0,
        forall|s: Seq<char>, n: int| #![trigger str_eq(r@, s), asc(s, n)] asc(s, n) ==>
            (str_eq(r@, s) <==> (n == count && ahead_is(self.b(), self.current as int, s))),
        r@ == seq!['\0'] || (self.current + count <= self.n() && is_char_boundary(self.b(), self.current as int)
            && is_char_boundary(self.b(), self.current + count)
            && r.spec_bytes() == self.b().subrange(self.current as int, self.current + count)),
        self.current + count > self.n() ==> r@ == seq!['\0'],
        !is_char_boundary(self.b(), self.current + count) ==> r@ == seq!['\0'],
        self.current + count <= self.n() && self.current < self.n() && is_char_boundary(self.b(), self.current as int) && is_char_boundary(self.b(), self.current + count)
            ==> r.spec_bytes() == self.b().subrange(self.current as int, self.current + count),
        count == 2 && is_char_boundary(self.b(), self.current as int) ==>
            (str_eq(r@, seq!['\0']) <==> !(self.current + count <= self.n() && is_char_boundary(self.b(), self.current + count))),
//! hint Scanner::peeks_ahead start
    proof {
        assert forall|t: Seq<char>| self.current + count <= self.n() && count == 2 && #[trigger] encode_utf8(t) == self.b().subrange(self.current as int, self.current + count)
            implies t != seq!['\0'] by {
            lemma_slice_is(self.b(), self.current as int, count as int, t, seq!['\0']);
        }
        reveal_strlit("\0");
        assert("\0"@ =~= seq!['\0']);
        reveal(asc);
        assert forall|r: Seq<char>, s: Seq<char>| #![trigger str_eq(r, s)]
            self.current + count <= self.n() && encode_utf8(r) == self.b().subrange(self.current as int, self.current + count)
            && all_ascii(s) implies (str_eq(r, s) <==> (s.len() == count && ahead_is(self.b(), self.current as int, s))) by {
            lemma_slice_is(self.b(), self.current as int, count as int, r, s);
        }
        assert forall|t: &str| count > 0 && self.current + count <= self.n() && #[trigger] t.spec_bytes() == self.b().subrange(self.current as int, self.current + count)
            implies t@.len() > 0 by {
            lemma_nonempty(t@);
        }
    }
//! contract Scanner::peek_line
    requires self.lenok(), self.current <= self.n()
    ensures
        forall|i: int| #[trigger] has_sub(r@, "end::"@, i) ==>
            tag_line(self.b(), self.current as int)
//! hint Scanner::peek_line start
    proof {
        reveal_strlit("end::");
        lemma_peek_line(self.b(), self.current as int);
    }
//! loop Scanner::peek_line 0
        invariant
            self.lenok(), self.current <= self.n(), 1 <= count <= self.n() + 1,
            no_nl(self.b(), self.current as int, self.current + count - 1),
        decreases self.n() + 2 - count,

//! default Scanner | &mut self ; -> Result<Token, ScannerError>
    requires old(self).mid(),
    ensures
        final(self).frame(&*old(self)), final(self).btw(), final(self).current > old(self).start, // [A01 +]
        r matches Ok(t) ==> tok_lossless(st0(*old(self)), *final(self), t), // [A02]
        r matches Ok(t) ==> tok_line(st0(*old(self)), *final(self), t), // [A03]
        r matches Ok(t) ==> tok_col(st0(*old(self)), *final(self), t), // [A04]
        r matches Ok(t) ==> text_rule(t), // [A10]
        r matches Ok(t) ==> stack_is(t, old(self).file_stack@),
        final(self).expecting_tag_end == old(self).expecting_tag_end, // [A13]
    decreases old(self).n() - old(self).current
//! default Scanner | &mut self ; -> bool
    requires old(self).mid(),
    ensures final(self).mid(), final(self).same(&*old(self)), final(self).current >= old(self).current
//! default-loop Scanner::
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
        decreases self.n() - self.current,
//! contract Token::text
    ensures
        self.token_type == TokenType::OpenDoubleQuote ==> r@ == "“"@, // [A10]
        self.token_type == TokenType::CloseDoubleQuote ==> r@ == "”"@, // [A10]
        self.token_type == TokenType::OpenSingleQuote ==> r@ == "‘"@, // [A10]
        self.token_type == TokenType::CloseSingleQuote ==> r@ == "’"@, // [A10]
        self.token_type != TokenType::OpenDoubleQuote && self.token_type != TokenType::CloseDoubleQuote && self.token_type != TokenType::OpenSingleQuote && self.token_type != TokenType::CloseSingleQuote ==> r@ == lit_or_lexeme(*self), // [A10]
//! contract Scanner::new
    requires source.spec_bytes().len() <= 0x7fff_ffff_ffff_ffff
    ensures
        r.source == source, r.current == 0, r.line == 1, r.startcol == 1, r.scanning, !r.expecting_tag_end,
        r.file_stack@.len() == 0, r.btw(),
//! contract Scanner::new_with_stack
    requires source.spec_bytes().len() <= 0x7fff_ffff_ffff_ffff
    ensures
        r.source == source, r.current == 0, r.line == 1, r.startcol == 1, r.scanning, !r.expecting_tag_end,
        r.file_stack == file_stack, r.btw(),
//! contract Scanner::Iterator.next
    requires old(self).btw(),
    ensures
        final(self).btw(), final(self).source == old(self).source, final(self).file_stack == old(self).file_stack, // [A01 +]
        // the stream ends with exactly one end-of-file token
        r is None <==> (old(self).current == old(self).n() && !old(self).scanning), // [A01]
        r is None ==> final(self).current == old(self).current && !final(self).scanning, // [A01]
        old(self).current < old(self).n() ==> final(self).scanning == old(self).scanning && final(self).current > old(self).current, // [A01]
        (old(self).current == old(self).n() && old(self).scanning) ==> !final(self).scanning && final(self).current == old(self).current, // [A01]
        (old(self).current == old(self).n() && old(self).scanning) ==> (r matches Some(Ok(t)) && t.token_type == TokenType::Eof), // [A01]
        (old(self).current == old(self).n() && old(self).scanning) ==> (r matches Some(Ok(t)) && t.line == old(self).line), // [A03]
        old(self).current < old(self).n() ==> (r matches Some(Ok(t)) ==> tok_lossless(from(*old(self)), *final(self), t)), // [A02]
        old(self).current < old(self).n() ==> (r matches Some(Ok(t)) ==> tok_line(from(*old(self)), *final(self), t)), // [A03]
        old(self).current < old(self).n() ==> (r matches Some(Ok(t)) ==> tok_col(from(*old(self)), *final(self), t)), // [A04]
        old(self).current < old(self).n() ==> (r matches Some(Ok(t)) ==> stack_is(t, old(self).file_stack@)),
//! contract Scanner::scan_token
    requires
        old(self).lenok(), old(self).start == old(self).current, old(self).current < old(self).n(), old(self).btw(),
    ensures
        final(self).frame(&*old(self)), final(self).btw(), final(self).current > old(self).start, // [A01 +]
        r matches Ok(t) ==> tok_lossless(st0(*old(self)), *final(self), t), // [A02]
        r matches Ok(t) ==> tok_line(st0(*old(self)), *final(self), t), // [A03]
        r matches Ok(t) ==> tok_col(st0(*old(self)), *final(self), t), // [A04]
        r matches Ok(t) ==> text_rule(t), // [A10]
        r matches Ok(t) ==> stack_is(t, old(self).file_stack@),
//! contract Scanner::add_token
    requires
        old(self).mid(), is_char_boundary(old(self).b(), old(self).current as int),
        advance_line_after != 0 ==> advance_line_after == 1 && old(self).current == old(self).start + 1
            && old(self).b()[old(self).start as int] == 10u8 && token_type == TokenType::NewLineChar,
    ensures
        r is Ok,
        final(self).frame(&*old(self)), final(self).btw(), final(self).current == old(self).current, // [A01 +]
        final(self).start == old(self).start, final(self).expecting_tag_end == old(self).expecting_tag_end,
        r->Ok_0.token_type == token_type || ((token_type == TokenType::BlockAnchor || token_type == TokenType::CrossReference)
            && r->Ok_0.token_type == TokenType::Text),
        !is_tag(token_type) ==> tok_lossless(st0(*old(self)), *final(self), r->Ok_0), // [A02]
        !is_tag(token_type) ==> tok_line(st0(*old(self)), *final(self), r->Ok_0), // [A03]
        !is_tag(token_type) ==> tok_col(st0(*old(self)), *final(self), r->Ok_0), // [A04]
        text_is(old(self).b(), r->Ok_0, old(self).start as int, old(self).current as int), // [A02 +]
        r->Ok_0.line == old(self).line, // [A03 +]
        r->Ok_0.startcol == old(self).startcol, // [A04 +]
        r->Ok_0.endcol == old(self).startcol + (old(self).current - old(self).start) - 1, // [A04 +]
        token_type != TokenType::DescriptionListMarker ==> final(self).line == adv(old(self).b(), old(self).start as int, old(self).current as int, old(self).line as int, old(self).startcol as int).0, // [A03 +]
        token_type != TokenType::DescriptionListMarker ==> final(self).startcol == adv(old(self).b(), old(self).start as int, old(self).current as int, old(self).line as int, old(self).startcol as int).1, // [A04 +]
        token_type == TokenType::DescriptionListMarker ==> final(self).line == old(self).line, // [A03 +]
        token_type == TokenType::DescriptionListMarker ==> final(self).startcol == old(self).startcol + (old(self).current - old(self).start), // [A04 +]
        stack_is(r->Ok_0, old(self).file_stack@),
        text_rule(r->Ok_0), // [A10]
        (token_type == TokenType::BlockAnchor || token_type == TokenType::CrossReference) ==> // [A12]
            (r->Ok_0.token_type == token_type <==> !r->Ok_0.lexeme@.contains(' ') && !r->Ok_0.lexeme@.contains('\n')), // [A12]
//! hint Scanner::add_token start
    proof {
        let (b, s, c, l, k) = (self.b(), self.start as int, self.current as int, self.line as int, self.startcol as int);
        adv_bounds(b, s, c, l, k);
        reveal_with_fuel(adv, 3); reveal(tok_lossless); reveal(tok_line); reveal(tok_col);
    }
//! loop Scanner::add_token 0
        invariant
            self.frame(&*old(self)), self.start == old(self).start, self.current == old(self).current,
            self.expecting_tag_end == old(self).expecting_tag_end,
            old(self).mid(),
            text.spec_bytes() == self.b().subrange(self.start as int, self.current as int),
            ({
                let p = adv(self.b(), self.start as int, self.start + idx, old(self).line as int, old(self).startcol as int);
                self.line == p.0 && self.startcol == p.1 + (text.spec_bytes().len() - idx)
                && old(self).line <= p.0 <= old(self).line + idx && 1 <= p.1 <= old(self).startcol + idx
            }),
//! contract Scanner::add_list_item
    requires old(self).mid(), peekc(old(self).b(), old(self).current as int) == ' ', !is_tag(list_item_token),
    ensures
        final(self).frame(&*old(self)), final(self).btw(), final(self).current > old(self).start, // [A01 +]
        r matches Ok(t) ==> tok_lossless(st0(*old(self)), *final(self), t), // [A02]
        r matches Ok(t) ==> tok_line(st0(*old(self)), *final(self), t), // [A03]
        r matches Ok(t) ==> tok_col(st0(*old(self)), *final(self), t), // [A04]
        r matches Ok(t) ==> text_rule(t), // [A10]
        final(self).expecting_tag_end == old(self).expecting_tag_end, // [A13]
        r matches Ok(t) ==> stack_is(t, old(self).file_stack@),
//! contract Scanner::handle_inline_formatting
    requires
        old(self).mid(), is_char_boundary(old(self).b(), old(self).current as int), 0 < c as u32, (c as u32) < 128,
        !is_tag(constrained), !is_tag(unconstrained),
    ensures
        final(self).frame(&*old(self)), final(self).btw(), final(self).current > old(self).start, // [A01 +]
        r matches Ok(t) ==> tok_lossless(st0(*old(self)), *final(self), t), // [A02]
        r matches Ok(t) ==> tok_line(st0(*old(self)), *final(self), t), // [A03]
        r matches Ok(t) ==> tok_col(st0(*old(self)), *final(self), t), // [A04]
        r matches Ok(t) ==> text_rule(t), // [A10]
        final(self).expecting_tag_end == old(self).expecting_tag_end, // [A13]
        r matches Ok(t) ==> stack_is(t, old(self).file_stack@),
//! contract Scanner::starts_repeated_char_line
    requires self.mid(), 2 <= delimiter_len <= 64, 0 < c as u32, (c as u32) < 128,
    ensures
        r == dline(self.b(), self.current as int, c, delimiter_len as int),
        r ==> is_char_boundary(self.b(), self.current + delimiter_len - 1),
//! contract Scanner::starts_end_tag_line
    requires old(self).mid(),
    ensures
        *final(self) == *old(self),
        r ==> old(self).expecting_tag_end,
        r && no_nl(old(self).b(), old(self).start as int, old(self).current as int) ==> tag_line(old(self).b(), old(self).start as int),
//! hint Scanner::starts_end_tag_line start
    proof { lemma_tag_line(self.b(), self.start as int, self.current as int); }
//! contract Scanner::starts_attr
    requires old(self).mid(),
    ensures
        *final(self) == *old(self),
        r == (peekc(old(self).b(), to_sep(old(self).b(), old(self).current as int)) == ':'),
//! loop Scanner::starts_attr 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            to_sep(self.b(), self.current as int) == to_sep(self.b(), old(self).current as int),
        decreases self.n() - self.current,
//! contract Scanner::starts_text_symbol_replace_parens
    requires old(self).mid(),
    ensures
        *final(self) == *old(self),
        r == (ahead_is(old(self).b(), old(self).current as int, "C)"@) || ahead_is(old(self).b(), old(self).current as int, "R)"@)
            || ahead_is(old(self).b(), old(self).current as int, "TM)"@)),
//! contract Scanner::starts_text_symbol_replace_emdash
    requires old(self).mid(),
    ensures
        *final(self) == *old(self),
        r == (peekc(old(self).b(), old(self).current as int) == '-' && dash_after(old(self).b(), old(self).current + 1)),
//! hint Scanner::starts_text_symbol_replace_emdash start
    proof { lemma_dash(self.b(), self.current as int); }
//! contract Scanner::starts_charref
    requires old(self).mid(),
    ensures
        *final(self) == *old(self),
        r == (peekc(old(self).b(), skip_alnum(old(self).b(), old(self).current as int, false)) == ';'),
//! loop Scanner::starts_charref 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            skip_alnum(self.b(), self.current as int, false) == skip_alnum(self.b(), old(self).current as int, false),
        decreases self.n() - self.current,
//! contract Scanner::starts_attribute_reference
    requires old(self).mid(),
    ensures
        *final(self) == *old(self),
        r == (peekc(old(self).b(), skip_alnum(old(self).b(), old(self).current as int, true)) == '}'),
//! loop Scanner::starts_attribute_reference 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            skip_alnum(self.b(), self.current as int, true) == skip_alnum(self.b(), old(self).current as int, true),
        decreases self.n() - self.current,
//! contract Scanner::starts_attribution_line
    requires old(self).mid(),
    ensures
        final(self).mid(), final(self).same(&*old(self)),
        r == (at_bol(old(self).b(), old(self).start as int) && ch(old(self).b(), eol(old(self).b(), old(self).current as int) - 1) == ']'), // [A08 A09]
        r ==> final(self).current == eol(old(self).b(), old(self).current as int), // [A08 A09]
        r ==> is_char_boundary(final(self).b(), final(self).current as int) && at_bol(final(self).b(), final(self).start as int)
            && final(self).b()[final(self).current - 1] == ']' as u8 && final(self).current >= old(self).current,
        !r ==> final(self).current == old(self).current,
//! loop Scanner::starts_attribution_line 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            find(self.b(), self.current as int, '\n') == find(self.b(), old(self).current as int, '\n'),
        decreases self.n() - self.current,
//! contract Scanner::starts_code_callout_list_item
    requires old(self).mid(),
    ensures
        final(self).mid(), final(self).same(&*old(self)), final(self).current >= old(self).current,
        r == ({ let q = skip_digits(old(self).b(), old(self).current as int); peekc(old(self).b(), q) == '>' && peekc(old(self).b(), q + 1) == ' ' }),
        r ==> peekc(final(self).b(), final(self).current as int) == ' ' && final(self).current == skip_digits(old(self).b(), old(self).current as int) + 1,
        !r ==> final(self).current == old(self).current,
//! loop Scanner::starts_code_callout_list_item 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            skip_digits(self.b(), self.current as int) == skip_digits(self.b(), old(self).current as int),
        decreases self.n() - self.current,
//! contract Scanner::starts_code_callout
    requires old(self).mid(),
    ensures
        final(self).mid(), final(self).same(&*old(self)), final(self).current >= old(self).current,
        r == ({ let q = skip_digits(old(self).b(), old(self).current as int); peekc(old(self).b(), q) == '>' && peekc(old(self).b(), q + 1) == '\n' }),
        r ==> peekc(final(self).b(), final(self).current as int) == '\n' && final(self).current == skip_digits(old(self).b(), old(self).current as int) + 1,
//! loop Scanner::starts_code_callout 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            skip_digits(self.b(), self.current as int) == skip_digits(self.b(), old(self).current as int),
        decreases self.n() - self.current,
//! contract Scanner::handle_text_symbol_replacement_parens
    requires
        old(self).mid(),
        paren_ahead(old(self).b(), old(self).current as int),
    ensures
        final(self).frame(&*old(self)), final(self).btw(), final(self).current > old(self).start, // [A01 +]
        r matches Ok(t) ==> tok_lossless(st0(*old(self)), *final(self), t), // [A02]
        r matches Ok(t) ==> tok_line(st0(*old(self)), *final(self), t), // [A03]
        r matches Ok(t) ==> tok_col(st0(*old(self)), *final(self), t), // [A04]
        r matches Ok(t) ==> text_rule(t), // [A10]
        final(self).expecting_tag_end == old(self).expecting_tag_end, // [A13]
        r matches Ok(t) ==> stack_is(t, old(self).file_stack@),
//! hint Scanner::handle_text_symbol_replacement_parens start
    proof { reveal(paren_ahead); }
    let ghost q0 = choose|q: int| self.current <= q && peekc(self.b(), q) == ')';
//! loop Scanner::handle_text_symbol_replacement_parens 0
        invariant
            self.same(&*old(self)), self.mid(),
            self.current <= q0, peekc(self.b(), q0) == ')',
            find(self.b(), self.current as int, ')') == find(self.b(), old(self).current as int, ')'),
        decreases self.n() - self.current,
//! contract Scanner::add_tag
    requires
        old(self).mid(), no_nl(old(self).b(), old(self).start as int, old(self).current as int),
        !old(self).expecting_tag_end ==> is_directive(old(self).b(), old(self).start as int),
        tag_line(old(self).b(), old(self).start as int),
    ensures
        final(self).frame(&*old(self)), final(self).btw(), final(self).current > old(self).start, // [A01 +]
        r matches Ok(t) ==> tok_lossless(st0(*old(self)), *final(self), t), // [A02]
        r matches Ok(t) ==> tok_line(st0(*old(self)), *final(self), t), // [A03]
        r matches Ok(t) ==> tok_col(st0(*old(self)), *final(self), t), // [A04]
        r matches Ok(t) ==> text_rule(t), // [A10]
        r matches Ok(t) ==> stack_is(t, old(self).file_stack@),
//! hint Scanner::add_tag before-call starts_with
    proof { reveal_strlit("tag::"); reveal_strlit("end::"); lemma_tag_prefix(self.b(), self.start as int, self.current as int); }
//! hint Scanner::add_tag start
    proof {
        lemma_tag_prefix(self.b(), self.start as int, self.current as int); lemma_directive_ahead(self.b(), self.start as int);
        reveal_with_fuel(to_close, 2);
        reveal(tok_lossless); reveal(tok_line); reveal(tok_col); reveal(tag_line);
        lemma_tag_pos(self.b());
    }
    let ghost q0 = if self.expecting_tag_end {
        choose|q: int| self.start <= q && is_directive(self.b(), q) && no_nl(self.b(), self.start as int, q)
    } else { self.start as int };
//! loop Scanner::add_tag 0
        invariant
            self.same(&*old(self)), old(self).mid(), self.expecting_tag_end,
            old(self).start <= self.current <= q0, is_directive(self.b(), q0), no_nl(self.b(), self.start as int, q0),
            is_directive(self.b(), self.start as int) ==> self.current == self.start, // [A13]
        decreases self.n() - self.current,
//! loop Scanner::add_tag 1
        invariant
            self.frame(&*old(self)), self.line == old(self).line, self.expecting_tag_end == old(self).expecting_tag_end, old(self).mid(),
            old(self).start <= self.start <= self.current <= self.n(),
            is_directive(self.b(), self.start as int), no_nl(self.b(), old(self).start as int, self.current as int),
            self.startcol == old(self).startcol + (self.start - old(self).start),
            old(self).current == old(self).start + 1 && is_directive(self.b(), old(self).start as int) ==> self.start == old(self).start && to_close(self.b(), self.current as int) == to_close(self.b(), old(self).start + 5), // [A13]
        decreases self.n() - self.current,
//! loop Scanner::add_tag 2
        invariant
            self.frame(&*old(self)), old(self).mid(), self.line == old(self).line,
            old(self).start <= self.start < self.current <= self.n(),
            result matches Ok(t) && text_is(self.b(), t, self.start as int, self.start + encode_utf8(t.lexeme@).len())
                && self.start + encode_utf8(t.lexeme@).len() <= self.current,
            result matches Ok(t) && (if self.expecting_tag_end { t.token_type == TokenType::StartTag && ahead_is(self.b(), self.start as int, "tag::"@) } else { t.token_type == TokenType::EndTag && ahead_is(self.b(), self.start as int, "end::"@) }), // [A13]
            result matches Ok(t) && (old(self).current == old(self).start + 1 && is_directive(self.b(), old(self).start as int) ==> self.start == old(self).start && encode_utf8(t.lexeme@) == self.b().subrange(old(self).start as int, to_close(self.b(), old(self).start + 5) + 1)), // [A13]
            result matches Ok(t) && (old(self).current == old(self).start + 1 && is_directive(self.b(), old(self).start as int) ==> peekc(self.b(), to_close(self.b(), old(self).start + 5)) == ']'), // [A13]
            no_nl(self.b(), old(self).start as int, self.current as int),
            1 <= self.startcol <= self.current + 1,
        decreases self.n() - self.current,
//! contract Scanner::add_heading
    requires
        old(self).mid(), old(self).current == old(self).start + 1, old(self).b()[old(self).start as int] == '=' as u8,
        at_bol(old(self).b(), old(self).start as int),
    ensures
        final(self).frame(&*old(self)), final(self).btw(), final(self).current > old(self).start, // [A01 +]
        r matches Ok(t) ==> tok_lossless(st0(*old(self)), *final(self), t), // [A02]
        r matches Ok(t) ==> tok_line(st0(*old(self)), *final(self), t), // [A03]
        r matches Ok(t) ==> tok_col(st0(*old(self)), *final(self), t), // [A04]
        r matches Ok(t) ==> text_rule(t), // [A10]
        final(self).expecting_tag_end == old(self).expecting_tag_end, // [A13]
        r matches Ok(t) ==> stack_is(t, old(self).file_stack@),
        heading_rule(Scanner { expecting_tag_end: false, ..*old(self) }, *final(self), r), // [A05]
        r matches Ok(t) ==> hlevel(t.token_type) > 0 || t.token_type == TokenType::Text,
        r matches Ok(t) ==> (t.token_type == TokenType::Text ==> no_fmt(old(self).b(), old(self).start + 1, final(self).current as int)), // [A11]
        r matches Err(e) ==> e is HeadingLevelError && head_at(old(self).b(), old(self).start as int) > 5,
    decreases old(self).n() - old(self).current
//! loop Scanner::add_heading 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            eq_run(self.b(), self.start as int) == self.current - self.start + eq_run(self.b(), self.current as int),
        decreases self.n() - self.current,
//! also Scanner::add_block_image
        r matches Ok(t) && (t.token_type == TokenType::BlockImageMacro || t.token_type == TokenType::Text),
        r matches Ok(t) ==> (t.token_type == TokenType::BlockImageMacro <==> find(old(self).b(), old(self).current as int, ']') < old(self).n()), // [A08 A09]
        r matches Ok(t) ==> (t.token_type == TokenType::BlockImageMacro ==> final(self).current == find(old(self).b(), old(self).current as int, ']') + 1), // [A08 A09]
        r matches Ok(t) ==> (t.token_type == TokenType::Text ==> no_fmt(old(self).b(), old(self).start + 1, final(self).current as int)), // [A11]
//! loop Scanner::add_block_image 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            find(self.b(), self.current as int, ']') == find(self.b(), old(self).current as int, ']'),
        decreases self.n() - self.current,
//! also Scanner::add_inline_image
        r matches Ok(t) && (t.token_type == TokenType::InlineImageMacro || t.token_type == TokenType::Text),
        r matches Ok(t) ==> (t.token_type == TokenType::InlineImageMacro <==> find(old(self).b(), old(self).current as int, ']') < old(self).n()), // [A08 A09]
        r matches Ok(t) ==> (t.token_type == TokenType::InlineImageMacro ==> final(self).current == find(old(self).b(), old(self).current as int, ']') + 1), // [A08 A09]
        r matches Ok(t) ==> (t.token_type == TokenType::Text ==> no_fmt(old(self).b(), old(self).start + 1, final(self).current as int)), // [A11]
//! loop Scanner::add_inline_image 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            find(self.b(), self.current as int, ']') == find(self.b(), old(self).current as int, ']'),
        decreases self.n() - self.current,
//! also Scanner::add_include
        r matches Ok(t) && (t.token_type == TokenType::Include || t.token_type == TokenType::Text),
        r matches Ok(t) ==> (t.token_type == TokenType::Include <==> find(old(self).b(), old(self).current as int, ']') < old(self).n()), // [A08 A09]
        r matches Ok(t) ==> (t.token_type == TokenType::Include ==> final(self).current == find(old(self).b(), old(self).current as int, ']') + 1), // [A08 A09]
        r matches Ok(t) ==> (t.token_type == TokenType::Text ==> no_fmt(old(self).b(), old(self).start + 1, final(self).current as int)), // [A11]
//! loop Scanner::add_include 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            find(self.b(), self.current as int, ']') == find(self.b(), old(self).current as int, ']'),
        decreases self.n() - self.current,
//! loop Scanner::add_table_cell 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            cell_end(self.b(), self.current as int) == cell_end(self.b(), old(self).current as int), // [A12]
        decreases self.n() - self.current,
//! also Scanner::add_table_cell
        final(self).current == cell_end(old(self).b(), old(self).current as int), // [A12]
        r matches Ok(t) && t.token_type == TokenType::TableCell,
//! also Scanner::add_link
        r matches Ok(t) && (t.token_type == TokenType::LinkMacro || t.token_type == TokenType::Hyperlink),
//! also Scanner::add_inline_style
        r matches Ok(t) && (t.token_type == TokenType::InlineStyle || t.token_type == TokenType::Text),
        r matches Ok(t) ==> (t.token_type == TokenType::InlineStyle <==> find(old(self).b(), old(self).current as int, ']') < old(self).n()), // [A08 A09]
        r matches Ok(t) ==> (t.token_type == TokenType::InlineStyle ==> final(self).current == find(old(self).b(), old(self).current as int, ']') + 1), // [A08 A09]
        r matches Ok(t) ==> (t.token_type == TokenType::Text ==> no_fmt(old(self).b(), old(self).start + 1, final(self).current as int)), // [A11]
//! loop Scanner::add_inline_style 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            find(self.b(), self.current as int, ']') == find(self.b(), old(self).current as int, ']'),
        decreases self.n() - self.current,
//! loop Scanner::add_cross_reference 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            find2(self.b(), self.current as int, ">>"@) == find2(self.b(), old(self).current as int, ">>"@), // [A12]
        decreases self.n() - self.current,
//! loop Scanner::add_block_anchor 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            find2(self.b(), self.current as int, "]]\n"@) == find2(self.b(), old(self).current as int, "]]\n"@), // [A12]
        decreases self.n() - self.current,
//! also Scanner::add_cross_reference
        find2(old(self).b(), old(self).current as int, ">>"@) < old(self).n() ==> (r matches Ok(t) && final(self).current == find2(old(self).b(), old(self).current as int, ">>"@) + 2 && t.token_type == if spaced(t) { TokenType::Text } else { TokenType::CrossReference }), // [A12]
        find2(old(self).b(), old(self).current as int, ">>"@) >= old(self).n() ==> (r matches Ok(t) && t.token_type == TokenType::Text), // [A12]
        r matches Ok(t) && (t.token_type == TokenType::CrossReference || t.token_type == TokenType::Text),
//! also Scanner::add_block_anchor
        find2(old(self).b(), old(self).current as int, "]]\n"@) < old(self).n() ==> (r matches Ok(t) && final(self).current == find2(old(self).b(), old(self).current as int, "]]\n"@) + 2 && t.token_type == if spaced(t) { TokenType::Text } else { TokenType::BlockAnchor }), // [A12]
        find2(old(self).b(), old(self).current as int, "]]\n"@) >= old(self).n() ==> (r matches Ok(t) && t.token_type == TokenType::Text), // [A12]
        r matches Ok(t) && (t.token_type == TokenType::BlockAnchor || t.token_type == TokenType::Text),
//! also Scanner::add_unterminated_as_text
        r matches Ok(t) && t.token_type == TokenType::Text,
        no_fmt(old(self).b(), old(self).start + 1, final(self).current as int), // [A11]
//! also Scanner::add_text_until_next_markup
        r matches Ok(t) && t.token_type == TokenType::Text,
        no_fmt(old(self).b(), old(self).current as int, final(self).current as int), // [A11]
//! loop Scanner::add_text_until_next_markup 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current <= self.current,
            no_fmt(old(self).b(), old(self).current as int, self.current as int), // [A11]
        decreases self.n() - self.current,
//! also Scanner::add_tag
        old(self).current == old(self).start + 1 ==> tag_rule(*old(self), *final(self), r), // [A13]
        r matches Ok(t) ==> t.token_type == TokenType::StartTag || t.token_type == TokenType::EndTag || t.token_type == TokenType::Text,
        r matches Ok(t) ==> (t.token_type == TokenType::Text ==> no_fmt(old(self).b(), old(self).start + 1, final(self).current as int)), // [A11]
        r matches Err(e) ==> e is TagError,
//! also Scanner::add_list_item
        list_item_token != TokenType::BlockAnchor && list_item_token != TokenType::CrossReference ==> (r matches Ok(t) && t.token_type == list_item_token),
        final(self).current == old(self).current + 1,
//! also Scanner::handle_inline_formatting
        r matches Ok(t) && (t.token_type == constrained || t.token_type == unconstrained || t.token_type == TokenType::Text),
        old(self).current == old(self).start + 1 && c == ch(old(self).b(), old(self).start as int) && fmt_plain(constrained) && fmt_plain(unconstrained) ==> // [A11]
            fmt_rule(*old(self), *final(self), r, constrained, unconstrained), // [A11]
//! hint Scanner::handle_inline_formatting before-call contains
    proof { lemma_fmt_sets(end_of_inline_markers@, beginning_of_inline_markers@); } // [A11]
//! also Scanner::handle_text_symbol_replacement_parens
        r matches Ok(t) && t.token_type == TokenType::CharRef,
        final(self).current == find(old(self).b(), old(self).current as int, ')') + 1,
//! also Scanner::scan_token
        ref_rule(*old(self), *final(self), r), // [A12]
        tag_rule(*old(self), *final(self), r), // [A13]
        heading_rule(*old(self), *final(self), r), // [A05]
        mark_rule(*old(self), *final(self), r), // [A06]
        item_rule(*old(self), *final(self), r), // [A07]
        line_rule(*old(self), *final(self), r), // [A08]
        macro_rule(*old(self), *final(self), r), // [A09]
        repl_rule(*old(self), *final(self), r), // [A10]
        r matches Ok(t) ==> text_rule(t), // [A10]
        fmark_rule(*old(self), *final(self), r), // [A11]
//! also Scanner::Iterator.next
        old(self).current < old(self).n() ==> (r matches Some(x) && ref_rule(Scanner { start: old(self).current, ..*old(self) }, *final(self), x)), // [A12]
        old(self).current < old(self).n() ==> (r matches Some(x) && tag_rule(Scanner { start: old(self).current, ..*old(self) }, *final(self), x)), // [A13]
        old(self).current < old(self).n() ==> (r matches Some(x) && heading_rule(Scanner { start: old(self).current, ..*old(self) }, *final(self), x)), // [A05]
        old(self).current < old(self).n() ==> (r matches Some(x) && mark_rule(Scanner { start: old(self).current, ..*old(self) }, *final(self), x)), // [A06]
        old(self).current < old(self).n() ==> (r matches Some(x) && item_rule(Scanner { start: old(self).current, ..*old(self) }, *final(self), x)), // [A07]
        old(self).current < old(self).n() ==> (r matches Some(x) && line_rule(Scanner { start: old(self).current, ..*old(self) }, *final(self), x)), // [A08]
        old(self).current < old(self).n() ==> (r matches Some(x) && macro_rule(Scanner { start: old(self).current, ..*old(self) }, *final(self), x)), // [A09]
        old(self).current < old(self).n() ==> (r matches Some(x) && repl_rule(Scanner { start: old(self).current, ..*old(self) }, *final(self), x)), // [A10]
        old(self).current < old(self).n() ==> (r matches Some(x) && (x matches Ok(t) ==> text_rule(t))), // [A10]
        old(self).current < old(self).n() ==> (r matches Some(x) && fmark_rule(Scanner { start: old(self).current, ..*old(self) }, *final(self), x)), // [A11]
//! hint Scanner::starts_repeated_char_line start
    proof { lemma_rep_line(self.b(), self.current as int, c, delimiter_len as int); }
//! hint Scanner::scan_token start
    broadcast use str_ext;
    proof { lemma_dispatch(self.b(), self.start as int); lemma_marks(self.b(), self.start as int); lemma_labels(self.b(), self.start as int); }
//! loop Scanner::scan_token 0
        invariant
            self.same(&*old(self)), self.mid(), old(self).current < self.current,
            find(self.b(), self.current as int, '\n') == find(self.b(), old(self).current + 1, '\n'),
        decreases self.n() - self.current,
//! loop Scanner::scan_token 1
        invariant
            self.same(&*old(self)), self.mid(), old(self).current < self.current,
            find(self.b(), self.current as int, '\n') == find(self.b(), old(self).current + 1, '\n'),
        decreases self.n() - self.current,
//! loop Scanner::scan_token 2
        invariant
            self.same(&*old(self)), self.mid(), old(self).current < self.current,
            skip_alnum(self.b(), self.current as int, false) == skip_alnum(self.b(), old(self).current + 1, false),
        decreases self.n() - self.current,
//! loop Scanner::scan_token 3
        invariant
            self.same(&*old(self)), self.mid(), old(self).current < self.current,
            skip_alnum(self.b(), self.current as int, true) == skip_alnum(self.b(), old(self).current + 1, true),
        decreases self.n() - self.current,
