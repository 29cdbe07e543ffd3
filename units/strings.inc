//! header
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, non_snake_case)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::std_specs::cmp::*;

//! raw
// the target is 64-bit
global size_of usize == 8;
// ---------------------------------------------------------------- strings (trusted std facts)
trait StrView {
    spec fn sv(&self) -> Seq<char>;
}
impl StrView for str { spec fn sv(&self) -> Seq<char> { self@ } }
impl StrView for &str { spec fn sv(&self) -> Seq<char> { (*self)@ } }
impl StrView for String { spec fn sv(&self) -> Seq<char> { self@ } }
impl StrView for &String { spec fn sv(&self) -> Seq<char> { (*self)@ } }
impl StrView for &&str { spec fn sv(&self) -> Seq<char> { (**self)@ } }

// plain equality, kept as a named function so that it can be used as a trigger
spec fn str_eq(a: Seq<char>, b: Seq<char>) -> bool { a == b }

// std: string comparison compares contents
#[verifier::external_body]
fn sh_str_eq<A: StrView + ?Sized, B: StrView + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == str_eq(a.sv(), b.sv())
{ unimplemented!() }

// std: <[&str]>::contains
#[verifier::external_body]
fn sh_contains_str<const N: usize>(a: &[&str; N], x: &&str) -> (r: bool)
    ensures
        r == (exists|i: int| 0 <= i < N && #[trigger] str_eq(x@, a@[i]@)),
        // consequences of the line above, spelled out for the sizes in use
        N == 1 ==> r == str_eq(x@, a@[0]@),
        N == 2 ==> r == (str_eq(x@, a@[0]@) || str_eq(x@, a@[1]@)),
        N == 3 ==> r == (str_eq(x@, a@[0]@) || str_eq(x@, a@[1]@) || str_eq(x@, a@[2]@)),
{ unimplemented!() }

// std: <[char]>::contains on an array literal
#[verifier::external_body]
fn sh_contains_chars<const N: usize>(a: &[char; N], x: &char) -> (r: bool)
    ensures
        r == (exists|i: int| 0 <= i < N && #[trigger] a@[i] == *x),
        // consequences of the line above, spelled out for the small sizes in use
        N == 1 ==> r == (*x == a@[0]),
        N == 2 ==> r == (*x == a@[0] || *x == a@[1]),
        N == 3 ==> r == (*x == a@[0] || *x == a@[1] || *x == a@[2]),
{ unimplemented!() }

// std: str::contains(char)
#[verifier::external_body]
fn sh_str_has_char<A: StrView + ?Sized>(s: &A, c: char) -> (r: bool)
    ensures r == s.sv().contains(c)
{ unimplemented!() }

// std: <[char]>::contains
#[verifier::external_body]
fn sh_contains_char(a: &[char], x: &char) -> (r: bool)
    ensures r == a@.contains(*x)
{ unimplemented!() }

spec fn has_sub(s: Seq<char>, p: Seq<char>, i: int) -> bool {
    0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p
}
// std: str::contains(&str)
#[verifier::external_body]
fn sh_str_contains(s: &str, p: &str) -> (r: bool)
    ensures r == (exists|i: int| #[trigger] has_sub(s@, p@, i))
{ unimplemented!() }

// std: str::starts_with(&str)
#[verifier::external_body]
fn sh_starts_with(s: &str, p: &str) -> (r: bool)
    ensures r == (p@.len() <= s@.len() && s@.subrange(0, p@.len() as int) == p@)
{ unimplemented!() }

// std: Chars::last
#[verifier::external_body]
fn sh_chars_last(c: core::str::Chars<'_>) -> (r: Option<char>)
    ensures
        vstd::std_specs::iter::IteratorSpec::remaining(&c).len() == 0 ==> r is None,
        vstd::std_specs::iter::IteratorSpec::remaining(&c).len() > 0 ==> r == Some(vstd::std_specs::iter::IteratorSpec::remaining(&c).last()),
{ unimplemented!() }

// std: String::from(char), str::repeat
#[verifier::external_body]
fn sh_string_from_char(c: char) -> (r: String)
    ensures r@ == seq![c]
{ unimplemented!() }
spec fn rep(s: Seq<char>, n: nat) -> Seq<char> decreases n {
    if n == 0 { Seq::empty() } else { rep(s, (n - 1) as nat) + s }
}
#[verifier::external_body]
fn sh_repeat<A: StrView + ?Sized>(s: &A, n: usize) -> (r: String)
    ensures r@ == rep(s.sv(), n as nat)
{ unimplemented!() }

// std: char classification (ASCII as documented, uninterpreted beyond)
pub uninterp spec fn is_alnum_beyond(c: char) -> bool;
pub open spec fn is_alnum(c: char) -> bool {
    ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || (c as u32 >= 128 && is_alnum_beyond(c))
}
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool)
    ensures r == is_alnum(c);
pub open spec fn is_digit_c(c: char) -> bool { '0' <= c && c <= '9' }
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool)
    ensures r == is_digit_c(*c);
pub open spec fn is_punct_c(c: char) -> bool {
    ('!' <= c && c <= '/') || (':' <= c && c <= '@') || ('[' <= c && c <= '`') || ('{' <= c && c <= '~')
}
pub assume_specification[ char::is_ascii_punctuation ](c: &char) -> (r: bool)
    ensures r == is_punct_c(*c);

// std: slicing a str by bytes (panics unless both ends are character boundaries in range)
#[verifier::external_body]
fn sh_slice<'a>(s: &'a str, i: usize, j: usize) -> (r: &'a str)
    requires i <= j <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), i as int), is_char_boundary(s.spec_bytes(), j as int)
    ensures r.spec_bytes() == s.spec_bytes().subrange(i as int, j as int)
{ unimplemented!() }
#[verifier::external_body]
fn sh_slice_from<'a>(s: &'a str, i: usize) -> (r: &'a str)
    requires i <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), i as int)
    ensures r.spec_bytes() == s.spec_bytes().subrange(i as int, s.spec_bytes().len() as int)
{ unimplemented!() }
#[verifier::external_body]
fn sh_slice_to<'a>(s: &'a str, j: usize) -> (r: &'a str)
    requires j <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), j as int)
    ensures r.spec_bytes() == s.spec_bytes().subrange(0, j as int)
{ unimplemented!() }

// std: a str is its characters
#[verifier::external_body]
broadcast proof fn str_ext(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b
{}
// std: From<&str> for String
#[verifier::external_body]
fn sh_into_string(a: &str) -> (r: String)
    ensures r@ == a@
{ unimplemented!() }

// a panicking call: reaching it is an obligation failure
#[verifier::external_body]
fn vpanic<T>() -> (r: T)
    requires false
{ unimplemented!() }

// stands for the arms of a `match` that are verified in another copy of the function
#[verifier::external_body]
fn vother_arm<T>() -> (r: T)
    ensures false
{ unimplemented!() }

// opaque text produced by format!
#[verifier::external_body]
fn vformat() -> (r: String)
{ unimplemented!() }

// ---------------------------------------------------------------- bytes and boundaries (proved)
spec fn peekc(b: Seq<u8>, i: int) -> char {
    if 0 <= i < b.len() && is_char_boundary(b, i) { b[i] as char } else { '\0' }
}

spec fn all_ascii(s: Seq<char>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k] as u32) < 128
}

// s is n ASCII characters, not starting with NUL
#[verifier::opaque]
spec fn asc(s: Seq<char>, n: int) -> bool { all_ascii(s) && s.len() == n && n > 0 && s[0] != '\0' }

// `s` (ASCII) is what the bytes spell from position i on
#[verifier::opaque]
spec fn ahead_is(b: Seq<u8>, i: int, s: Seq<char>) -> bool {
    &&& 0 <= i && i + s.len() <= b.len()
    &&& forall|k: int| 0 <= k < s.len() ==> b[i + k] == (#[trigger] s[k]) as u8
}

spec fn str_bytes(b: Seq<u8>) -> bool { valid_utf8(b) }

broadcast proof fn spec_bytes_valid(s: &str)
    ensures #[trigger] str_bytes(s.spec_bytes())
{
    encode_utf8_valid_utf8(s@);
}

proof fn lemma_ascii_bnd(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 128
    ensures is_char_boundary(b, i), is_char_boundary(b, i + 1)
    decreases b.len()
{
    is_char_boundary_iff_not_is_continuation_byte(b, i);
    reveal_with_fuel(is_char_boundary, 3);
    reveal_with_fuel(valid_utf8, 2);
    if i == 0 {
        assert(length_of_first_scalar(b) == 1);
        assert(is_char_boundary(pop_first_scalar(b), 0));
    } else {
        let b1 = pop_first_scalar(b);
        let n = length_of_first_scalar(b);
        assert(b1 =~= b.subrange(n as int, b.len() as int));
        assert(n <= i);
        lemma_ascii_bnd(b1, i - n);
    }
}
broadcast proof fn bnd_ends(b: Seq<u8>)
    requires str_bytes(b)
    ensures #![trigger str_bytes(b)] is_char_boundary(b, 0), is_char_boundary(b, b.len() as int)
{
    is_char_boundary_start_end_of_seq(b);
}
broadcast proof fn bnd_after_peek(b: Seq<u8>, i: int)
    requires str_bytes(b), 0 < (#[trigger] peekc(b, i)) as u32, (peekc(b, i) as u32) < 128
    ensures is_char_boundary(b, i + 1)
{
    lemma_ascii_bnd(b, i);
}
broadcast proof fn peek_ascii(b: Seq<u8>, i: int)
    requires str_bytes(b), 0 <= i < b.len(), b[i] < 128
    ensures #[trigger] peekc(b, i) == b[i] as char
{
    lemma_ascii_bnd(b, i);
}
broadcast proof fn bnd_after_ahead(b: Seq<u8>, i: int, s: Seq<char>, n: int)
    requires str_bytes(b), #[trigger] asc(s, n), #[trigger] ahead_is(b, i, s)
    ensures 0 <= i, i + n <= b.len(), forall|k: int| i <= k <= i + n ==> #[trigger] is_char_boundary(b, k)
{
    reveal(ahead_is); reveal(asc);
    assert forall|k: int| i <= k <= i + s.len() implies #[trigger] is_char_boundary(b, k) by {
        if k < i + s.len() {
            assert((s[k - i] as u32) < 128);
            assert(b[i + (k - i)] == s[k - i] as u8);
            lemma_ascii_bnd(b, k);
        } else {
            assert((s[k - 1 - i] as u32) < 128);
            assert(b[i + (k - 1 - i)] == s[k - 1 - i] as u8);
            lemma_ascii_bnd(b, k - 1);
        }
    }
}
proof fn lemma_ascii_bytes(a: Seq<char>)
    requires all_ascii(a)
    ensures encode_utf8(a).len() == a.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] encode_utf8(a)[k] == a[k] as u8
{
    assert(is_ascii_chars(a));
    is_ascii_chars_encode_utf8(a);
}
// a slice of the source equals an ASCII text iff the bytes there spell it
proof fn lemma_slice_is(b: Seq<u8>, i: int, n: int, r: Seq<char>, s: Seq<char>)
    requires 0 <= i, 0 <= n, i + n <= b.len(), encode_utf8(r) == b.subrange(i, i + n), all_ascii(s)
    ensures r == s <==> (s.len() == n && ahead_is(b, i, s))
{
    reveal(ahead_is);
    lemma_ascii_bytes(s);
    if r == s {
        assert forall|k: int| 0 <= k < s.len() implies b[i + k] == (#[trigger] s[k]) as u8 by {
            assert(b.subrange(i, i + n)[k] == encode_utf8(s)[k]);
        }
    }
    if s.len() == n && ahead_is(b, i, s) {
        assert forall|k: int| 0 <= k < n implies encode_utf8(s)[k] == b.subrange(i, i + n)[k] by {
            assert(b[i + k] == s[k] as u8);
        }
        assert(encode_utf8(s) =~= encode_utf8(r));
        encode_utf8_decode_utf8(s);
        encode_utf8_decode_utf8(r);
    }
}
// the last byte of a text is a newline iff its last character is
proof fn lemma_last_newline(s: Seq<char>)
    requires s.len() > 0
    ensures encode_utf8(s).len() > 0, encode_utf8(s).last() == 10u8 <==> s.last() == '\n'
{
    let a = s.drop_last();
    let z = seq![s.last()];
    assert(s =~= a + z);
    encode_utf8_concat(a, z);
    let e = encode_utf8(z);
    encode_utf8_valid_utf8(z);
    lemma_one_char(s.last());
    assert(encode_utf8(s).last() == e.last());
}
proof fn lemma_one_char(c: char)
    ensures encode_utf8(seq![c]).len() > 0, encode_utf8(seq![c]).last() == 10u8 <==> c == '\n'
{
    let z = seq![c];
    let e = encode_utf8(z);
    if (c as u32) < 128 {
        assert(all_ascii(z));
        lemma_ascii_bytes(z);
        assert(e[0] == c as u8);
    } else {
        encode_utf8_valid_utf8(z);
        encode_utf8_decode_utf8(z);
        if e.len() == 0 {
            assert(e =~= Seq::empty());
            let y = Seq::<char>::empty();
            assert(all_ascii(y));
            lemma_ascii_bytes(y);
            assert(encode_utf8(y) =~= e);
            encode_utf8_decode_utf8(y);
            assert(false);
        }
        if e.last() == 10u8 {
            lemma_ascii_bnd(e, e.len() - 1);
            if e.len() == 1 {
                let y = seq!['\n'];
                assert(all_ascii(y));
                lemma_ascii_bytes(y);
                assert(encode_utf8(y) =~= e);
                encode_utf8_decode_utf8(y);
                assert(y[0] == z[0]);
                assert(false);
            } else {
                let n = e.len() - 1;
                is_char_boundary_iff_is_leading_byte(e, n);
                valid_utf8_split(e, n);
                decode_utf8_split(e, n);
                let p = e.subrange(0, n);
                let q = e.subrange(n, e.len() as int);
                decode_utf8_encode_utf8(p);
                decode_utf8_encode_utf8(q);
                let y = Seq::<char>::empty();
                assert(all_ascii(y));
                lemma_ascii_bytes(y);
                if decode_utf8(p).len() == 0 {
                    assert(decode_utf8(p) =~= y);
                    assert(p.len() == 0);
                }
                if decode_utf8(q).len() == 0 {
                    assert(decode_utf8(q) =~= y);
                    assert(q.len() == 0);
                }
                assert(false);
            }
        }
    }
}
proof fn lemma_nonempty(s: Seq<char>)
    ensures encode_utf8(s).len() > 0 <==> s.len() > 0
{
    if s.len() > 0 { lemma_last_newline(s); } else {
        assert(all_ascii(s));
        lemma_ascii_bytes(s);
    }
}
