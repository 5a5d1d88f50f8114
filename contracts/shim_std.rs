// Assumed contracts of the libraries the contracts call: cosmwasm-std, cw-utils, cw-storage-plus,
// cw721, and the Rust standard library.  Nothing in this file is verified; every `external_body`
// here is listed in the evidence as trusted.

// ---------------------------------------------------------------- strings, addresses, bytes
pub struct String { pub g: Ghost<Seq<char>> }
pub struct Addr { pub g: Ghost<Seq<char>> }
pub struct Bytes { pub g: Ghost<Seq<u8>> }

pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn be64(x: u64) -> Seq<u8>;
pub uninterp spec fn num_str(x: int) -> Seq<char>;
pub uninterp spec fn dec_str(x: int) -> Seq<char>;
pub uninterp spec fn hex_hash(b: Seq<u8>) -> Seq<char>;
// Assumed: no collisions of the 256-bit digest on the inputs that occur; a u64 has a fixed-width encoding.
pub broadcast axiom fn axiom_hash_inj(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] hex_hash(a) == #[trigger] hex_hash(b) ==> a == b;
pub broadcast axiom fn axiom_be64(x: u64, y: u64) ensures (#[trigger] be64(x)).len() == 8, be64(x) == #[trigger] be64(y) ==> x == y;

pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> (r: T) { unimplemented!() } }

// Default of the derived kind: field by field
pub trait Dflt: Sized { spec fn dflt() -> Self; fn dflt_() -> (r: Self) ensures r == Self::dflt(); }
impl<T> Dflt for Option<T> { open spec fn dflt() -> Self { None } fn dflt_() -> (r: Self) { None } }
impl Dflt for bool { open spec fn dflt() -> Self { false } fn dflt_() -> (r: Self) { false } }
impl Dflt for u32 { open spec fn dflt() -> Self { 0 } fn dflt_() -> (r: Self) { 0 } }
impl Dflt for u64 { open spec fn dflt() -> Self { 0 } fn dflt_() -> (r: Self) { 0 } }
impl Dflt for String { open spec fn dflt() -> Self { String { g: Ghost(Seq::empty()) } } fn dflt_() -> (r: Self) { String { g: Ghost(Seq::empty()) } } }
impl Dflt for Uint128 { open spec fn dflt() -> Self { Uint128 { v: 0 } } fn dflt_() -> (r: Self) { Uint128 { v: 0 } } }
pub trait OptDflt<T> { fn unwrap_or_default_(self) -> (r: T); }
impl<T: Dflt> OptDflt<T> for Option<T> { fn unwrap_or_default_(self) -> (r: T) ensures r == (match self { Some(x) => x, None => T::dflt() }) { match self { Some(x) => x, None => T::dflt_() } } }

#[verifier::external_body]
pub fn abort_<T>() -> (r: T) ensures false { panic!() }
// where the function must not abort
#[verifier::external_body]
pub fn abort_x_<T>() -> (r: T) requires false { panic!() }
#[verifier::external_body]
pub fn fmt_() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn S_(s: &'static str) -> (r: &'static String) ensures r.g@ == s@ { unimplemented!() }

pub trait StrLike { spec fn str_sp(&self) -> Seq<char>; }
impl StrLike for String { open spec fn str_sp(&self) -> Seq<char> { self.g@ } }
impl StrLike for Addr { open spec fn str_sp(&self) -> Seq<char> { self.g@ } }
impl StrLike for u32 { open spec fn str_sp(&self) -> Seq<char> { num_str(*self as int) } }
impl StrLike for u64 { open spec fn str_sp(&self) -> Seq<char> { num_str(*self as int) } }
impl StrLike for u128 { open spec fn str_sp(&self) -> Seq<char> { num_str(*self as int) } }
impl StrLike for Uint128 { open spec fn str_sp(&self) -> Seq<char> { num_str(self.v as int) } }
impl StrLike for Decimal { open spec fn str_sp(&self) -> Seq<char> { dec_str(self.a as int) } }
impl<'a, T: StrLike> StrLike for &'a T { open spec fn str_sp(&self) -> Seq<char> { (**self).str_sp() } }

pub trait ToStr_: StrLike { fn to_string_(&self) -> (r: String) ensures r.g@ == self.str_sp(); }
impl<T: StrLike> ToStr_ for T { #[verifier::external_body] fn to_string_(&self) -> (r: String) { unimplemented!() } }

impl String {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &Bytes) ensures r.g@ == utf8(self.g@) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &String) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &String) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.g@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: String) ensures r.g@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from<S: StrLike>(s: S) -> (r: String) ensures r.g@ == s.str_sp() { unimplemented!() }
}
impl Addr {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &Bytes) ensures r.g@ == utf8(self.g@) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &String) ensures r.g@ == self.g@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &String) ensures r.g@ == self.g@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_string(self) -> (r: String) ensures r.g@ == self.g@ { unimplemented!() }
    #[verifier::external_body]
    pub fn unchecked<S: StrLike>(s: S) -> (r: Addr) ensures r.g@ == s.str_sp() { unimplemented!() }
}
impl Bytes {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Bytes) ensures *r == *self { unimplemented!() }
}
pub trait BeBytes { fn to_be_bytes_(&self) -> Bytes; }
impl BeBytes for u64 {
    #[verifier::external_body]
    fn to_be_bytes_(&self) -> (r: Bytes) ensures r.g@ == be64(*self) { unimplemented!() }
}
// [a, b].join("/")
pub trait JoinOp { spec fn join_sp(&self, sep: Seq<char>) -> Seq<char>; fn join_(&self, sep: &String) -> (r: String) ensures r.g@ == self.join_sp(sep.g@); }
impl JoinOp for [String; 2] {
    open spec fn join_sp(&self, sep: Seq<char>) -> Seq<char> { self@[0].g@ + sep + self@[1].g@ }
    #[verifier::external_body]
    fn join_(&self, sep: &String) -> (r: String) { unimplemented!() }
}

// ---------------------------------------------------------------- operators
pub trait EqOp<R: ?Sized> { spec fn eq_spec(&self, r: &R) -> bool; fn eq_op(&self, r: &R) -> (b: bool) ensures b == self.eq_spec(r); }
macro_rules! eq_same { ($($t:ty),*) => { $(verus! { impl EqOp<$t> for $t { open spec fn eq_spec(&self, r: &$t) -> bool { *self == *r } #[verifier::external_body] fn eq_op(&self, r: &$t) -> (b: bool) { unimplemented!() } } })* } }
eq_same!(u32, u64, u128, usize, bool, String, Addr, Uint128, Decimal, Coin, Timestamp, Expiration);
impl EqOp<Addr> for String { open spec fn eq_spec(&self, r: &Addr) -> bool { self.g@ == r.g@ } #[verifier::external_body] fn eq_op(&self, r: &Addr) -> (b: bool) { unimplemented!() } }
impl EqOp<String> for Addr { open spec fn eq_spec(&self, r: &String) -> bool { self.g@ == r.g@ } #[verifier::external_body] fn eq_op(&self, r: &String) -> (b: bool) { unimplemented!() } }
impl<'a, A: EqOp<B>, B> EqOp<&'a B> for &'a A { open spec fn eq_spec(&self, r: &&'a B) -> bool { (**self).eq_spec(*r) } #[verifier::external_body] fn eq_op(&self, r: &&'a B) -> (b: bool) { unimplemented!() } }
// mixed reference levels, as PartialEq<&str> for String and PartialEq<Addr> for &Addr allow
impl<'a> EqOp<&'a String> for String { open spec fn eq_spec(&self, r: &&'a String) -> bool { self.g@ == r.g@ } #[verifier::external_body] fn eq_op(&self, r: &&'a String) -> (b: bool) { unimplemented!() } }
impl<'a> EqOp<String> for &'a String { open spec fn eq_spec(&self, r: &String) -> bool { self.g@ == r.g@ } #[verifier::external_body] fn eq_op(&self, r: &String) -> (b: bool) { unimplemented!() } }
impl<'a> EqOp<&'a String> for Addr { open spec fn eq_spec(&self, r: &&'a String) -> bool { self.g@ == r.g@ } #[verifier::external_body] fn eq_op(&self, r: &&'a String) -> (b: bool) { unimplemented!() } }
impl<'a> EqOp<Addr> for &'a Addr { open spec fn eq_spec(&self, r: &Addr) -> bool { self.g@ == r.g@ } #[verifier::external_body] fn eq_op(&self, r: &Addr) -> (b: bool) { unimplemented!() } }
impl<'a> EqOp<&'a Addr> for Addr { open spec fn eq_spec(&self, r: &&'a Addr) -> bool { self.g@ == r.g@ } #[verifier::external_body] fn eq_op(&self, r: &&'a Addr) -> (b: bool) { unimplemented!() } }
impl<'a> EqOp<&'a Addr> for String { open spec fn eq_spec(&self, r: &&'a Addr) -> bool { self.g@ == r.g@ } #[verifier::external_body] fn eq_op(&self, r: &&'a Addr) -> (b: bool) { unimplemented!() } }
impl<A: EqOp<A>> EqOp<Option<A>> for Option<A> { open spec fn eq_spec(&self, r: &Option<A>) -> bool { match (*self, *r) { (Some(x), Some(y)) => x.eq_spec(&y), (None, None) => true, _ => false } } #[verifier::external_body] fn eq_op(&self, r: &Option<A>) -> (b: bool) { unimplemented!() } }

impl EqOp<Vec<Coin>> for Vec<Coin> { open spec fn eq_spec(&self, r: &Vec<Coin>) -> bool { self@ =~= r@ } #[verifier::external_body] fn eq_op(&self, r: &Vec<Coin>) -> (b: bool) { unimplemented!() } }
pub trait OrdOp<R: ?Sized> {
    spec fn lt_sp(&self, r: &R) -> bool;
    spec fn le_sp(&self, r: &R) -> bool;
    fn lt_op(&self, r: &R) -> (b: bool) ensures b == self.lt_sp(r);
    fn le_op(&self, r: &R) -> (b: bool) ensures b == self.le_sp(r);
    fn gt_op(&self, r: &R) -> (b: bool) ensures b == !self.le_sp(r);
    fn ge_op(&self, r: &R) -> (b: bool) ensures b == !self.lt_sp(r);
}
macro_rules! ord_same { ($($t:ty, |$a:ident, $b:ident| $lt:expr, $le:expr);*) => { $(verus! { impl OrdOp<$t> for $t {
    open spec fn lt_sp(&self, r: &$t) -> bool { let ($a, $b) = (*self, *r); $lt }
    open spec fn le_sp(&self, r: &$t) -> bool { let ($a, $b) = (*self, *r); $le }
    #[verifier::external_body] fn lt_op(&self, r: &$t) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn le_op(&self, r: &$t) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn gt_op(&self, r: &$t) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn ge_op(&self, r: &$t) -> (b: bool) { unimplemented!() }
} })* } }
ord_same!(u32, |a, b| a < b, a <= b; u64, |a, b| a < b, a <= b; u128, |a, b| a < b, a <= b; usize, |a, b| a < b, a <= b;
    Uint128, |a, b| a.v < b.v, a.v <= b.v; Decimal, |a, b| a.a < b.a, a.a <= b.a; Timestamp, |a, b| a.n < b.n, a.n <= b.n);
impl<'a, A: OrdOp<B>, B> OrdOp<&'a B> for &'a A {
    open spec fn lt_sp(&self, r: &&'a B) -> bool { (**self).lt_sp(*r) }
    open spec fn le_sp(&self, r: &&'a B) -> bool { (**self).le_sp(*r) }
    #[verifier::external_body] fn lt_op(&self, r: &&'a B) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn le_op(&self, r: &&'a B) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn gt_op(&self, r: &&'a B) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn ge_op(&self, r: &&'a B) -> (b: bool) { unimplemented!() }
}
// arithmetic aborts on overflow, underflow and division by zero (overflow-checks = true; Uint128 and
// Decimal operators panic): the contracts state the result on the non-aborting path only; the `_x` variants,
// used where a function must not abort, require that it does not
pub trait AddOp<R>: Sized { type O; spec fn add_sp(self, r: R, o: Self::O) -> bool; fn add_op(self, r: R) -> (o: Self::O) ensures self.add_sp(r, o); }
pub trait SubOp<R>: Sized { type O; spec fn sub_sp(self, r: R, o: Self::O) -> bool; spec fn sub_ok(self, r: R) -> bool; fn sub_op(self, r: R) -> (o: Self::O) ensures self.sub_sp(r, o);
    fn sub_x(self, r: R) -> (o: Self::O) requires self.sub_ok(r) ensures self.sub_sp(r, o); }
pub trait MulOp<R>: Sized { type O; spec fn mul_sp(self, r: R, o: Self::O) -> bool; fn mul_op(self, r: R) -> (o: Self::O) ensures self.mul_sp(r, o); }
pub trait DivOp<R>: Sized { type O; spec fn div_sp(self, r: R, o: Self::O) -> bool; spec fn div_ok(self, r: R) -> bool; fn div_op(self, r: R) -> (o: Self::O) ensures self.div_sp(r, o);
    fn div_x(self, r: R) -> (o: Self::O) requires self.div_ok(r) ensures self.div_sp(r, o); }
pub trait RemOp<R>: Sized { type O; spec fn rem_sp(self, r: R, o: Self::O) -> bool; spec fn rem_ok(self, r: R) -> bool; fn rem_op(self, r: R) -> (o: Self::O) ensures self.rem_sp(r, o);
    fn rem_x(self, r: R) -> (o: Self::O) requires self.rem_ok(r) ensures self.rem_sp(r, o); }
macro_rules! arith { ($($t:ty),*) => { $(verus! {
    impl AddOp<$t> for $t { type O = $t; open spec fn add_sp(self, r: $t, o: $t) -> bool { o as int == self as int + r as int } #[verifier::external_body] fn add_op(self, r: $t) -> (o: $t) { unimplemented!() } }
    impl SubOp<$t> for $t { type O = $t; open spec fn sub_sp(self, r: $t, o: $t) -> bool { o as int == self as int - r as int } open spec fn sub_ok(self, r: $t) -> bool { self >= r } #[verifier::external_body] fn sub_x(self, r: $t) -> (o: $t) { unimplemented!() } #[verifier::external_body] fn sub_op(self, r: $t) -> (o: $t) { unimplemented!() } }
    impl MulOp<$t> for $t { type O = $t; open spec fn mul_sp(self, r: $t, o: $t) -> bool { o as int == self as int * r as int } #[verifier::external_body] fn mul_op(self, r: $t) -> (o: $t) { unimplemented!() } }
    impl DivOp<$t> for $t { type O = $t; open spec fn div_sp(self, r: $t, o: $t) -> bool { r != 0 && o as int == self as int / (r as int) } open spec fn div_ok(self, r: $t) -> bool { r != 0 } #[verifier::external_body] fn div_x(self, r: $t) -> (o: $t) { unimplemented!() } #[verifier::external_body] fn div_op(self, r: $t) -> (o: $t) { unimplemented!() } }
    impl RemOp<$t> for $t { type O = $t; open spec fn rem_sp(self, r: $t, o: $t) -> bool { r != 0 && o as int == self as int % (r as int) } open spec fn rem_ok(self, r: $t) -> bool { r != 0 } #[verifier::external_body] fn rem_x(self, r: $t) -> (o: $t) { unimplemented!() } #[verifier::external_body] fn rem_op(self, r: $t) -> (o: $t) { unimplemented!() } }
})* } }
arith!(u32, u64, u128, usize);
impl AddOp<Uint128> for Uint128 { type O = Uint128; open spec fn add_sp(self, r: Uint128, o: Uint128) -> bool { o.v as int == self.v as int + r.v as int } #[verifier::external_body] fn add_op(self, r: Uint128) -> (o: Uint128) { unimplemented!() } }
impl SubOp<Uint128> for Uint128 { type O = Uint128; open spec fn sub_sp(self, r: Uint128, o: Uint128) -> bool { o.v as int == self.v as int - r.v as int } open spec fn sub_ok(self, r: Uint128) -> bool { self.v >= r.v } #[verifier::external_body] fn sub_x(self, r: Uint128) -> (o: Uint128) { unimplemented!() } #[verifier::external_body] fn sub_op(self, r: Uint128) -> (o: Uint128) { unimplemented!() } }
impl DivOp<Uint128> for Uint128 { type O = Uint128; open spec fn div_sp(self, r: Uint128, o: Uint128) -> bool { r.v != 0 && o.v as int == self.v as int / (r.v as int) } open spec fn div_ok(self, r: Uint128) -> bool { r.v != 0 } #[verifier::external_body] fn div_x(self, r: Uint128) -> (o: Uint128) { unimplemented!() } #[verifier::external_body] fn div_op(self, r: Uint128) -> (o: Uint128) { unimplemented!() } }
impl MulOp<Uint128> for Uint128 { type O = Uint128; open spec fn mul_sp(self, r: Uint128, o: Uint128) -> bool { o.v as int == self.v as int * r.v as int } #[verifier::external_body] fn mul_op(self, r: Uint128) -> (o: Uint128) { unimplemented!() } }
impl MulOp<Decimal> for Uint128 { type O = Uint128; open spec fn mul_sp(self, r: Decimal, o: Uint128) -> bool { o.v as int == mul_floor(self.v as int, r.a as int) } #[verifier::external_body] fn mul_op(self, r: Decimal) -> (o: Uint128) { unimplemented!() } }
impl MulOp<Uint128> for Decimal { type O = Uint128; open spec fn mul_sp(self, r: Uint128, o: Uint128) -> bool { o.v as int == mul_floor(r.v as int, self.a as int) } #[verifier::external_body] fn mul_op(self, r: Uint128) -> (o: Uint128) { unimplemented!() } }
impl AddOp<Decimal> for Decimal { type O = Decimal; open spec fn add_sp(self, r: Decimal, o: Decimal) -> bool { o.a as int == self.a as int + r.a as int } #[verifier::external_body] fn add_op(self, r: Decimal) -> (o: Decimal) { unimplemented!() } }
impl SubOp<Decimal> for Decimal { type O = Decimal; open spec fn sub_sp(self, r: Decimal, o: Decimal) -> bool { o.a as int == self.a as int - r.a as int } open spec fn sub_ok(self, r: Decimal) -> bool { self.a >= r.a } #[verifier::external_body] fn sub_x(self, r: Decimal) -> (o: Decimal) { unimplemented!() } #[verifier::external_body] fn sub_op(self, r: Decimal) -> (o: Decimal) { unimplemented!() } }
impl DivOp<Uint128> for Decimal { type O = Decimal; open spec fn div_sp(self, r: Uint128, o: Decimal) -> bool { r.v != 0 && o.a as int == self.a as int / (r.v as int) } open spec fn div_ok(self, r: Uint128) -> bool { r.v != 0 } #[verifier::external_body] fn div_x(self, r: Uint128) -> (o: Decimal) { unimplemented!() } #[verifier::external_body] fn div_op(self, r: Uint128) -> (o: Decimal) { unimplemented!() } }

pub trait WrapOp: Sized { fn wrapping_add_(self, r: Self) -> (o: Self); }
impl WrapOp for u64 { #[verifier::external_body] fn wrapping_add_(self, r: u64) -> (o: u64) ensures o as int == (self as int + r as int) % 0x1_0000_0000_0000_0000 { unimplemented!() } }

#[verifier::external_body]
pub fn min<T: OrdOp<T>>(a: T, b: T) -> (r: T) ensures r == (if b.lt_sp(&a) { b } else { a }) { unimplemented!() }
#[verifier::external_body]
pub fn max<T: OrdOp<T>>(a: T, b: T) -> (r: T) ensures r == (if b.lt_sp(&a) { a } else { b }) { unimplemented!() }
pub trait MinMax: Sized + OrdOp<Self> { 
    fn min_(self, b: Self) -> (r: Self) ensures r == (if b.lt_sp(&self) { b } else { self });
    fn max_(self, b: Self) -> (r: Self) ensures r == (if b.lt_sp(&self) { self } else { b });
}
impl<T: OrdOp<T>> MinMax for T {
    #[verifier::external_body] fn min_(self, b: T) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn max_(self, b: T) -> (r: T) { unimplemented!() }
}

// ---------------------------------------------------------------- numbers
pub spec const ONE_DEC: int = 1_000_000_000_000_000_000;
pub open spec fn mul_floor(v: int, a: int) -> int { (v * a) / ONE_DEC }
pub open spec fn mul_ceil_sp(v: int, a: int) -> int { (v * a + ONE_DEC - 1) / ONE_DEC }

#[derive(Clone, Copy)]
pub struct Uint128 { pub v: u128 }
pub trait ToU128 { spec fn u_sp(&self) -> int; }
impl ToU128 for u128 { open spec fn u_sp(&self) -> int { *self as int } }
impl ToU128 for u64 { open spec fn u_sp(&self) -> int { *self as int } }
impl ToU128 for u32 { open spec fn u_sp(&self) -> int { *self as int } }
impl Uint128 {
    pub open spec fn u128_sp(&self) -> u128 { self.v }
    pub fn zero() -> (r: Uint128) ensures r.v == 0 { Uint128 { v: 0 } }
    pub fn one() -> (r: Uint128) ensures r.v == 1 { Uint128 { v: 1 } }
    pub fn new(v: u128) -> (r: Uint128) ensures r.v == v { Uint128 { v } }
    #[verifier::external_body]
    pub fn from<T: ToU128>(v: T) -> (r: Uint128) ensures r.v as int == v.u_sp() { unimplemented!() }
    pub fn u128(&self) -> (r: u128) ensures r == self.v { self.v }
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.v == 0) { self.v == 0 }
    #[verifier::external_body]
    pub fn mul_ceil(self, d: Decimal) -> (r: Uint128) ensures r.v as int == mul_ceil_sp(self.v as int, d.a as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_floor(self, d: Decimal) -> (r: Uint128) ensures r.v as int == mul_floor(self.v as int, d.a as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub_(self, o: Uint128) -> (r: Result<Uint128, OverflowError>) ensures r is Ok <==> self.v >= o.v, r is Ok ==> r->Ok_0.v as int == self.v as int - o.v as int { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add_(self, o: Uint128) -> (r: Result<Uint128, OverflowError>) ensures r is Ok ==> r->Ok_0.v as int == self.v as int + o.v as int { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub_(self, o: Uint128) -> (r: Uint128) ensures r.v as int == (if self.v >= o.v { self.v as int - o.v as int } else { 0 }) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Decimal { pub a: u128 }
impl Decimal {
    #[verifier::external_body]
    pub fn bps(x: u64) -> (r: Decimal) ensures r.a as int == x as int * 100_000_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn percent(x: u64) -> (r: Decimal) ensures r.a as int == x as int * 10_000_000_000_000_000 { unimplemented!() }
    pub fn zero() -> (r: Decimal) ensures r.a == 0 { Decimal { a: 0 } }
    pub fn one() -> (r: Decimal) ensures r.a as int == ONE_DEC { Decimal { a: 1_000_000_000_000_000_000 } }
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.a == 0) { self.a == 0 }
    #[verifier::external_body]
    pub fn checked_mul_(self, o: Decimal) -> (r: Result<Decimal, OverflowError>) ensures r is Ok ==> r->Ok_0.a as int == mul_floor(self.a as int, o.a as int), self.a <= ONE_DEC && o.a <= ONE_DEC ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn sub(self, o: Decimal) -> (r: Decimal) ensures r.a as int == self.a as int - o.a as int { unimplemented!() }
    #[verifier::external_body]
    pub fn add(self, o: Decimal) -> (r: Decimal) ensures r.a as int == self.a as int + o.a as int { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str(s: &String) -> (r: Result<Decimal, StdError>) ensures forall|a: u128| s.g@ == #[trigger] dec_str(a as int) ==> r is Ok && r->Ok_0.a == a { unimplemented!() }
    #[verifier::external_body]
    pub fn from_ratio<A: ToU128, B: ToU128>(a: A, b: B) -> (r: Decimal) ensures b.u_sp() != 0, r.a as int == (a.u_sp() * ONE_DEC) / b.u_sp() { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Timestamp { pub n: u64 }
impl Timestamp {
    pub open spec fn seconds_sp(&self) -> u64 { (self.n / 1_000_000_000) as u64 }
    pub open spec fn nanos_sp(&self) -> u64 { self.n }
    pub fn from_nanos(n: u64) -> (r: Timestamp) ensures r.n == n { Timestamp { n } }
    #[verifier::external_body]
    pub fn from_seconds(n: u64) -> (r: Timestamp) ensures r.n as int == n as int * 1_000_000_000 { unimplemented!() }
    pub fn nanos(&self) -> (r: u64) ensures r == self.n { self.n }
    pub fn seconds(&self) -> (r: u64) ensures r == self.seconds_sp() { self.n / 1_000_000_000 }
    #[verifier::external_body]
    pub fn plus_seconds(&self, s: u64) -> (r: Timestamp) ensures r.n as int == self.n as int + s as int * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn minus_seconds(&self, s: u64) -> (r: Timestamp) ensures r.n as int == self.n as int - s as int * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn plus_nanos(&self, s: u64) -> (r: Timestamp) ensures r.n as int == self.n as int + s as int { unimplemented!() }
}

// ---------------------------------------------------------------- coins
pub struct Coin { pub denom: String, pub amount: Uint128 }
impl Coin { #[verifier::external_body] pub fn new<S: StrLike, A: ToU128>(amount: A, denom: S) -> (r: Coin) ensures r.amount.v as int == amount.u_sp(), r.denom.g@ == denom.str_sp() { unimplemented!() } }
#[verifier::external_body]
pub fn coin<S: StrLike>(amount: u128, denom: S) -> (r: Coin) ensures r.amount.v == amount, r.denom.g@ == denom.str_sp() { unimplemented!() }
pub open spec fn coin_amt(c: Coin, d: Seq<char>) -> int { if c.denom.g@ == d { c.amount.v as int } else { 0 } }
pub open spec fn coins_amt(cs: Seq<Coin>, d: Seq<char>) -> int decreases cs.len() {
    if cs.len() == 0 { 0 } else { coins_amt(cs.drop_last(), d) + coin_amt(cs.last(), d) }
}
pub open spec fn no_zero_coins(cs: Seq<Coin>) -> bool { cs.len() > 0 && forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).amount.v > 0 }
pub trait CoinsLike { spec fn coins_sp(&self) -> Seq<Coin>; }
impl CoinsLike for Vec<Coin> { open spec fn coins_sp(&self) -> Seq<Coin> { self@ } }
impl<const N: usize> CoinsLike for [Coin; N] { open spec fn coins_sp(&self) -> Seq<Coin> { self@ } }
// amount of the first coin with this denom, as has_coins looks it up
pub open spec fn first_amt(cs: Seq<Coin>, d: Seq<char>) -> Option<int> decreases cs.len() {
    if cs.len() == 0 { None } else if cs[0].denom.g@ == d { Some(cs[0].amount.v as int) } else { first_amt(cs.subrange(1, cs.len() as int), d) }
}
pub broadcast proof fn first_amt_one(cs: Seq<Coin>, d: Seq<char>) requires cs.len() == 1 ensures #[trigger] first_amt(cs, d) == (if cs[0].denom.g@ == d { Some(cs[0].amount.v as int) } else { None }) { reveal_with_fuel(first_amt, 3); }
pub broadcast proof fn first_amt_none(cs: Seq<Coin>, d: Seq<char>) requires cs.len() == 0 ensures #[trigger] first_amt(cs, d) == None::<int> {}
// the first coin of a denomination is at most the total of that denomination
pub broadcast proof fn first_amt_le(cs: Seq<Coin>, d: Seq<char>) ensures (match #[trigger] first_amt(cs, d) { Some(x) => 0 <= x <= coins_amt(cs, d), None => true }) decreases cs.len() {
    if cs.len() > 0 {
        let t = cs.subrange(1, cs.len() as int);
        first_amt_le(t, d);
        coins_amt_front(cs, d);
        coins_amt_nonneg(t, d);
    }
}
pub proof fn coins_amt_front(cs: Seq<Coin>, d: Seq<char>) requires cs.len() > 0 ensures coins_amt(cs, d) == coin_amt(cs[0], d) + coins_amt(cs.subrange(1, cs.len() as int), d) decreases cs.len() {
    let t = cs.subrange(1, cs.len() as int);
    if cs.len() == 1 { assert(cs.drop_last() =~= Seq::<Coin>::empty()); assert(t =~= Seq::<Coin>::empty()); }
    else { coins_amt_front(cs.drop_last(), d); assert(cs.drop_last().subrange(1, cs.len() - 1) =~= t.drop_last()); assert(t.last() == cs.last()); assert(cs.drop_last()[0] == cs[0]); }
}
#[verifier::external_body]
pub fn has_coins<C: CoinsLike>(cs: &C, req: &Coin) -> (r: bool)
    ensures r == (match first_amt(cs.coins_sp(), req.denom.g@) { Some(x) => x >= req.amount.v, None => false }) { unimplemented!() }

pub struct NativeBalance(pub Vec<Coin>);
pub open spec fn nonzero(cs: Seq<Coin>) -> bool { forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).amount.v > 0 }
// at most one entry per denom, as normalize() leaves it
#[verifier::opaque]
pub open spec fn merged(cs: Seq<Coin>) -> bool { forall|i: int, j: int| 0 <= i < j < cs.len() ==> (#[trigger] cs[i]).denom.g@ != (#[trigger] cs[j]).denom.g@ }
impl NativeBalance {
    #[verifier::external_body]
    pub fn normalize(&mut self)
        ensures nonzero(final(self).0@), merged(final(self).0@), forall|d: Seq<char>| #![trigger coins_amt(final(self).0@, d)] #![trigger coins_amt(old(self).0@, d)] coins_amt(final(self).0@, d) == coins_amt(old(self).0@, d) { unimplemented!() }
    #[verifier::external_body]
    pub fn sub(self, o: Coin) -> (r: Result<NativeBalance, StdError>)
        ensures r is Ok ==> (forall|d: Seq<char>| #![trigger coins_amt(r->Ok_0.0@, d)] #![trigger coins_amt(self.0@, d)] coins_amt(r->Ok_0.0@, d) == coins_amt(self.0@, d) - coin_amt(o, d)) && (nonzero(self.0@) ==> nonzero(r->Ok_0.0@)) && (merged(self.0@) ==> merged(r->Ok_0.0@)) && coins_amt(self.0@, o.denom.g@) >= o.amount.v,
            merged(self.0@) && o.amount.v > 0 && coins_amt(self.0@, o.denom.g@) >= o.amount.v ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn add(self, o: Coin) -> (r: NativeBalance)
        ensures (forall|d: Seq<char>| #![trigger coins_amt(r.0@, d)] #![trigger coins_amt(self.0@, d)] coins_amt(r.0@, d) == coins_amt(self.0@, d) + coin_amt(o, d)), nonzero(self.0@) && o.amount.v > 0 ==> nonzero(r.0@), merged(self.0@) ==> merged(r.0@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r ==> (forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).amount.v == 0) && (forall|d: Seq<char>| #[trigger] coins_amt(self.0@, d) == 0), !r ==> self.0@.len() > 0 { unimplemented!() }
    pub fn into_vec(self) -> (r: Vec<Coin>) ensures r == self.0 { self.0 }
    #[verifier::external_body]
    pub fn has(&self, req: &Coin) -> (r: bool) ensures r == (match first_amt(self.0@, req.denom.g@) { Some(x) => x >= req.amount.v, None => false }) { unimplemented!() }
}
pub proof fn coins_amt_zero(cs: Seq<Coin>, d: Seq<char>)
    requires forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).amount.v == 0
    ensures coins_amt(cs, d) == 0
    decreases cs.len()
{ if cs.len() > 0 { assert(cs.drop_last().len() < cs.len()); assert forall|i: int| 0 <= i < cs.drop_last().len() implies (#[trigger] cs.drop_last()[i]).amount.v == 0 by { assert(cs.drop_last()[i] == cs[i]); } coins_amt_zero(cs.drop_last(), d); assert(cs.last() == cs[cs.len() - 1]); } }
pub proof fn coins_amt_nonneg(cs: Seq<Coin>, d: Seq<char>) ensures coins_amt(cs, d) >= 0 decreases cs.len()
{ if cs.len() > 0 { coins_amt_nonneg(cs.drop_last(), d); } }

#[verifier::external_body]
pub fn nonpayable(info: &MessageInfo) -> (r: Result<(), PaymentError>) ensures r is Ok <==> info.funds@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn one_coin(info: &MessageInfo) -> (r: Result<Coin, PaymentError>)
    ensures r is Ok <==> (info.funds@.len() == 1 && info.funds@[0].amount.v > 0), r is Ok ==> r->Ok_0 == info.funds@[0] { unimplemented!() }
#[verifier::external_body]
pub fn must_pay(info: &MessageInfo, denom: &String) -> (r: Result<Uint128, PaymentError>)
    ensures r is Ok <==> (info.funds@.len() == 1 && info.funds@[0].amount.v > 0 && info.funds@[0].denom.g@ == denom.g@), r is Ok ==> r->Ok_0 == info.funds@[0].amount { unimplemented!() }
#[verifier::external_body]
pub fn may_pay(info: &MessageInfo, denom: &String) -> (r: Result<Uint128, PaymentError>)
    ensures r is Ok <==> (info.funds@.len() == 0 || (info.funds@.len() == 1 && info.funds@[0].denom.g@ == denom.g@)),
        r is Ok ==> (info.funds@.len() == 0 && r->Ok_0.v == 0) || (info.funds@.len() == 1 && info.funds@[0].denom.g@ == denom.g@ && r->Ok_0 == info.funds@[0].amount) { unimplemented!() }

// ---------------------------------------------------------------- environment
pub struct Api {}
impl Api {
    #[verifier::external_body]
    pub fn addr_validate(&self, s: &String) -> (r: Result<Addr, StdError>) ensures r is Ok <==> addr_ok(s.g@), r is Ok ==> r->Ok_0.g@ == s.g@ { unimplemented!() }
}
// a validated address: non-empty, in the chain's address alphabet (no '/')
pub uninterp spec fn addr_format(a: Seq<char>) -> bool;
pub open spec fn addr_ok(a: Seq<char>) -> bool { addr_format(a) && a.len() > 0 && !a.contains('/') }
#[verifier::external_body]
pub fn maybe_addr(api: &Api, s: Option<String>) -> (r: Result<Option<Addr>, StdError>)
    ensures r is Ok <==> (s is Some ==> addr_ok(s->0.g@)), r is Ok ==> opt_str(s) == opt_addr(r->Ok_0) { unimplemented!() }
pub open spec fn opt_str(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x.g@), None => None } }
pub open spec fn opt_addr(s: Option<Addr>) -> Option<Seq<char>> { match s { Some(x) => Some(x.g@), None => None } }
#[derive(Clone, Copy)]
pub struct QuerierWrapper { pub id: Ghost<int> }
pub uninterp spec fn smart_answer<R>(w: QuerierWrapper, contract: Seq<char>, q: Query) -> Option<R>;
pub uninterp spec fn contract_admin(w: QuerierWrapper, contract: Seq<char>) -> Option<Option<Seq<char>>>;
pub trait ToQuery { spec fn query_sp(&self) -> Query; }
pub struct ContractInfoResponse { pub code_id: u64, pub creator: String, pub admin: Option<String>, pub pinned: bool, pub ibc_port: Option<String> }
impl QuerierWrapper {
    #[verifier::external_body]
    pub fn query_wasm_smart<R>(&self, contract: impl StrLike, q: &impl ToQuery) -> (r: Result<R, StdError>)
        ensures (match r { Ok(x) => smart_answer::<R>(*self, contract.str_sp(), q.query_sp()) == Some(x), Err(_) => smart_answer::<R>(*self, contract.str_sp(), q.query_sp()) is None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn query_wasm_contract_info(&self, contract: impl StrLike) -> (r: Result<ContractInfoResponse, StdError>)
        ensures (match r { Ok(x) => contract_admin(*self, contract.str_sp()) == Some(opt_str(x.admin)), Err(_) => contract_admin(*self, contract.str_sp()) is None }) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Deps<'a> { pub storage: &'a Storage, pub api: &'a Api, pub querier: QuerierWrapper }
pub struct DepsMut<'a> { pub storage: &'a mut Storage, pub api: &'a Api, pub querier: QuerierWrapper }
impl<'a> DepsMut<'a> {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: Deps<'_>) ensures *r.storage == *old(self.storage), r.querier == self.querier, r.api == self.api { unimplemented!() }
}
pub struct BlockInfo { pub height: u64, pub time: Timestamp, pub chain_id: String }
pub struct ContractInfo { pub address: Addr }
pub struct Env { pub block: BlockInfo, pub contract: ContractInfo }
pub struct MessageInfo { pub sender: Addr, pub funds: Vec<Coin> }
pub struct Empty {}

// ---------------------------------------------------------------- errors
pub struct OverflowError { pub u: u8 }
pub enum StdError { Generic { msg: String }, Overflow { source: OverflowError }, Other }
impl StdError { #[verifier::external_body] pub fn generic_err<S: StrLike>(s: S) -> StdError { unimplemented!() } #[verifier::external_body] pub fn not_found<S: StrLike>(s: S) -> StdError { unimplemented!() } }
impl From<OverflowError> for StdError { #[verifier::external_body] fn from(e: OverflowError) -> StdError { unimplemented!() } }
pub type StdResult<T> = Result<T, StdError>;
pub enum PaymentError { MissingDenom(String), ExtraDenom(String), MultipleDenoms, NoFunds, NonPayable }

// ---------------------------------------------------------------- messages
pub enum ReplyOn { Always, Error, Success, Never }
pub struct Binary { pub p: Ghost<Payload> }
pub enum BankMsg { Send { to_address: String, amount: Vec<Coin> }, Burn { amount: Vec<Coin> } }
pub enum WasmMsg { Execute { contract_addr: String, msg: Binary, funds: Vec<Coin> }, Other }
pub enum CosmosMsg { Bank(BankMsg), Wasm(WasmMsg), Custom(CustomMsg) }
pub enum CustomMsg { FundCommunityPool { amount: Vec<Coin> }, FundFairburnPool { amount: Vec<Coin> }, Other }
pub struct SubMsg { pub id: u64, pub msg: CosmosMsg, pub gas_limit: Option<u64>, pub reply_on: ReplyOn }
pub trait IntoMsg: Sized { spec fn msg_sp(self) -> CosmosMsg; }
impl IntoMsg for BankMsg { open spec fn msg_sp(self) -> CosmosMsg { CosmosMsg::Bank(self) } }
impl IntoMsg for WasmMsg { open spec fn msg_sp(self) -> CosmosMsg { CosmosMsg::Wasm(self) } }
impl IntoMsg for CustomMsg { open spec fn msg_sp(self) -> CosmosMsg { CosmosMsg::Custom(self) } }
impl IntoMsg for CosmosMsg { open spec fn msg_sp(self) -> CosmosMsg { self } }
impl SubMsg {
    #[verifier::external_body]
    pub fn new<M: IntoMsg>(m: M) -> (r: SubMsg) ensures r.msg == m.msg_sp(), r.reply_on is Never, r.id == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn reply_on_error<M: IntoMsg>(m: M, id: u64) -> (r: SubMsg) ensures r.msg == m.msg_sp(), r.reply_on is Error, r.id == id { unimplemented!() }
    #[verifier::external_body]
    pub fn reply_always<M: IntoMsg>(m: M, id: u64) -> (r: SubMsg) ensures r.msg == m.msg_sp(), r.reply_on is Always, r.id == id { unimplemented!() }
    #[verifier::external_body]
    pub fn reply_on_success<M: IntoMsg>(m: M, id: u64) -> (r: SubMsg) ensures r.msg == m.msg_sp(), r.reply_on is Success, r.id == id { unimplemented!() }
}
pub struct Event { pub u: u8 }
impl Event {
    #[verifier::external_body] pub fn new_() -> Event { unimplemented!() }
    #[verifier::external_body] pub fn add_attribute_(self) -> Event { unimplemented!() }
    #[verifier::external_body] pub fn add_attributes_(self) -> Event { unimplemented!() }
}
pub struct Response { pub messages: Vec<SubMsg>, pub attributes: Vec<Event>, pub events: Vec<Event>, pub data: Option<Binary> }
impl Response {
    #[verifier::external_body] pub fn new() -> (r: Response) ensures r.messages@ == Seq::<SubMsg>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Response) ensures r.messages@ == Seq::<SubMsg>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn add_event_(self) -> (r: Response) ensures r.messages == self.messages, r.data == self.data { unimplemented!() }
    #[verifier::external_body] pub fn add_events_(self) -> (r: Response) ensures r.messages == self.messages, r.data == self.data { unimplemented!() }
    #[verifier::external_body] pub fn add_attribute_(self) -> (r: Response) ensures r.messages == self.messages, r.data == self.data { unimplemented!() }
    #[verifier::external_body] pub fn add_attributes_(self) -> (r: Response) ensures r.messages == self.messages, r.data == self.data { unimplemented!() }
    #[verifier::external_body] pub fn add_submessage(self, m: SubMsg) -> (r: Response) ensures r.messages@ == self.messages@.push(m) { unimplemented!() }
    #[verifier::external_body] pub fn add_submessages(self, m: Vec<SubMsg>) -> (r: Response) ensures r.messages@ == self.messages@ + m@ { unimplemented!() }
    #[verifier::external_body] pub fn add_message<M: IntoMsg>(self, m: M) -> (r: Response)
        ensures exists|s: SubMsg| #[trigger] r.messages@ == self.messages@.push(s) && s.msg == m.msg_sp() && s.reply_on is Never && s.id == 0 { unimplemented!() }
}
pub trait ToPayload { spec fn payload(&self) -> Payload; }
// the JSON text of a query answer, as a function of the answer
pub uninterp spec fn json_seq<T>(x: Seq<T>) -> int;
pub uninterp spec fn json_opt<T>(x: Option<T>) -> int;
impl<T> ToPayload for Vec<T> { open spec fn payload(&self) -> Payload { Payload::Other(json_seq(self@)) } }
impl<T> ToPayload for Option<T> { open spec fn payload(&self) -> Payload { Payload::Other(json_opt(*self)) } }
#[verifier::external_body]
pub fn to_json_binary<T: ToPayload>(t: &T) -> (r: Result<Binary, StdError>) ensures r is Ok, r->Ok_0.p@ == t.payload() { unimplemented!() }
// the older name of the same function
#[verifier::external_body]
pub fn to_binary<T: ToPayload>(t: &T) -> (r: Result<Binary, StdError>) ensures r is Ok, r->Ok_0.p@ == t.payload() { unimplemented!() }
pub uninterp spec fn json_id<T>(t: T) -> int;

// ---------------------------------------------------------------- iteration
pub struct VIter<T> { pub v: Ghost<Seq<T>>, pub i: Ghost<int> }
impl<T> VIter<T> {
    pub open spec fn wf(&self) -> bool { 0 <= self.i@ <= self.v@.len() }
    pub open spec fn rem(&self) -> int { self.v@.len() - self.i@ }
    #[verifier::external_body]
    pub fn next_(&mut self) -> (r: Option<T>)
        requires old(self).wf()
        ensures final(self).v == old(self).v, final(self).wf(),
            (match r { Some(x) => old(self).i@ < old(self).v@.len() && x == old(self).v@[old(self).i@] && final(self).i@ == old(self).i@ + 1, None => old(self).i@ == old(self).v@.len() && final(self).i@ == old(self).i@ }) { unimplemented!() }
}
pub trait IntoIt: Sized { type T; spec fn it_sp(self, it: VIter<Self::T>) -> bool; fn it_(self) -> (r: VIter<Self::T>) ensures r.i@ == 0, r.wf(), self.it_sp(r); }
impl<T> IntoIt for Vec<T> { type T = T; open spec fn it_sp(self, it: VIter<T>) -> bool { it.v@ == self@ } #[verifier::external_body] fn it_(self) -> (r: VIter<T>) { unimplemented!() } }
impl<'a, T> IntoIt for &'a Vec<T> { type T = &'a T; open spec fn it_sp(self, it: VIter<&'a T>) -> bool { it.v@.len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] it.v@[i]) == self@[i] } #[verifier::external_body] fn it_(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<T> IntoIt for VIter<T> { type T = T; open spec fn it_sp(self, it: VIter<T>) -> bool { it.v@ == self.v@ && self.i@ == 0 } #[verifier::external_body] fn it_(self) -> (r: VIter<T>) ensures r == self { unimplemented!() } }
pub trait VecIter<T> { fn iter_(&self) -> VIter<&T>; fn into_iter_(self) -> VIter<T>; }
impl<T> VecIter<T> for Vec<T> {
    #[verifier::external_body]
    fn iter_(&self) -> (r: VIter<&T>) ensures r.i@ == 0, r.v@.len() == self@.len(), forall|i: int| #![trigger r.v@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *r.v@[i] == self@[i] { unimplemented!() }
    #[verifier::external_body]
    fn into_iter_(self) -> (r: VIter<T>) ensures r.i@ == 0, r.v@ == self@ { unimplemented!() }
}
pub trait VecMore<T> { fn first_(&self) -> Option<&T>; fn last_(&self) -> Option<&T>; }
impl<T> VecMore<T> for Vec<T> {
    #[verifier::external_body]
    fn first_(&self) -> (r: Option<&T>) ensures (match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 }) { unimplemented!() }
    #[verifier::external_body]
    fn last_(&self) -> (r: Option<&T>) ensures (match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 }) { unimplemented!() }
}
pub trait VecHas<T> { fn contains_(&self, x: &T) -> bool; }
impl<T: EqOp<T>> VecHas<T> for Vec<T> {
    #[verifier::external_body]
    fn contains_(&self, x: &T) -> (r: bool) ensures r == (exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).eq_spec(x)) { unimplemented!() }
}
pub trait ExpectOp<T>: Sized { spec fn exp_sp(self, t: T) -> bool; fn expect_(self) -> (r: T) ensures self.exp_sp(r); }
impl<T> ExpectOp<T> for Option<T> { open spec fn exp_sp(self, t: T) -> bool { self == Some(t) } #[verifier::external_body] fn expect_(self) -> (r: T) { unimplemented!() } }
impl<T, E> ExpectOp<T> for Result<T, E> { open spec fn exp_sp(self, t: T) -> bool { self is Ok && self->Ok_0 == t } #[verifier::external_body] fn expect_(self) -> (r: T) { unimplemented!() } }
// `.unwrap()` aborts on None / Err
pub trait UnwrapOp<T>: Sized { spec fn unw_sp(self, t: T) -> bool; fn unwrap_a(self) -> (r: T) ensures self.unw_sp(r); }
impl<T> UnwrapOp<T> for Option<T> { open spec fn unw_sp(self, t: T) -> bool { self == Some(t) } #[verifier::external_body] fn unwrap_a(self) -> (r: T) { unimplemented!() } }
// the same where the function must not abort: the value is an obligation
pub trait StrictUnwrap<T>: Sized { spec fn there(self) -> bool; spec fn val(self) -> T; fn unwrap_x(self) -> (r: T) requires self.there() ensures r == self.val(); }
impl<T> StrictUnwrap<T> for Option<T> { open spec fn there(self) -> bool { self is Some } open spec fn val(self) -> T { self->0 } #[verifier::external_body] fn unwrap_x(self) -> (r: T) { unimplemented!() } }
impl<T, E> StrictUnwrap<T> for Result<T, E> { open spec fn there(self) -> bool { self is Ok } open spec fn val(self) -> T { self->Ok_0 } #[verifier::external_body] fn unwrap_x(self) -> (r: T) { unimplemented!() } }
impl<T, E> UnwrapOp<T> for Result<T, E> { open spec fn unw_sp(self, t: T) -> bool { self is Ok && self->Ok_0 == t } #[verifier::external_body] fn unwrap_a(self) -> (r: T) { unimplemented!() } }

// ---------------------------------------------------------------- ordered storage
#[derive(Clone, Copy)]
pub enum Order { Ascending, Descending }
pub trait IntoKey<K> { spec fn key(&self) -> K; }
impl<K> IntoKey<K> for K { open spec fn key(&self) -> K { *self } }
impl<'a, K> IntoKey<K> for &'a K { open spec fn key(&self) -> K { **self } }
pub enum SBound<K> { Inclusive(K), Exclusive(K) }
// klt orders a key that ends the stored key; plt orders a key that more of the stored key follows
// (strings are then stored behind their length, so the shorter one comes first)
pub trait KeyOrd: Sized { spec fn klt(a: Self, b: Self) -> bool; spec fn plt(a: Self, b: Self) -> bool; }
pub uninterp spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn str_plt(a: Seq<char>, b: Seq<char>) -> bool;
impl KeyOrd for u32 { open spec fn klt(a: u32, b: u32) -> bool { a < b } open spec fn plt(a: u32, b: u32) -> bool { a < b } }
impl KeyOrd for u64 { open spec fn klt(a: u64, b: u64) -> bool { a < b } open spec fn plt(a: u64, b: u64) -> bool { a < b } }
impl KeyOrd for u128 { open spec fn klt(a: u128, b: u128) -> bool { a < b } open spec fn plt(a: u128, b: u128) -> bool { a < b } }
impl KeyOrd for String { open spec fn klt(a: String, b: String) -> bool { str_lt(a.g@, b.g@) } open spec fn plt(a: String, b: String) -> bool { str_plt(a.g@, b.g@) } }
impl KeyOrd for Addr { open spec fn klt(a: Addr, b: Addr) -> bool { str_lt(a.g@, b.g@) } open spec fn plt(a: Addr, b: Addr) -> bool { str_plt(a.g@, b.g@) } }
impl<A: KeyOrd, B: KeyOrd> KeyOrd for (A, B) {
    open spec fn klt(a: (A, B), b: (A, B)) -> bool { A::plt(a.0, b.0) || (a.0 == b.0 && B::klt(a.1, b.1)) }
    open spec fn plt(a: (A, B), b: (A, B)) -> bool { A::plt(a.0, b.0) || (a.0 == b.0 && B::plt(a.1, b.1)) }
}
impl<A: KeyOrd, B: KeyOrd, C: KeyOrd> KeyOrd for (A, B, C) {
    open spec fn klt(a: (A, B, C), b: (A, B, C)) -> bool { A::plt(a.0, b.0) || (a.0 == b.0 && B::plt(a.1, b.1)) || (a.0 == b.0 && a.1 == b.1 && C::klt(a.2, b.2)) }
    open spec fn plt(a: (A, B, C), b: (A, B, C)) -> bool { A::plt(a.0, b.0) || (a.0 == b.0 && B::plt(a.1, b.1)) || (a.0 == b.0 && a.1 == b.1 && C::plt(a.2, b.2)) }
}
pub broadcast axiom fn axiom_str_plt_empty(a: Seq<char>) ensures !#[trigger] str_plt(a, Seq::<char>::empty());
pub broadcast axiom fn axiom_str_plt_irrefl(a: Seq<char>) ensures !#[trigger] str_plt(a, a);
pub broadcast axiom fn axiom_str_plt_asym(a: Seq<char>, b: Seq<char>) ensures #[trigger] str_plt(a, b) ==> !str_plt(b, a);
pub broadcast axiom fn axiom_str_pgt_empty(a: Seq<char>) ensures a == Seq::<char>::empty() || #[trigger] str_plt(Seq::<char>::empty(), a);
// the empty string is the least string
pub broadcast axiom fn axiom_str_lt_empty(a: Seq<char>) ensures !#[trigger] str_lt(a, Seq::<char>::empty());
pub broadcast axiom fn axiom_str_lt_irrefl(a: Seq<char>) ensures !#[trigger] str_lt(a, a);
pub broadcast axiom fn axiom_str_gt_empty(a: Seq<char>) ensures a == Seq::<char>::empty() || #[trigger] str_lt(Seq::<char>::empty(), a);
pub broadcast axiom fn axiom_str_lt_asym(a: Seq<char>, b: Seq<char>) ensures #[trigger] str_lt(a, b) ==> !str_lt(b, a);
pub struct Bound<K> { pub b: SBound<K> }
impl<K> Bound<K> {
    pub fn exclusive(k: K) -> (r: Bound<K>) ensures r.b == SBound::Exclusive(k) { Bound { b: SBound::Exclusive(k) } }
    pub fn inclusive(k: K) -> (r: Bound<K>) ensures r.b == SBound::Inclusive(k) { Bound { b: SBound::Inclusive(k) } }
}
pub open spec fn bound_of<K>(b: Option<Bound<K>>) -> Option<SBound<K>> { match b { Some(x) => Some(x.b), None => None } }
pub open spec fn in_min<K: KeyOrd>(k: K, b: Option<SBound<K>>) -> bool { match b { None => true, Some(SBound::Inclusive(m)) => k == m || K::klt(m, k), Some(SBound::Exclusive(m)) => K::klt(m, k) } }
pub open spec fn in_max<K: KeyOrd>(k: K, b: Option<SBound<K>>) -> bool { match b { None => true, Some(SBound::Inclusive(m)) => k == m || K::klt(k, m), Some(SBound::Exclusive(m)) => K::klt(k, m) } }
pub open spec fn before<K: KeyOrd>(o: Order, a: K, b: K) -> bool { match o { Order::Ascending => K::klt(a, b), Order::Descending => K::klt(b, a) } }

#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(SK)]
pub struct RangeIter<SK, K, V> { pub m: Ghost<Map<K, V>>, pub keep: Ghost<spec_fn(V) -> bool>, pub key: Ghost<spec_fn(K, V) -> SK>, pub min: Ghost<Option<SBound<SK>>>, pub max: Ghost<Option<SBound<SK>>>, pub order: Order, pub limit: Ghost<Option<nat>> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(SK)]
pub struct ValIter<SK, K, V> { pub r: RangeIter<SK, K, V> }
impl<SK: KeyOrd, K, V> RangeIter<SK, K, V> {
    pub open spec fn in_range(self, k: K) -> bool {
        self.m@.dom().contains(k) && (self.keep@)(self.m@[k]) && in_min((self.key@)(k, self.m@[k]), self.min@) && in_max((self.key@)(k, self.m@[k]), self.max@)
    }
    // ks lists, in key order, the in-range records, cut at the limit
    pub open spec fn listing(self, ks: Seq<K>) -> bool {
        &&& forall|i: int| 0 <= i < ks.len() ==> self.in_range(#[trigger] ks[i])
        &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> before(self.order, (self.key@)(#[trigger] ks[i], self.m@[ks[i]]), (self.key@)(#[trigger] ks[j], self.m@[ks[j]]))
        &&& self.limit@ is Some ==> ks.len() <= self.limit@->0
        &&& forall|k: K| #[trigger] self.in_range(k) ==> ks.contains(k) || (self.limit@ is Some && ks.len() == self.limit@->0 && forall|i: int| 0 <= i < ks.len() ==> before(self.order, (self.key@)(#[trigger] ks[i], self.m@[ks[i]]), (self.key@)(k, self.m@[k])))
    }
    pub open spec fn values_ok(self, out: Seq<V>) -> bool {
        exists|ks: Seq<K>| #[trigger] self.listing(ks) && ks.len() == out.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] out[i] == self.m@[ks[i]]
    }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: RangeIter<SK, K, V>)
        ensures r == (RangeIter { limit: Ghost(Some(match self.limit@ { Some(l) => if l < n as nat { l } else { n as nat }, None => n as nat })), ..self }) { unimplemented!() }
    #[verifier::external_body]
    pub fn values_(self) -> (r: ValIter<SK, K, V>) ensures r.r == self { unimplemented!() }
    // `filter` by a condition on the record; before `take` only
    #[verifier::external_body]
    pub fn filter_(self, f: Ghost<spec_fn(V) -> bool>) -> (r: RangeIter<SK, K, V>)
        requires self.limit@ is None
        ensures r.m == self.m, r.key == self.key, r.min == self.min, r.max == self.max, r.order == self.order, r.limit == self.limit,
            forall|v: V| #[trigger] (r.keep@)(v) == ((self.keep@)(v) && (f@)(v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures exists|ks: Seq<K>| #[trigger] self.listing(ks) && r == ks.len() { unimplemented!() }
    pub open spec fn items_ok(self, out: Seq<Result<(K, V), StdError>>) -> bool {
        exists|ks: Seq<K>| #[trigger] self.listing(ks) && ks.len() == out.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] out[i] == Ok::<(K, V), StdError>((ks[i], self.m@[ks[i]]))
    }
    // the items of the iteration, for a `for` loop
    #[verifier::external_body]
    pub fn items_(self) -> (r: Vec<Result<(K, V), StdError>>) ensures self.items_ok(r@) { unimplemented!() }
}
pub open spec fn str_texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x.g@) }
pub open spec fn addr_texts(s: Seq<Addr>) -> Seq<Seq<char>> { s.map_values(|x: Addr| x.g@) }
pub struct PrefixBound<K> { pub b: SBound<K> }
impl<K> PrefixBound<K> {
    pub fn exclusive(k: K) -> (r: PrefixBound<K>) ensures r.b == SBound::Exclusive(k) { PrefixBound { b: SBound::Exclusive(k) } }
    pub fn inclusive(k: K) -> (r: PrefixBound<K>) ensures r.b == SBound::Inclusive(k) { PrefixBound { b: SBound::Inclusive(k) } }
}
pub open spec fn in_pmin<K: KeyOrd>(k: K, b: Option<PrefixBound<K>>) -> bool { match b { None => true, Some(x) => match x.b { SBound::Inclusive(m) => k == m || K::plt(m, k), SBound::Exclusive(m) => K::plt(m, k) } } }
pub open spec fn in_pmax<K: KeyOrd>(k: K, b: Option<PrefixBound<K>>) -> bool { match b { None => true, Some(x) => match x.b { SBound::Inclusive(m) => k == m || K::plt(k, m), SBound::Exclusive(m) => K::plt(k, m) } } }
impl<SK: KeyOrd, K, V> ValIter<SK, K, V> {
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: ValIter<SK, K, V>)
        ensures r.r == (RangeIter { limit: Ghost(Some(match self.r.limit@ { Some(l) => if l < n as nat { l } else { n as nat }, None => n as nat })), ..self.r }) { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_(self) -> (r: Result<Vec<V>, StdError>) ensures r is Ok, self.r.values_ok(r->Ok_0@) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(SK)]
pub struct PairIter<SK, K, V> { pub r: RangeIter<SK, K, V> }
impl<SK: KeyOrd, K, V> RangeIter<SK, K, V> {
    pub open spec fn pairs_ok(self, out: Seq<(K, V)>) -> bool {
        exists|ks: Seq<K>| #[trigger] self.listing(ks) && ks.len() == out.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] out[i] == (ks[i], self.m@[ks[i]])
    }
    #[verifier::external_body]
    pub fn pairs_(self) -> (r: PairIter<SK, K, V>) ensures r.r == self { unimplemented!() }
}
impl<SK: KeyOrd, K, V> PairIter<SK, K, V> {
    #[verifier::external_body]
    pub fn collect_(self) -> (r: Result<Vec<(K, V)>, StdError>) ensures r is Ok, self.r.pairs_ok(r->Ok_0@) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub enum Expiration { AtHeight(u64), AtTime(Timestamp), Never {} }

// ---------------------------------------------------------------- what a message list does
pub open spec fn sub_paid(m: SubMsg, to: Seq<char>, d: Seq<char>) -> int {
    match m.msg {
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => if to_address.g@ == to && m.reply_on is Never { coins_amt(amount@, d) } else { 0 },
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, funds, .. }) => if contract_addr.g@ == to && m.reply_on is Never { coins_amt(funds@, d) } else { 0 },
        _ => 0,
    }
}
pub open spec fn sub_out(m: SubMsg, d: Seq<char>) -> int {
    match m.msg {
        CosmosMsg::Bank(BankMsg::Send { amount, .. }) => coins_amt(amount@, d),
        CosmosMsg::Bank(BankMsg::Burn { amount }) => coins_amt(amount@, d),
        CosmosMsg::Wasm(WasmMsg::Execute { funds, .. }) => coins_amt(funds@, d),
        CosmosMsg::Custom(CustomMsg::FundCommunityPool { amount }) => coins_amt(amount@, d),
        CosmosMsg::Custom(CustomMsg::FundFairburnPool { amount }) => coins_amt(amount@, d),
        _ => 0,
    }
}
pub open spec fn sub_nozero(m: SubMsg) -> bool {
    match m.msg { CosmosMsg::Bank(BankMsg::Send { amount, .. }) => no_zero_coins(amount@), CosmosMsg::Bank(BankMsg::Burn { amount }) => no_zero_coins(amount@), CosmosMsg::Wasm(WasmMsg::Execute { funds, .. }) => nonzero(funds@), _ => true }
}
pub struct NftMove { pub collection: Seq<char>, pub token: Seq<char>, pub to: Seq<char> }
pub open spec fn sub_nft(m: SubMsg) -> Option<NftMove> {
    match m.msg {
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) => match msg.p@ { Payload::Cw721(Cw721ExecuteMsg::TransferNft { recipient, token_id }) => Some(NftMove { collection: contract_addr.g@, token: token_id.g@, to: recipient.g@ }), _ => None },
        _ => None,
    }
}
pub open spec fn push_opt<T>(s: Seq<T>, x: Option<T>) -> Seq<T> { match x { Some(y) => s.push(y), None => s } }
pub open spec fn paid(ms: Seq<SubMsg>, to: Seq<char>, d: Seq<char>) -> int decreases ms.len() { if ms.len() == 0 { 0 } else { paid(ms.drop_last(), to, d) + sub_paid(ms.last(), to, d) } }
pub open spec fn paid_all(ms: Seq<SubMsg>, d: Seq<char>) -> int decreases ms.len() { if ms.len() == 0 { 0 } else { paid_all(ms.drop_last(), d) + sub_out(ms.last(), d) } }
pub open spec fn nfts(ms: Seq<SubMsg>) -> Seq<NftMove> decreases ms.len() { if ms.len() == 0 { Seq::empty() } else { push_opt(nfts(ms.drop_last()), sub_nft(ms.last())) } }
pub open spec fn no_zero_sends(ms: Seq<SubMsg>) -> bool { forall|i: int| 0 <= i < ms.len() ==> sub_nozero(#[trigger] ms[i]) }
pub open spec fn all_atomic(ms: Seq<SubMsg>) -> bool { forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).reply_on is Never }
pub broadcast proof fn lemma_paid_push(ms: Seq<SubMsg>, m: SubMsg, to: Seq<char>, d: Seq<char>) ensures #[trigger] paid(ms.push(m), to, d) == paid(ms, to, d) + sub_paid(m, to, d) { assert(ms.push(m).drop_last() =~= ms); }
pub broadcast proof fn lemma_paid_all_push(ms: Seq<SubMsg>, m: SubMsg, d: Seq<char>) ensures #[trigger] paid_all(ms.push(m), d) == paid_all(ms, d) + sub_out(m, d) { assert(ms.push(m).drop_last() =~= ms); }
pub broadcast proof fn lemma_nfts_push(ms: Seq<SubMsg>, m: SubMsg) ensures #[trigger] nfts(ms.push(m)) == push_opt(nfts(ms), sub_nft(m)) { assert(ms.push(m).drop_last() =~= ms); }
pub broadcast proof fn lemma_no_zero_push(ms: Seq<SubMsg>, m: SubMsg) ensures #[trigger] no_zero_sends(ms.push(m)) == (no_zero_sends(ms) && sub_nozero(m)) {
    if no_zero_sends(ms.push(m)) { assert(ms.push(m)[ms.len() as int] == m); assert forall|i: int| 0 <= i < ms.len() implies sub_nozero(#[trigger] ms[i]) by { assert(ms.push(m)[i] == ms[i]); } }
}
pub broadcast proof fn lemma_atomic_push(ms: Seq<SubMsg>, m: SubMsg) ensures #[trigger] all_atomic(ms.push(m)) == (all_atomic(ms) && m.reply_on is Never) {
    if all_atomic(ms.push(m)) { assert(ms.push(m)[ms.len() as int] == m); assert forall|i: int| 0 <= i < ms.len() implies (#[trigger] ms[i]).reply_on is Never by { assert(ms.push(m)[i] == ms[i]); } }
}
pub broadcast proof fn lemma_empty_msgs(to: Seq<char>, d: Seq<char>) ensures #[trigger] paid(Seq::<SubMsg>::empty(), to, d) == 0, true {}
pub broadcast proof fn lemma_coins_one(c: Coin, d: Seq<char>) ensures #[trigger] coins_amt(seq![c], d) == coin_amt(c, d) { assert(seq![c].drop_last() =~= Seq::<Coin>::empty()); assert(coins_amt(Seq::<Coin>::empty(), d) == 0); assert(seq![c].last() == c); }
pub broadcast proof fn lemma_coins_len1(cs: Seq<Coin>, d: Seq<char>) requires cs.len() == 1 ensures #[trigger] coins_amt(cs, d) == coin_amt(cs[0], d) { assert(cs.drop_last() =~= Seq::<Coin>::empty()); assert(coins_amt(Seq::<Coin>::empty(), d) == 0); assert(cs.last() == cs[0]); }
pub broadcast proof fn lemma_no_zero_one(cs: Seq<Coin>) requires cs.len() == 1 ensures #[trigger] no_zero_coins(cs) == (cs[0].amount.v > 0) {}
pub broadcast proof fn lemma_coins_len0(cs: Seq<Coin>, d: Seq<char>) requires cs.len() == 0 ensures #[trigger] coins_amt(cs, d) == 0 {}
pub broadcast proof fn lemma_coins_none(d: Seq<char>) ensures #[trigger] coins_amt(Seq::<Coin>::empty(), d) == 0 {}
pub broadcast group group_msgs { lemma_paid_push, lemma_paid_all_push, lemma_nfts_push, lemma_no_zero_push, lemma_atomic_push, first_amt_one, first_amt_none, lemma_coins_one, lemma_coins_len1, lemma_coins_len0, lemma_no_zero_one, lemma_coins_none, axiom_str_lt_empty, axiom_str_gt_empty, axiom_str_plt_empty, axiom_str_pgt_empty }
