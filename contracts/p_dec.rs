// Model of what decoding uses from outside the crate (assumed contracts are
// marked external_body or axiom)
verus! {
// ---- strings --------------------------------------------------------------
pub broadcast axiom fn str_ext(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub axiom fn boxstr_ext(a: Box<str>, b: Box<str>)
    ensures a@ == b@ ==> a == b;
pub open spec fn is_box(b: Box<str>, s: &str) -> bool { b@ == s@ }

/// `Clone` of the types below and of user spans returns an equal value
pub trait MClone: Sized { fn mclone(&self) -> (r: Self) ensures r == *self; }
impl MClone for Box<str> { #[verifier::external_body] fn mclone(&self) -> (r: Self) { self.clone() } }

/// `Into`: the relation each conversion satisfies
pub trait MInto<T>: Sized {
    spec fn into_ok(self, r: T) -> bool;
    fn minto(self) -> (r: T) ensures self.into_ok(r);
}
impl<T> MInto<T> for T {
    open spec fn into_ok(self, r: T) -> bool { r == self }
    fn minto(self) -> T { self }
}
impl<T> MInto<Vec<T>> for [T; 0] {
    open spec fn into_ok(self, r: Vec<T>) -> bool { r@ == Seq::<T>::empty() }
    #[verifier::external_body]
    fn minto(self) -> Vec<T> { self.into() }
}
impl MInto<String> for &str {
    open spec fn into_ok(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn minto(self) -> String { self.into() }
}
impl MInto<String> for Box<str> {
    open spec fn into_ok(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn minto(self) -> String { self.into() }
}
impl MInto<Box<str>> for &str {
    open spec fn into_ok(self, r: Box<str>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn minto(self) -> Box<str> { self.into() }
}
#[verifier::external_body]
pub fn string_from(s: Box<str>) -> (r: String) ensures r@ == s@ { String::from(s) }

/// `Default` of the types the decoders fall back on
pub trait MDefault: Sized { spec fn is_default(r: Self) -> bool; fn mdefault() -> (r: Self) ensures Self::is_default(r); }
pub fn mdefault<T: MDefault>() -> (r: T) ensures T::is_default(r) { T::mdefault() }
impl<T> MDefault for Vec<T> {
    open spec fn is_default(r: Self) -> bool { r@.len() == 0 }
    fn mdefault() -> Self { Vec::new() }
}
impl MDefault for bool {
    open spec fn is_default(r: Self) -> bool { !r }
    fn mdefault() -> Self { false }
}

// ---- messages -------------------------------------------------------------
pub uninterp spec fn escaped(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn formatted(pat: Seq<char>, arg: Seq<char>) -> Seq<char>;
pub trait MEscape { spec fn esc_of(&self) -> Seq<char>; fn mescape(&self) -> (r: String) ensures r@ == escaped(self.esc_of()); }
impl MEscape for str {
    open spec fn esc_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn mescape(&self) -> (r: String) { self.escape_default().to_string() }
}
#[verifier::external_body]
pub fn mformat1(pat: &str, arg: String) -> (r: String) ensures r@ == formatted(pat@, arg@) { unimplemented!() }

/// `Box<dyn std::error::Error + Send + Sync>`
#[verifier::external_body]
pub struct ErrBox { x: u8 }
/// `Cow<'static, str>`
#[verifier::external_body]
pub struct CowStr { x: u8 }
#[verifier::external_body]
pub struct NumErr { x: u8 }
impl MInto<ErrBox> for NumErr {
    open spec fn into_ok(self, r: ErrBox) -> bool { true }
    #[verifier::external_body]
    fn minto(self) -> ErrBox { unimplemented!() }
}

// ---- numbers as std reads them ---------------------------------------------
pub open spec fn digit(c: char, radix: int) -> Option<int> {
    let v = if '0' <= c && c <= '9' { c as int - '0' as int }
        else if 'a' <= c && c <= 'z' { c as int - 'a' as int + 10 }
        else if 'A' <= c && c <= 'Z' { c as int - 'A' as int + 10 }
        else { 99 };
    if v < radix { Some(v) } else { None }
}
/// the value of a non-empty string of digits
pub open spec fn digits(s: Seq<char>, radix: int) -> Option<int> decreases s.len() {
    if s.len() == 0 { None }
    else if s.len() == 1 { digit(s[0], radix) }
    else { match (digits(s.drop_last(), radix), digit(s.last(), radix)) {
        (Some(a), Some(b)) => Some(a * radix + b),
        _ => None,
    } }
}
/// optional sign and digits
pub open spec fn number(s: Seq<char>, radix: int) -> Option<int> {
    if s.len() > 0 && s[0] == '+' { digits(s.skip(1), radix) }
    else if s.len() > 0 && s[0] == '-' {
        match digits(s.skip(1), radix) { Some(n) => Some(-n), None => None } }
    else { digits(s, radix) }
}
pub open spec fn minus(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '-' }
}
macro_rules! std_int {
    ($t:ident, $radix:ident, $dec:ident, $fits:ident, $max:expr, $min:expr, $signed:expr) => { verus!{
        /// the value if the type has it; the unsigned ones take no minus sign
        pub open spec fn $fits(s: Seq<char>, radix: int) -> Option<$t> {
            match number(s, radix) {
                Some(n) => if $min <= n && n <= $max && ($signed || !minus(s)) { Some(n as $t) } else { None },
                None => None,
            }
        }
        #[verifier::external_body]
        pub fn $radix(s: &str, radix: u32) -> (r: Result<$t, NumErr>)
            requires 2 <= radix <= 36
            ensures match $fits(s@, radix as int) { Some(n) => r == Ok::<$t, NumErr>(n), None => r is Err }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn $dec(s: &str) -> (r: Result<$t, NumErr>)
            ensures match $fits(s@, 10) { Some(n) => r == Ok::<$t, NumErr>(n), None => r is Err }
        { unimplemented!() }
    } }
}
std_int!(i8, i8_from_str_radix, i8_from_str, fits_i8, i8::MAX, i8::MIN, true);
std_int!(i16, i16_from_str_radix, i16_from_str, fits_i16, i16::MAX, i16::MIN, true);
std_int!(i32, i32_from_str_radix, i32_from_str, fits_i32, i32::MAX, i32::MIN, true);
std_int!(i64, i64_from_str_radix, i64_from_str, fits_i64, i64::MAX, i64::MIN, true);
std_int!(isize, isize_from_str_radix, isize_from_str, fits_isize, isize::MAX, isize::MIN, true);
std_int!(u8, u8_from_str_radix, u8_from_str, fits_u8, u8::MAX, u8::MIN, false);
std_int!(u16, u16_from_str_radix, u16_from_str, fits_u16, u16::MAX, u16::MIN, false);
std_int!(u32, u32_from_str_radix, u32_from_str, fits_u32, u32::MAX, u32::MIN, false);
std_int!(u64, u64_from_str_radix, u64_from_str, fits_u64, u64::MAX, u64::MIN, false);
std_int!(usize, usize_from_str_radix, usize_from_str, fits_usize, usize::MAX, usize::MIN, false);
verus!{
// ---- floats: std's parser is correctly rounded (assumed) -------------------
pub uninterp spec fn nearest_f32(s: Seq<char>) -> Option<f32>;
pub uninterp spec fn nearest_f64(s: Seq<char>) -> Option<f64>;
#[verifier::external_body]
pub fn f32_from_str(s: &str) -> (r: Result<f32, NumErr>)
    ensures match nearest_f32(s@) { Some(n) => r == Ok::<f32, NumErr>(n), None => r is Err }
{ unimplemented!() }
#[verifier::external_body]
pub fn f64_from_str(s: &str) -> (r: Result<f64, NumErr>)
    ensures match nearest_f64(s@) { Some(n) => r == Ok::<f64, NumErr>(n), None => r is Err }
{ unimplemented!() }

// ---- bytes ----------------------------------------------------------------
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn base64_std(s: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body]
pub struct B64Err { x: u8 }
impl MInto<ErrBox> for B64Err {
    open spec fn into_ok(self, r: ErrBox) -> bool { true }
    #[verifier::external_body]
    fn minto(self) -> ErrBox { unimplemented!() }
}
#[verifier::external_body]
pub struct Utf8 { x: u8 }
impl Utf8 {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
pub trait MBytes { spec fn bytes_of(&self) -> Seq<u8>; fn mas_bytes(&self) -> (r: &Utf8) ensures r@ == self.bytes_of(); }
impl MBytes for str {
    open spec fn bytes_of(&self) -> Seq<u8> { utf8(self@) }
    #[verifier::external_body]
    fn mas_bytes(&self) -> (r: &Utf8) { unimplemented!() }
}
#[verifier::external_body]
pub fn base64_decode(b: &Utf8) -> (r: Result<Vec<u8>, B64Err>)
    ensures match base64_std(b@) { Some(v) => r is Ok && r->Ok_0@ == v, None => r is Err }
{ unimplemented!() }

// ---- paths ----------------------------------------------------------------
#[verifier::external_body]
pub struct PathBuf { x: u8 }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct ArcPath { x: u8 }
impl View for ArcPath { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct ArcStr { x: u8 }
impl View for ArcStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl MDefault for PathBuf {
    open spec fn is_default(r: Self) -> bool { r@ == Seq::<char>::empty() }
    #[verifier::external_body]
    fn mdefault() -> Self { unimplemented!() }
}
impl MInto<PathBuf> for String {
    open spec fn into_ok(self, r: PathBuf) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn minto(self) -> PathBuf { unimplemented!() }
}
impl MInto<ArcPath> for PathBuf {
    open spec fn into_ok(self, r: ArcPath) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn minto(self) -> ArcPath { unimplemented!() }
}
impl MInto<ArcStr> for Box<str> {
    open spec fn into_ok(self, r: ArcStr) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn minto(self) -> ArcStr { unimplemented!() }
}
impl MInto<ArcStr> for String {
    open spec fn into_ok(self, r: ArcStr) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn minto(self) -> ArcStr { unimplemented!() }
}
#[verifier::external_body]
pub fn pathbuf_from(s: &str) -> (r: PathBuf) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn pathbuf_default() -> (r: PathBuf) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn string_default() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }

// ---- maps and values by type ------------------------------------------------
/// std's BTreeMap: the entries in the order of their keys
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct PMap<K, V> { x: Vec<(K, V)> }
impl<K, V> PMap<K, V> {
    pub uninterp spec fn view(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn items(&self) -> (r: &Vec<(K, V)>) ensures r@ == self@ { unimplemented!() }
}
/// `TypeId`, and `Box<dyn Any>` with its contents by type
#[verifier::external_body]
pub struct TypeId { x: u8 }
pub uninterp spec fn tid<T>() -> TypeId;
#[verifier::external_body]
pub fn type_id<T: 'static>() -> (r: TypeId) ensures r == tid::<T>() { unimplemented!() }
#[verifier::external_body]
pub struct AnyBox { x: u8 }
pub uninterp spec fn contents<T>(b: AnyBox) -> Option<T>;
#[verifier::external_body]
pub fn any_box<T: 'static>(v: T) -> (r: AnyBox) ensures contents::<T>(r) == Some(v) { unimplemented!() }
impl AnyBox {
    #[verifier::external_body]
    pub fn downcast_ref<T: 'static>(&self) -> (r: Option<&T>)
        ensures match contents::<T>(*self) { Some(v) => r == Some(&v), None => r is None }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct TypeMap { x: u8 }
impl TypeMap {
    pub uninterp spec fn view(&self) -> Map<TypeId, AnyBox>;
    #[verifier::external_body]
    pub fn new() -> (r: TypeMap) ensures r@ == Map::<TypeId, AnyBox>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: TypeId, v: AnyBox) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &TypeId) -> (r: Option<&AnyBox>)
        ensures match r { Some(b) => self@.contains_key(*k) && *b == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
}
pub fn mk_some<T>(x: T) -> (r: Option<T>) ensures r == Some(x) { Some(x) }

/// keys of a map come out in ascending order, each once
pub uninterp spec fn text_lt(a: Seq<char>, b: Seq<char>) -> bool;
pub open spec fn ascending(s: Seq<Seq<char>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> text_lt(#[trigger] s[i], #[trigger] s[j])
}
// ---- results ----------------------------------------------------------------
pub struct NamedSource { pub name: String, pub text: String }
impl NamedSource {
    #[verifier::external_body]
    pub fn new(name: &str, text: String) -> (r: NamedSource) ensures r.name@ == name@, r.text == text { unimplemented!() }
}
#[verifier::external_body]
pub struct Report { x: u8 }
pub uninterp spec fn report_of<E>(e: E) -> Report;
#[verifier::external_body]
pub fn reports<E>(v: Vec<E>) -> (r: Vec<Report>)
    ensures r@ == v@.map_values(|e: E| report_of(e))
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct ParseError<S> { x: S }

/// `Hash`
pub trait MHasher: Sized {}
pub trait MHash { spec fn hashed<H: MHasher>(&self, a: H, b: H) -> bool;
    fn mhash<H: MHasher>(&self, state: &mut H) ensures self.hashed(*old(state), *final(state)); }
/// `Borrow` and `AsRef` between a value and its parts
pub trait MBorrow<T> { spec fn borrowed(&self, r: &T) -> bool; fn mborrow(&self) -> (r: &T) ensures self.borrowed(r); }
impl<T> MBorrow<T> for T {
    open spec fn borrowed(&self, r: &T) -> bool { *r == *self }
    fn mborrow(&self) -> (r: &T) { self }
}
#[verifier::external_body]
pub fn box_borrow(b: &Box<str>) -> (r: &str) ensures r@ == b@ { &**b }
}
