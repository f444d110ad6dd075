// Stand-ins for the dependencies of meerkat: opaque types and functions with
// the contracts that are ASSUMED of them.  Every external_body here is listed
// in the evidence as part of the trusted base.
//@ global
pub mod vxdeps {
use vstd::prelude::*;

// ---- anyhow -------------------------------------------------------------
pub mod anyhow {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error { _x: () }
    #[verifier::external]
    impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
    pub type Result<T> = core::result::Result<T, Error>;
    #[verifier::external_body]
    pub fn mk_error() -> Error { unimplemented!() }
    #[macro_export]
    macro_rules! vx_anyhow { ($($t:tt)*) => { $crate::vxdeps::anyhow::mk_error() } }
    pub use vx_anyhow as anyhow;
    impl From<crate::vxdeps::vxstd::io::Error> for Error {
        #[verifier::external_body]
        fn from(e: crate::vxdeps::vxstd::io::Error) -> Self { unimplemented!() }
    }
    pub trait Context<T> : Sized {
        spec fn vx_ok(&self) -> Option<T>;
        fn context(self, c: &str) -> (r: Result<T>)
            ensures
                r is Ok <==> self.vx_ok() is Some,
                r is Ok ==> self.vx_ok() == Some(r->Ok_0);
    }
    impl<T, E> Context<T> for core::result::Result<T, E> {
        open spec fn vx_ok(&self) -> Option<T> { match self { Ok(t) => Some(*t), Err(_) => None } }
        #[verifier::external_body]
        fn context(self, c: &str) -> (r: Result<T>) { unimplemented!() }
    }
}

// ---- std::io, std::path, std::fs ----------------------------------------
pub mod vxstd {
    pub mod io {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub struct Error { _x: () }
        pub type Result<T> = core::result::Result<T, Error>;
        pub enum ErrorKind { Other, InvalidInput, InvalidData, UnexpectedEof }
        impl Error {
            #[verifier::external_body]
            pub fn new(k: ErrorKind, m: &str) -> Error { unimplemented!() }
        }
        #[verifier::external]
        impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
    }
    pub mod path {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub struct Path { _x: () }
        #[verifier::external_body]
        pub struct PathBuf { _x: () }
        impl Path {
            pub uninterp spec fn view(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn join<P: crate::vxdeps::AsRef<Path>>(&self, p: P) -> (r: PathBuf)
                ensures r@@ == path_join(self@, p.vx_ref()@)
            { unimplemented!() }
        }
        impl PathBuf { pub uninterp spec fn view(&self) -> Path; }
        pub uninterp spec fn path_join(a: Seq<char>, b: Seq<char>) -> Seq<char>;
        pub uninterp spec fn path_of(a: Seq<char>) -> Path;
        pub broadcast axiom fn axiom_path_of(a: Seq<char>) ensures (#[trigger] path_of(a))@ == a;
    }
    pub mod fs {
        use vstd::prelude::*;
        use crate::vxdeps::vxstd::io;
        use crate::vxdeps::vxstd::path::*;
        #[verifier::external_body]
        pub struct File { _x: () }
        #[verifier::external_body]
        pub struct Metadata { _x: () }
        /// the content of the file with this path
        pub uninterp spec fn content(p: Seq<char>) -> Seq<u8>;
        impl File {
            pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn open<P: crate::vxdeps::AsRef<Path>>(p: P) -> (r: io::Result<File>)
                ensures r matches Ok(f) ==> f@ == content(p.vx_ref()@)
            { unimplemented!() }
            #[verifier::external_body]
            pub fn metadata(&self) -> (r: io::Result<Metadata>)
                ensures r matches Ok(m) ==> m.vx_len() == self@.len()
            { unimplemented!() }
            /// pread until the buffer is full; a file that ends before that is an error.
            #[verifier::external_body]
            pub fn read_exact_at(&self, buf: &mut [u8], offset: u64) -> (r: io::Result<()>)
                ensures
                    final(buf)@.len() == old(buf)@.len(),
                    r is Ok ==> offset + old(buf)@.len() <= self@.len() || old(buf)@.len() == 0,
                    r is Ok && old(buf)@.len() > 0 ==> final(buf)@ == self@.subrange(offset as int, offset + old(buf)@.len()),
            { unimplemented!() }
        }
        impl Metadata {
            pub uninterp spec fn vx_len(&self) -> nat;
            #[verifier::external_body]
            pub fn len(&self) -> (r: u64) ensures r == self.vx_len() { unimplemented!() }
        }
    }
    pub mod os { pub mod unix { pub mod fs { pub trait FileExt {} } } }
    pub mod sync { pub use std::sync::Arc; }
}
/// std::convert::AsRef
pub trait AsRef<T: ?Sized> {
    spec fn vx_ref(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.vx_ref();
}
impl AsRef<vxstd::path::Path> for vxstd::path::Path {
    open spec fn vx_ref(&self) -> &vxstd::path::Path { self }
    fn as_ref(&self) -> (r: &vxstd::path::Path) { self }
}
impl AsRef<vxstd::path::Path> for vxstd::path::PathBuf {
    open spec fn vx_ref(&self) -> &vxstd::path::Path { &self@ }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &vxstd::path::Path) { unimplemented!() }
}
impl AsRef<vxstd::path::Path> for String {
    open spec fn vx_ref(&self) -> &vxstd::path::Path { &vxstd::path::path_of(self@) }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &vxstd::path::Path) { unimplemented!() }
}
pub uninterp spec fn vec_slice(v: Vec<u8>) -> &'static [u8];
pub broadcast axiom fn axiom_vec_slice(v: Vec<u8>) ensures (#[trigger] vec_slice(v))@ == v@;
impl AsRef<[u8]> for Vec<u8> {
    open spec fn vx_ref(&self) -> &[u8] { vec_slice(*self) }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { self.as_slice() }
}
impl<T: ?Sized, U: AsRef<T>> AsRef<T> for &U {
    open spec fn vx_ref(&self) -> &T { (**self).vx_ref() }
    fn as_ref(&self) -> (r: &T) { (**self).as_ref() }
}
/// std::borrow::ToOwned
pub trait VxToOwned {
    type Owned;
    spec fn vx_owned(&self, r: Self::Owned) -> bool;
    fn vx_to_owned(&self) -> (r: Self::Owned) ensures self.vx_owned(r);
}
impl VxToOwned for vxstd::path::Path {
    type Owned = vxstd::path::PathBuf;
    open spec fn vx_owned(&self, r: vxstd::path::PathBuf) -> bool { r@ == *self }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: vxstd::path::PathBuf) { unimplemented!() }
}

// ---- tokio --------------------------------------------------------------
pub mod tokio {
    pub mod io {
        pub use crate::vxdeps::vxstd::io::*;
        pub trait AsyncWriteExt {}
    }
    pub mod task {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub struct JoinError { _x: () }
        /// the closure runs once, on another thread.
        #[verifier::external_body]
        pub fn spawn_blocking<F, R>(f: F) -> (r: core::result::Result<R, JoinError>)
            where F: FnOnce() -> R + Send + 'static, R: Send + 'static
            requires f.requires(())
            ensures r matches Ok(x) ==> f.ensures((), x)
        { unimplemented!() }
    }
    pub mod fs {
        use vstd::prelude::*;
        use crate::vxdeps::vxstd::io;
        use crate::vxdeps::vxstd::path::*;
        /// A fact of the history: the file of this path was made durable with this content.
        pub uninterp spec fn durable(path: Seq<char>, content: Seq<u8>) -> bool;
        #[verifier::external_body]
        pub struct File { _x: () }
        impl File {
            /// what has been written to the file.
            pub uninterp spec fn view(&self) -> Seq<u8>;
            pub uninterp spec fn path(&self) -> Seq<char>;
            /// an operation on the file reported an error.
            pub uninterp spec fn failed(&self) -> bool;
            /// no write is pending: all of them completed, and none failed.
            pub uninterp spec fn flushed(&self) -> bool;
            #[verifier::external_body]
            pub fn create<P: crate::vxdeps::AsRef<Path>>(p: P) -> (r: io::Result<File>)
                ensures r matches Ok(f) ==> f@ == Seq::<u8>::empty() && !f.failed() && f.path() == p.vx_ref()@
            { unimplemented!() }
            /// No file grows beyond i64::MAX bytes (off_t).
            #[verifier::external_body]
            pub fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
                ensures
                    r is Ok ==> final(self)@ == old(self)@ + b@ && final(self)@.len() <= i64::MAX,
                    final(self).failed() == (old(self).failed() || r is Err),
                    final(self).path() == old(self).path(),
            { unimplemented!() }
            /// Reports the failure of a write that was pending.
            #[verifier::external_body]
            pub fn flush(&mut self) -> (r: io::Result<()>)
                ensures
                    r is Ok ==> final(self)@ == old(self)@ && final(self).flushed(),
                    final(self).failed() == (old(self).failed() || r is Err),
                    final(self).path() == old(self).path(),
            { unimplemented!() }
            /// tokio's sync_all waits for a pending write but does not report its
            /// failure, so it promises something only for a flushed file.
            #[verifier::external_body]
            pub fn sync_all(&mut self) -> (r: io::Result<()>)
                ensures
                    r is Ok ==> final(self)@ == old(self)@,
                    r is Ok && old(self).flushed() ==> final(self).flushed() && durable(old(self).path(), old(self)@),
                    final(self).failed() == (old(self).failed() || r is Err),
                    final(self).path() == old(self).path(),
            { unimplemented!() }
        }
    }
}

// ---- futures ------------------------------------------------------------
pub mod futures {
    pub trait StreamExt {}
    pub mod stream {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct VxStream<T> { _t: core::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct BoxStream<'a, T> { _t: core::marker::PhantomData<&'a T> }
        impl<'a, T> BoxStream<'a, T> { pub uninterp spec fn items(&self) -> Seq<T>; }
        #[verifier::external_body]
        pub fn iter<T>(v: Vec<T>) -> (r: VxStream<T>) ensures r.items() == v@ { unimplemented!() }
        impl<T> VxStream<T> {
            /// what the stream yields, in order.
            pub uninterp spec fn items(&self) -> Seq<T>;
            #[verifier::external_body]
            pub fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: VxStream<U>)
                requires forall|i: int| 0 <= i < self.items().len() ==> f.requires((#[trigger] self.items()[i],))
                ensures
                    r.items().len() == self.items().len(),
                    forall|i: int| 0 <= i < r.items().len() ==> f.ensures((self.items()[i],), #[trigger] r.items()[i]),
            { unimplemented!() }
            /// at most n futures at a time, results in the order of the stream.
            #[verifier::external_body]
            pub fn buffered(self, n: usize) -> (r: VxStream<T>)
                requires n > 0
                ensures r.items() == self.items()
            { unimplemented!() }
            #[verifier::external_body]
            pub fn boxed<'a>(self) -> (r: BoxStream<'a, T>) ensures r.items() == self.items() { unimplemented!() }
        }
    }
}

// ---- prost, uuid, base64, format! ---------------------------------------
pub mod prost {
    use vstd::prelude::*;
    /// the protobuf encoding of a message
    pub uninterp spec fn pb<T>(m: T) -> Seq<u8>;
    pub trait Message : Sized {
        fn encode_to_vec(&self) -> (r: Vec<u8>) ensures r@ == pb(*self);
    }
    impl<T> Message for T {
        #[verifier::external_body]
        fn encode_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
    }
}
pub mod uuid {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Uuid { _x: () }
    impl Uuid {
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn as_bytes(&self) -> (r: &[u8; 16]) ensures r@ == self@ { unimplemented!() }
    }
}
pub mod base64 {
    use vstd::prelude::*;
    pub enum Config { STANDARD, STANDARD_NO_PAD, URL_SAFE, URL_SAFE_NO_PAD }
    pub use Config::*;
    pub uninterp spec fn b64(b: Seq<u8>, c: Config) -> Seq<char>;
    #[verifier::external_body]
    pub fn encode_config(b: &[u8; 16], c: Config) -> (r: String) ensures r@ == b64(b@, c) { unimplemented!() }
}
pub trait VxFmt { spec fn parts(&self) -> Seq<Seq<char>>; }
pub trait VxStr { spec fn vx_str(&self) -> Seq<char>; }
impl VxStr for String { open spec fn vx_str(&self) -> Seq<char> { self@ } }
impl VxStr for str { open spec fn vx_str(&self) -> Seq<char> { self@ } }
impl<T: VxStr + ?Sized> VxStr for &T { open spec fn vx_str(&self) -> Seq<char> { (**self).vx_str() } }
impl<A: VxStr> VxFmt for (A,) { open spec fn parts(&self) -> Seq<Seq<char>> { seq![self.0.vx_str()] } }
impl<A: VxStr, B: VxStr> VxFmt for (A, B) { open spec fn parts(&self) -> Seq<Seq<char>> { seq![self.0.vx_str(), self.1.vx_str()] } }
/// format! with `{}` only
pub open spec fn fmt(t: Seq<char>, a: Seq<Seq<char>>) -> Seq<char>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() }
    else if t.len() >= 2 && t[0] == '{' && t[1] == '}' && a.len() > 0 { a[0] + fmt(t.skip(2), a.skip(1)) }
    else { seq![t[0]] + fmt(t.skip(1), a) }
}
#[verifier::external_body]
pub fn vx_format<A: VxFmt>(t: &str, a: A) -> (r: String) ensures r@ == fmt(t@, a.parts()) { unimplemented!() }

// ---- itertools ----------------------------------------------------------
pub mod itertools {
    use vstd::prelude::*;
    use vstd::std_specs::iter::IteratorSpec;
    pub trait Itertools<'a> : Sized {
        #[verifier::prophetic] spec fn vx_rest(&self) -> Seq<&'a u32>;
        fn find_position<P: FnMut(&&'a u32) -> bool>(&mut self, pred: P) -> (r: Option<(usize, &'a u32)>)
            requires
                forall|i: int| 0 <= i < old(self).vx_rest().len() ==> pred.requires((&old(self).vx_rest()[i],)),
            ensures
                match r {
                    Some(p) => p.0 < old(self).vx_rest().len() && p.1 == old(self).vx_rest()[p.0 as int]
                        && pred.ensures((&old(self).vx_rest()[p.0 as int],), true)
                        && (p.0 > 0 ==> pred.ensures((&old(self).vx_rest()[p.0 - 1],), false))
                        && (forall|i: int| 0 <= i < p.0 ==> pred.ensures((&#[trigger] old(self).vx_rest()[i],), false)),
                    None => (forall|i: int| 0 <= i < old(self).vx_rest().len() ==> pred.ensures((&#[trigger] old(self).vx_rest()[i],), false))
                        && (old(self).vx_rest().len() > 0 ==> pred.ensures((&old(self).vx_rest()[old(self).vx_rest().len() - 1],), false)),
                };
    }
    impl<'a> Itertools<'a> for core::slice::Iter<'a, u32> {
        #[verifier::prophetic] open spec fn vx_rest(&self) -> Seq<&'a u32> { self.remaining() }
        #[verifier::external_body]
        fn find_position<P: FnMut(&&'a u32) -> bool>(&mut self, pred: P) -> (r: Option<(usize, &'a u32)>)
        { unimplemented!() }
    }
}

// ---- bitpacking ---------------------------------------------------------
pub mod bitpacking {
    use vstd::prelude::*;
    use crate::vxspec::*;
    /// In the crate this is a trait; its only use here is to bring the methods
    /// of BitPacker4x into scope.
    pub trait BitPacker {}
    #[verifier::external_body]
    pub struct BitPacker4x { _x: () }
    impl BitPacker4x {
        pub const BLOCK_LEN: usize = 128;
        #[verifier::external_body]
        pub fn new() -> Self { unimplemented!() }
        #[verifier::external_body]
        pub fn num_bits(&self, d: &[u32]) -> (r: u8)
            requires d@.len() == 128
            ensures r <= 32, fits(d@, r as nat), r > 0 ==> !fits(d@, (r - 1) as nat)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn compress(&self, d: &[u32], out: &mut [u8], num_bits: u8) -> (r: usize)
            requires d@.len() == 128, num_bits <= 32, old(out)@.len() >= 16 * (num_bits as int)
            ensures
                r == 16 * (num_bits as int),
                final(out)@.len() == old(out)@.len(),
                final(out)@ == bp_pack(d@, num_bits) + old(out)@.subrange(r as int, old(out)@.len() as int),
        { unimplemented!() }
    }
}

// ---- std::collections::HashMap, with String keys ------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl<V> HashMap<String, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v)
    { unimplemented!() }
}

// ---- rewriting targets --------------------------------------------------
pub trait VxChunks<T> {
    spec fn vx_all(&self) -> Seq<T>;
    fn vx_chunks(&self, n: usize) -> (r: Vec<&[T]>)
        requires n > 0
        ensures
            r@.len() == (self.vx_all().len() + n - 1) / (n as int),
            forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==>
                r@[i]@ == self.vx_all().subrange(i * n, if (i + 1) * n < self.vx_all().len() { (i + 1) * n } else { self.vx_all().len() as int });
}
impl<T> VxChunks<T> for [T] {
    open spec fn vx_all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_chunks(&self, n: usize) -> (r: Vec<&[T]>) { self.chunks(n).collect() }
}
pub trait VxSliceFrom<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_slice_from_mut(&mut self, a: usize) -> (r: &mut [T])
        requires a <= old(self).vx_seq().len()
        ensures
            r@ == old(self).vx_seq().subrange(a as int, old(self).vx_seq().len() as int),
            final(self).vx_seq() == old(self).vx_seq().subrange(0, a as int) + final(r)@;
}
impl<T> VxSliceFrom<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_slice_from_mut(&mut self, a: usize) -> (r: &mut [T]) { &mut self[a..] }
}
#[verifier::external_body]
pub fn vx_array_vec<T: Copy, const N: usize>(a: [T; N]) -> (r: Vec<T>)
    ensures r@ == a@
{ a.to_vec() }
pub assume_specification<T, const N: usize>[ <[T; N]>::as_mut_slice ](a: &mut [T; N]) -> (r: &mut [T])
    ensures r@ == old(a)@, final(a)@ == final(r)@;
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> cloned::<T>(s@[i], #[trigger] r@[i]);
/// u64::to_le_bytes, u64::to_be_bytes
pub trait VxBytes8 {
    spec fn vx_num(&self) -> int;
    fn vx_to_le_bytes(&self) -> (r: [u8; 8]) ensures r@ == crate::vxspec::le8(self.vx_num(), 8);
    fn vx_to_be_bytes(&self) -> (r: [u8; 8]) ensures r@ == crate::vxspec::le8(self.vx_num(), 8).reverse();
}
impl VxBytes8 for u64 {
    open spec fn vx_num(&self) -> int { *self as int }
    #[verifier::external_body]
    fn vx_to_le_bytes(&self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_to_be_bytes(&self) -> (r: [u8; 8]) { self.to_be_bytes() }
}
/// u32::to_le_bytes, u32::to_be_bytes
pub trait VxBytes4 {
    spec fn vx_num(&self) -> int;
    fn vx_to_le_bytes(&self) -> (r: [u8; 4]) ensures r@ == crate::vxspec::le8(self.vx_num(), 4);
    fn vx_to_be_bytes(&self) -> (r: [u8; 4]) ensures r@ == crate::vxspec::le8(self.vx_num(), 4).reverse();
}
impl VxBytes4 for u32 {
    open spec fn vx_num(&self) -> int { *self as int }
    #[verifier::external_body]
    fn vx_to_le_bytes(&self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body]
    fn vx_to_be_bytes(&self) -> (r: [u8; 4]) { self.to_be_bytes() }
}
/// The raw view of a slice: assumed, and pinned to the memory of the slice by
/// crate::vxspec::axiom_raw_bytes.
pub assume_specification<T>[ <[T]>::as_ptr ](s: &[T]) -> (r: *const T)
    ensures r == crate::vxspec::ptr_of(s@);
pub assume_specification<'a, T>[ core::slice::from_raw_parts::<'a, T> ](p: *const T, n: usize) -> (r: &'a [T])
    ensures r@ == crate::vxspec::mem_at(p, n as nat), r@.len() == n;
// Library functions a refactoring is likely to use instead of what is written now.
pub assume_specification<T: Ord>[ core::cmp::min::<T> ](a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == core::cmp::Ordering::Less { b } else { a });
pub assume_specification<T: Ord>[ core::cmp::max::<T> ](a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == core::cmp::Ordering::Less { a } else { b });
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b != 0
    ensures r == a as int / b as int + (if a as int % b as int == 0 { 0int } else { 1int });
pub assume_specification[ usize::next_multiple_of ](a: usize, b: usize) -> (r: usize)
    requires b != 0, (a as int / b as int + (if a as int % b as int == 0 { 0int } else { 1int })) * b as int <= usize::MAX
    ensures r == (a as int / b as int + (if a as int % b as int == 0 { 0int } else { 1int })) * b as int;
pub assume_specification<T>[ bool::then_some::<T> ](b: bool, t: T) -> (r: Option<T>)
    ensures r == (if b { Some(t) } else { None });
pub assume_specification<T>[ core::mem::replace::<T> ](d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;
pub assume_specification<T: Default>[ core::mem::take::<T> ](d: &mut T) -> (r: T)
    ensures r == *old(d), call_ensures(T::default, (), *final(d));
pub assume_specification<T>[ core::mem::drop::<T> ](t: T);
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(t) => Some(*t), None => None });
} // vxdeps
