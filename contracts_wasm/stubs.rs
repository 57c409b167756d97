// Trusted models of what the WebAssembly reader is linked against.  Nothing here is
// taken from /repo; every item is an assumption and is listed as such in the evidence.
// nothing is said about the width of usize: the proof holds for wasm32 and for 64 bit hosts

pub mod wasm_bindgen { pub mod prelude {} }

// the reader borrows its buffer for reading only: the bytes stay what they were when the cell was made
pub mod cell {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct RefCell<T> { t: T }
    impl<'a> RefCell<&'a mut [u8]> {
        pub uninterp spec fn bytes(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new(b: &'a mut [u8]) -> (r: Self)
            ensures r.bytes() == old(b)@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn borrow(&self) -> (r: &[u8])
            ensures r@ == self.bytes(),
        { unimplemented!() }
    }
}
pub mod rc {
    pub use std::rc::Rc;
}

// borsh: little endian, one after the other
pub trait BorshDec: Sized {
    spec fn blen() -> nat;
    spec fn bok(b: Seq<u8>) -> bool;
    spec fn bdec(b: Seq<u8>) -> Self;
}
pub open spec fn le(b: Seq<u8>) -> nat
    decreases b.len(),
{
    if b.len() == 0 { 0 } else { b[0] as nat + 256 * le(b.skip(1)) }
}
impl BorshDec for u32 {
    open spec fn blen() -> nat { 4 }
    open spec fn bok(b: Seq<u8>) -> bool { true }
    open spec fn bdec(b: Seq<u8>) -> Self { le(b) as u32 }
}
impl BorshDec for u64 {
    open spec fn blen() -> nat { 8 }
    open spec fn bok(b: Seq<u8>) -> bool { true }
    open spec fn bdec(b: Seq<u8>) -> Self { le(b) as u64 }
}
impl BorshDec for u128 {
    open spec fn blen() -> nat { 16 }
    open spec fn bok(b: Seq<u8>) -> bool { true }
    open spec fn bdec(b: Seq<u8>) -> Self { le(b) as u128 }
}
pub uninterp spec fn arr32(b: Seq<u8>) -> [u8; 32];
impl BorshDec for [u8; 32] {
    open spec fn blen() -> nat { 32 }
    open spec fn bok(b: Seq<u8>) -> bool { true }
    open spec fn bdec(b: Seq<u8>) -> Self { arr32(b) }
}
impl BorshDec for [u32; 2] {
    open spec fn blen() -> nat { 8 }
    open spec fn bok(b: Seq<u8>) -> bool { true }
    open spec fn bdec(b: Seq<u8>) -> Self { [le(b.subrange(0, 4)) as u32, le(b.subrange(4, 8)) as u32] }
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExError(std::io::Error);
#[verifier::external_type_specification]
pub struct ExErrorKind(std::io::ErrorKind);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);
pub mod borsh { pub trait BorshSerialize {} pub trait BorshDeserialize {} }
// `x as &[u8]`
pub trait VxSlice<'a>: Sized {
    spec fn bs(self) -> Seq<u8>;
    fn slice(self) -> (r: &'a [u8])
        ensures r@ == self.bs();
}
impl<'a> VxSlice<'a> for &'a [u8] {
    open spec fn bs(self) -> Seq<u8> { self@ }
    fn slice(self) -> &'a [u8] { self }
}
impl<'a> VxSlice<'a> for &'a &'a [u8] {
    open spec fn bs(self) -> Seq<u8> { (*self)@ }
    fn slice(self) -> &'a [u8] { *self }
}
pub fn vx_slice<'a, T: VxSlice<'a>>(t: T) -> (r: &'a [u8])
    ensures r@ == t.bs(),
{ t.slice() }
#[verifier::external_body]
pub fn u128_from_le_bytes(b: [u8; 16]) -> (r: u128)
    ensures r == le(b@) as u128,
{ unimplemented!() }
#[verifier::external_body]
pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64)
    ensures r == le(b@) as u64,
{ unimplemented!() }
pub assume_specification<T: Clone> [<[T] as std::borrow::ToOwned>::to_owned](s: &[T]) -> (r: Vec<T>);
// a slice of the right length converts to an array
#[verifier::external_body]
pub broadcast proof fn axiom_into_array<'a, const N: usize>(s: &'a [u8])
    ensures
        (#[trigger] <&'a [u8] as vstd::std_specs::convert::TryIntoSpec<[u8; N]>>::try_into_spec(s)) matches r ==> ((r is Ok <==> s@.len() == N) && (r is Ok ==> r->Ok_0@ == s@)),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_into_array_obeys<'a, const N: usize>()
    ensures #[trigger] <&'a [u8] as vstd::std_specs::convert::TryIntoSpec<[u8; N]>>::obeys_try_into_spec(),
{}
pub broadcast group group_std { axiom_into_array, axiom_into_array_obeys }
