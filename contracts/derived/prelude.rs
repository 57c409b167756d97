// What the derived code is checked against: borsh's traits and primitive encodings,
// bonfida-utils' traits, a few library functions.  Everything marked external_body,
// axiom or assume_specification is an assumption.
use vstd::prelude::*;

verus! {

pub mod io {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error {}
    /// the text of an error is dropped by the extraction
    #[verifier::external_body]
    pub fn error() -> Error { unimplemented!() }
    /// a writer, by the relation "b was written between the two states"
    pub trait Write: Sized {
        #[verifier::prophetic]
        spec fn wrote(pre: &Self, post: &Self, b: Seq<u8>) -> bool;
        proof fn lemma_chain(a: &Self, b: &Self, c: &Self, x: Seq<u8>, y: Seq<u8>)
            requires Self::wrote(a, b, x), Self::wrote(b, c, y),
            ensures Self::wrote(a, c, x + y);
        proof fn lemma_none(a: &Self)
            ensures Self::wrote(a, a, Seq::empty());
        fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>)
            ensures r is Ok ==> Self::wrote(old(self), final(self), b@);
    }
    /// writing to a byte slice fills its front and leaves the writer the rest
    impl<'a> Write for &'a mut [u8] {
        #[verifier::prophetic]
        open spec fn wrote(pre: &Self, post: &Self, b: Seq<u8>) -> bool {
            b.len() <= (**pre)@.len() && (**post)@ == (**pre)@.skip(b.len() as int)
                && final(*pre)@ == b + final(*post)@
        }
        proof fn lemma_chain(a: &Self, b: &Self, c: &Self, x: Seq<u8>, y: Seq<u8>) {
            assert((**c)@ =~= (**a)@.skip((x + y).len() as int));
            assert(final(*a)@ =~= (x + y) + final(*c)@);
        }
        proof fn lemma_none(a: &Self) {
            assert((**a)@ =~= (**a)@.skip(0));
            assert(final(*a)@ =~= Seq::<u8>::empty() + final(*a)@);
        }
        #[verifier::external_body]
        fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>) { unimplemented!() }
    }
    /// a reader over bytes that only fails when they run out
    pub trait Read: Sized {
        spec fn rest(&self) -> Seq<u8>;
    }
    impl<'a> Read for &'a [u8] {
        open spec fn rest(&self) -> Seq<u8> { (*self)@ }
    }
}

pub mod borsh {
    use vstd::prelude::*;
    use crate::io::*;
    pub trait BorshSerialize: Sized {
        spec fn ser(&self) -> Seq<u8>;
        fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), Error>)
            ensures r is Ok ==> W::wrote(old(writer), final(writer), self.ser());
    }
    pub trait BorshDeserialize: Sized {
        /// the value at the front of the bytes, and what follows it
        spec fn read(s: Seq<u8>) -> Option<(Self, Seq<u8>)>;
        fn deserialize_reader<R: Read>(reader: &mut R) -> (r: Result<Self, Error>)
            ensures match Self::read(old(reader).rest()) {
                Some((x, t)) => r is Ok && r->Ok_0 == x && final(reader).rest() == t,
                None => r is Err,
            };
    }
    pub trait EnumExt: Sized {
        spec fn variant(tag: u8, s: Seq<u8>) -> Option<(Self, Seq<u8>)>;
        fn deserialize_variant<R: Read>(reader: &mut R, variant_idx: u8) -> (r: Result<Self, Error>)
            ensures match Self::variant(variant_idx, old(reader).rest()) {
                Some((x, t)) => r is Ok && r->Ok_0 == x && final(reader).rest() == t,
                None => r is Err,
            };
    }
    /// reading undoes writing
    pub open spec fn reads_back<T: BorshSerialize + BorshDeserialize>(x: T) -> bool {
        forall|t: Seq<u8>| #[trigger] T::read(x.ser() + t) == Some((x, t))
    }
    /// what `try_from_slice` answers: a value that uses up all the bytes
    pub open spec fn borsh_de<T: BorshDeserialize>(b: Seq<u8>) -> Option<T> {
        match T::read(b) {
            Some((x, t)) => if t.len() == 0 { Some(x) } else { None },
            None => None,
        }
    }
    pub proof fn lemma_de<T: BorshSerialize + BorshDeserialize>(x: T)
        requires reads_back(x),
        ensures borsh_de::<T>(x.ser()) == Some(x),
    {
        assert(x.ser() + Seq::<u8>::empty() =~= x.ser());
    }
}

/// borsh's own implementations for the primitive types in use
pub mod primitives {
    use vstd::prelude::*;
    use crate::io::*;
    use crate::borsh::*;
    impl BorshSerialize for u8 {
        open spec fn ser(&self) -> Seq<u8> { seq![*self] }
        #[verifier::external_body]
        fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), Error>) { unimplemented!() }
    }
    impl BorshDeserialize for u8 {
        open spec fn read(s: Seq<u8>) -> Option<(Self, Seq<u8>)> { if s.len() > 0 { Some((s[0], s.skip(1))) } else { None } }
        #[verifier::external_body]
        fn deserialize_reader<R: Read>(reader: &mut R) -> (r: Result<Self, Error>) { unimplemented!() }
    }
    pub broadcast proof fn lemma_u8(x: u8)
        ensures (#[trigger] x.ser()).len() == 1, reads_back(x),
    {
        assert forall|t: Seq<u8>| #[trigger] u8::read(x.ser() + t) == Some((x, t)) by {
            assert((x.ser() + t).skip(1) =~= t);
        }
    }
    impl BorshSerialize for u64 {
        uninterp spec fn ser(&self) -> Seq<u8>;
        #[verifier::external_body]
        fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), Error>) { unimplemented!() }
    }
    impl BorshDeserialize for u64 {
        uninterp spec fn read(s: Seq<u8>) -> Option<(Self, Seq<u8>)>;
        #[verifier::external_body]
        fn deserialize_reader<R: Read>(reader: &mut R) -> (r: Result<Self, Error>) { unimplemented!() }
    }
    pub broadcast axiom fn axiom_u64(x: u64)
        ensures (#[trigger] x.ser()).len() == 8, reads_back(x);
    impl BorshSerialize for u128 {
        uninterp spec fn ser(&self) -> Seq<u8>;
        #[verifier::external_body]
        fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), Error>) { unimplemented!() }
    }
    impl BorshDeserialize for u128 {
        uninterp spec fn read(s: Seq<u8>) -> Option<(Self, Seq<u8>)>;
        #[verifier::external_body]
        fn deserialize_reader<R: Read>(reader: &mut R) -> (r: Result<Self, Error>) { unimplemented!() }
    }
    pub broadcast axiom fn axiom_u128(x: u128)
        ensures (#[trigger] x.ser()).len() == 16, reads_back(x);
    impl BorshSerialize for bool {
        uninterp spec fn ser(&self) -> Seq<u8>;
        #[verifier::external_body]
        fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), Error>) { unimplemented!() }
    }
    impl BorshDeserialize for bool {
        uninterp spec fn read(s: Seq<u8>) -> Option<(Self, Seq<u8>)>;
        #[verifier::external_body]
        fn deserialize_reader<R: Read>(reader: &mut R) -> (r: Result<Self, Error>) { unimplemented!() }
    }
    pub broadcast axiom fn axiom_bool(x: bool)
        ensures (#[trigger] x.ser()).len() == 1, reads_back(x);
    /// a vector of 128-bit numbers: a 32-bit length, then the elements
    impl BorshSerialize for Vec<u128> {
        uninterp spec fn ser(&self) -> Seq<u8>;
        #[verifier::external_body]
        fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), Error>) { unimplemented!() }
    }
    impl BorshDeserialize for Vec<u128> {
        uninterp spec fn read(s: Seq<u8>) -> Option<(Self, Seq<u8>)>;
        #[verifier::external_body]
        fn deserialize_reader<R: Read>(reader: &mut R) -> (r: Result<Self, Error>) { unimplemented!() }
    }
    pub broadcast axiom fn axiom_vec_u128(x: Vec<u128>)
        ensures (#[trigger] x.ser()).len() == 4 + 16 * x@.len(), reads_back(x);
    impl BorshSerialize for Option<u128> {
        uninterp spec fn ser(&self) -> Seq<u8>;
        #[verifier::external_body]
        fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), Error>) { unimplemented!() }
    }
    impl BorshDeserialize for Option<u128> {
        uninterp spec fn read(s: Seq<u8>) -> Option<(Self, Seq<u8>)>;
        #[verifier::external_body]
        fn deserialize_reader<R: Read>(reader: &mut R) -> (r: Result<Self, Error>) { unimplemented!() }
    }
    pub broadcast axiom fn axiom_opt_u128(x: Option<u128>)
        ensures (#[trigger] x.ser()).len() == (if x is Some { 17nat } else { 1 }), reads_back(x);
    pub broadcast group group_primitives {
        lemma_u8, axiom_u64, axiom_u128, axiom_bool, axiom_vec_u128, axiom_opt_u128,
    }
}

pub mod solana {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub struct Pubkey(pub [u8; 32]);
    pub struct AccountMeta { pub pubkey: Pubkey, pub is_signer: bool, pub is_writable: bool }
    pub struct Instruction { pub program_id: Pubkey, pub accounts: Vec<AccountMeta>, pub data: Vec<u8> }
}

pub mod lib {
    use vstd::prelude::*;
    /// `Vec::set_len` within the capacity: the new elements hold anything
    #[verifier::external_body]
    pub fn set_len(v: &mut Vec<u8>, n: usize)
        ensures final(v)@.len() == n,
    { unimplemented!() }
    /// `unwrap`: returns only on Ok, aborts otherwise
    #[verifier::external_body]
    pub fn unwrap<T, E>(r: Result<T, E>) -> (v: T)
        ensures r == Ok::<T, E>(v),
    { unimplemented!() }
    /// `to_le_bytes` of a single byte
    #[verifier::external_body]
    pub fn le_bytes(x: u8) -> (r: [u8; 1])
        ensures r@ == seq![x],
    { unimplemented!() }
}
