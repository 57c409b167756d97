// Trusted models of the crates the program is linked against.  Nothing here is
// taken from /repo; every item is an assumption and is listed as such in the evidence.
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;

pub mod borsh {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error {}
    pub uninterp spec fn borsh_de<T>(b: Seq<u8>) -> Result<T, Error>;
    pub uninterp spec fn borsh_ser<T>(t: T) -> Seq<u8>;
    // writing to a byte slice fills its front and leaves the writer the rest
    pub trait BorshSerialize: Sized {
        fn serialize<'a>(&self, w: &mut &'a mut [u8]) -> (r: Result<(), Error>)
            ensures
                r is Ok ==> borsh_ser(*self).len() <= (**old(w))@.len()
                    && (**final(w))@ == (**old(w))@.skip(borsh_ser(*self).len() as int)
                    && final(*old(w))@ == borsh_ser(*self) + final(*final(w))@;
    }
    pub trait BorshDeserialize {}
    impl<T> BorshSerialize for T {
        #[verifier::external_body]
        fn serialize<'a>(&self, w: &mut &'a mut [u8]) -> (r: Result<(), Error>) { unimplemented!() }
    }
    impl<T> BorshDeserialize for T {}
}

pub mod num_traits {
    use vstd::prelude::*;
    pub trait FromPrimitive: Sized {
        spec fn spec_from_u8(n: u8) -> Option<Self>;
        fn from_u8(n: u8) -> (r: Option<Self>)
            ensures r == Self::spec_from_u8(n);
    }
}

pub mod bonfida_utils {
    use vstd::prelude::*;
    pub use crate::fp_math;
    use crate::stubs::borsh::*;
    // the length the encoding has
    pub trait BorshSize: Sized {
        fn borsh_len(&self) -> (r: usize)
            requires borsh_ser(*self).len() <= usize::MAX,
            ensures r == borsh_ser(*self).len();
    }
    impl BorshSize for u64 {
        #[verifier::external_body]
        fn borsh_len(&self) -> usize { unimplemented!() }
    }
    impl BorshSize for bool {
        #[verifier::external_body]
        fn borsh_len(&self) -> usize { unimplemented!() }
    }
    pub mod checks {
        use vstd::prelude::*;
        use crate::stubs::solana_program::account_info::AccountInfo;
        use crate::stubs::solana_program::program_error::ProgramError;
        // reads the rent sysvar; its verdict is opaque
        pub uninterp spec fn rent_exempt(a: &AccountInfo) -> bool;
        #[verifier::external_body]
        pub fn check_rent_exempt(account: &AccountInfo) -> (r: Result<(), ProgramError>)
            ensures r is Ok <==> rent_exempt(account),
        { unimplemented!() }
    }
}

pub mod bytemuck {
    use vstd::prelude::*;
    pub trait Pod: Copy {}
    impl<T: Copy> Pod for T {}
    pub trait Zeroable {}
    impl<T> Zeroable for T {}
    // the value a byte string denotes, and back
    pub uninterp spec fn pod_from<T>(b: Seq<u8>) -> T;
    pub uninterp spec fn pod_bytes<T>(t: T) -> Seq<u8>;
    pub open spec fn pod_slice<T>(b: Seq<u8>) -> Seq<T> {
        let n = vstd::layout::size_of::<T>();
        Seq::new(if n == 0 { 0nat } else { b.len() / n }, |i: int| pod_from::<T>(b.subrange(i * n, (i + 1) * n)))
    }
    #[verifier::external_body]
    pub proof fn axiom_pod_round<T>(t: T)
        ensures pod_from::<T>(pod_bytes::<T>(t)) == t, pod_bytes::<T>(t).len() == vstd::layout::size_of::<T>(),
    {}
    #[verifier::external_body]
    pub proof fn axiom_pod_unround<T>(b: Seq<u8>)
        requires b.len() == vstd::layout::size_of::<T>(),
        ensures pod_bytes::<T>(pod_from::<T>(b)) == b,
    {}
    // integers are stored least significant byte first
    #[verifier::external_body]
    pub proof fn axiom_le32(b: Seq<u8>)
        requires b.len() == 4,
        ensures pod_from::<u32>(b) == b[0] + 0x100 * b[1] + 0x1_0000 * b[2] + 0x100_0000 * b[3],
    {}
    #[verifier::external_body]
    pub proof fn axiom_le64(b: Seq<u8>)
        requires b.len() == 8,
        ensures pod_from::<u64>(b) == b[0] + 0x100 * b[1] + 0x1_0000 * b[2] + 0x100_0000 * b[3]
            + 0x1_0000_0000 * b[4] + 0x100_0000_0000 * b[5] + 0x1_0000_0000_0000 * b[6] + 0x100_0000_0000_0000 * b[7],
    {}
    #[verifier::external_body]
    pub fn from_bytes_mut<T>(b: &mut [u8]) -> (r: &mut T)
        requires old(b)@.len() == vstd::layout::size_of::<T>(),
        ensures
            *r == pod_from::<T>(old(b)@),
            pod_from::<T>(final(b)@) == *final(r),
            final(b)@.len() == old(b)@.len(),
            *final(r) == *r ==> final(b)@ == old(b)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes<T>(b: &[u8]) -> (r: &T)
        requires b@.len() == vstd::layout::size_of::<T>(),
        ensures *r == pod_from::<T>(b@),
    { unimplemented!() }
    pub trait Byte: Sized {
        spec fn bytes(s: Seq<Self>) -> Seq<u8>;
    }
    impl Byte for u8 {
        open spec fn bytes(s: Seq<u8>) -> Seq<u8> { s }
    }
    #[verifier::external_body]
    pub fn cast_slice_mut<A: Byte, B>(b: &mut [A]) -> (r: &mut [B])
        requires
            vstd::layout::size_of::<B>() > 0,
            A::bytes(old(b)@).len() % vstd::layout::size_of::<B>() == 0,
        ensures
            r@ == pod_slice::<B>(A::bytes(old(b)@)),
            pod_slice::<B>(A::bytes(final(b)@)) == final(r)@,
            final(b)@.len() == old(b)@.len(),
            final(r)@.len() == r@.len(),
            final(r)@ == r@ ==> final(b)@ == old(b)@,
    { unimplemented!() }
    pub uninterp spec fn reinterpret<A, B>(a: A) -> B;
    #[verifier::external_body]
    pub proof fn axiom_reinterpret<A, B>(a: A)
        requires vstd::layout::size_of::<A>() == vstd::layout::size_of::<B>(),
        ensures pod_bytes::<B>(reinterpret::<A, B>(a)) == pod_bytes::<A>(a),
    {}
    #[verifier::external_body]
    pub fn cast_ref<A, B>(a: &A) -> (r: &B)
        ensures *r == reinterpret::<A, B>(*a),
    { unimplemented!() }
}

pub mod solana_program {
    pub mod program_error {
        use vstd::prelude::*;
        #[derive(Debug)]
        pub enum ProgramError {
            Custom(u32),
            InvalidArgument,
            InvalidInstructionData,
            InvalidAccountData,
            AccountDataTooSmall,
            InsufficientFunds,
            IncorrectProgramId,
            MissingRequiredSignature,
            AccountAlreadyInitialized,
            UninitializedAccount,
            NotEnoughAccountKeys,
            AccountBorrowFailed,
            MaxSeedLengthExceeded,
            InvalidSeeds,
            AccountNotRentExempt,
            UnsupportedSysvar,
            IllegalOwner,
            ArithmeticOverflow,
            Immutable,
            IncorrectAuthority,
        }
        pub trait PrintProgramError {}
        impl ProgramError {
            // logs
            #[verifier::external_body]
            pub fn print<E>(&self) {}
        }
    }
    pub mod decode_error { pub trait DecodeError<T> {} }
    pub mod entrypoint {
        pub type ProgramResult = Result<(), crate::stubs::solana_program::program_error::ProgramError>;
    }
    pub mod pubkey {
        use vstd::prelude::*;
        #[derive(Clone, Copy, Debug)]
        pub struct Pubkey(pub [u8; 32]);
        impl Pubkey {
            #[verifier::external_body]
            pub fn to_bytes(self) -> (r: [u8; 32])
                ensures r@ == self.0@,
            { unimplemented!() }
        }
        impl vstd::std_specs::cmp::PartialEqSpecImpl for Pubkey {
            open spec fn obeys_eq_spec() -> bool { true }
            open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
        }
        impl PartialEq for Pubkey {
            #[verifier::external_body]
            fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
        }
    }
    pub mod account_info {
        use vstd::prelude::*;
        use super::pubkey::Pubkey;
        use super::program_error::ProgramError;
        #[verifier::external_body]
        pub fn next_account_info<'a, 'b, 'c>(iter: &'c mut std::slice::Iter<'a, AccountInfo<'b>>) -> (r: Result<&'a AccountInfo<'b>, ProgramError>)
            ensures
                rest(*old(iter)).len() == 0 ==> r is Err,
                rest(*old(iter)).len() > 0 ==> r is Ok && r->Ok_0 == rest(*old(iter))[0]
                    && rest(*final(iter)) == rest(*old(iter)).drop_first(),
        { unimplemented!() }
        #[verifier::prophetic]
        pub open spec fn rest<'a, 'b>(i: std::slice::Iter<'a, AccountInfo<'b>>) -> Seq<&'a AccountInfo<'b>> {
            vstd::std_specs::iter::IteratorSpec::remaining(&i)
        }
        // Stand-in for Rc<RefCell<&mut [u8]>>.  `pre` is the content at entry of the
        // instruction, `post` at its exit: each cell is mutably borrowed at most once
        // per instruction (the RefCell aborts the transaction on overlapping borrows).
        // which cells an instruction may write: granted by the contract of `process`
        pub uninterp spec fn may_write<'a>(c: &DataCell<'a>) -> bool;
        pub uninterp spec fn may_pay<'a>(c: &LamportsCell<'a>) -> bool;
        #[verifier::external_body]
        pub struct DataCell<'a> { p: core::marker::PhantomData<&'a u8> }
        impl<'a> DataCell<'a> {
            pub uninterp spec fn pre(&self) -> Seq<u8>;
            pub uninterp spec fn post(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn borrow_mut(&self) -> (r: &mut [u8])
                requires may_write(self),
                ensures r@ == self.pre(), final(r)@ == self.post(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn borrow(&self) -> (r: &[u8])
                ensures r@ == self.pre(),
            { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct LamportsCell<'a> { p: core::marker::PhantomData<&'a u8> }
        pub struct LamportsRef<'a> { pub v: &'a mut u64 }
        impl<'a> LamportsCell<'a> {
            pub uninterp spec fn pre(&self) -> u64;
            pub uninterp spec fn post(&self) -> u64;
            #[verifier::external_body]
            pub fn borrow_mut(&self) -> (r: &mut &mut u64)
                requires may_pay(self),
                ensures **r == self.pre(), **final(r) == self.post(),
            { unimplemented!() }
        }
        pub struct AccountInfo<'a> {
            pub key: &'a Pubkey,
            pub lamports: LamportsCell<'a>,
            pub data: DataCell<'a>,
            pub owner: &'a Pubkey,
            pub rent_epoch: u64,
            pub is_signer: bool,
            pub is_writable: bool,
            pub executable: bool,
        }
    }
    pub mod instruction {
        use super::pubkey::Pubkey;
        pub struct AccountMeta { pub pubkey: Pubkey, pub is_signer: bool, pub is_writable: bool }
        pub struct Instruction { pub program_id: Pubkey, pub accounts: Vec<AccountMeta>, pub data: Vec<u8> }
    }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExError(std::io::Error);
#[verifier::external_type_specification]
pub struct ExErrorKind(std::io::ErrorKind);

// comparing a mutable reference with a shared one compares the values behind them
#[verifier::external_body]
pub broadcast proof fn axiom_mut_ref_eq<'a, 'b>(x: &'a mut u64, y: &'b u64)
    ensures (#[trigger] <&'a mut u64 as PartialEqSpec<&'b u64>>::eq_spec(&x, &y)) == (*old(x) == *y),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_mut_ref_obeys<'a, 'b>()
    ensures #[trigger] <&'a mut u64 as PartialEqSpec<&'b u64>>::obeys_eq_spec(),
{}
pub assume_specification<T> [<[T]>::split_last](s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures
        match r { None => s@.len() == 0, Some((l, f)) => s@.len() > 0 && *l == s@.last() && f@ == s@.drop_last() },
;
pub uninterp spec fn lz128(x: u128) -> u32;
pub assume_specification [u128::leading_zeros](x: u128) -> (r: u32)
    ensures
        r == lz128(x),
        r <= 128,
        (x == 0) <==> (r == 128),
        x != 0 ==> (x >> ((127 - r) as u128)) == 1u128,
;
pub assume_specification<T: Ord + std::marker::Destruct> [std::cmp::min] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == std::cmp::Ordering::Less { b } else { a }),
;
pub assume_specification<T: Ord + std::marker::Destruct> [std::cmp::max] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == std::cmp::Ordering::Less { a } else { b }),
;
// A panic in an instruction handler aborts the transaction, which then has no
// effect: functions marked %abortok only promise something when they return.
pub trait VxAbort<T>: Sized {
    spec fn holds(self, t: T) -> bool;
    fn vx_unwrap_or_abort(self) -> (r: T)
        ensures self.holds(r);
}
impl<T> VxAbort<T> for Option<T> {
    open spec fn holds(self, t: T) -> bool { self == Some(t) }
    #[verifier::external_body]
    fn vx_unwrap_or_abort(self) -> (r: T) { unimplemented!() }
}
impl<T, E> VxAbort<T> for Result<T, E> {
    open spec fn holds(self, t: T) -> bool { self == Ok::<T, E>(t) }
    #[verifier::external_body]
    fn vx_unwrap_or_abort(self) -> (r: T) { unimplemented!() }
}
