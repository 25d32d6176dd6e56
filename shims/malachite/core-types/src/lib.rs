//! Stand-in for informalsystems-malachitebft-core-types (the real crate is not available offline).
//! It reproduces the vocabulary types and the traits that snapchain implements; behaviour that
//! snapchain relies on (round numbering, the 2f+1 threshold) follows the real crate.
use derive_where::derive_where;
use std::fmt::{self, Debug, Display};
use std::ops::Deref;

pub type VotingPower = u64;
pub type Weight = u64;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Round {
    Nil,
    Some(u32),
}

#[allow(non_upper_case_globals)]
impl Round {
    pub const ZERO: Round = Round::Some(0);
    pub const fn new(round: u32) -> Self {
        Round::Some(round)
    }
    pub fn as_i64(&self) -> i64 {
        match self {
            Round::Nil => -1,
            Round::Some(r) => i64::from(*r),
        }
    }
    pub fn as_u32(&self) -> Option<u32> {
        match self {
            Round::Nil => None,
            Round::Some(r) => Some(*r),
        }
    }
    pub fn is_defined(&self) -> bool {
        matches!(self, Round::Some(_))
    }
    pub fn is_nil(&self) -> bool {
        matches!(self, Round::Nil)
    }
    pub fn increment(&self) -> Round {
        match self {
            Round::Nil => Round::new(0),
            Round::Some(r) => Round::new(r + 1),
        }
    }
}
impl From<u32> for Round {
    fn from(r: u32) -> Self {
        Round::new(r)
    }
}
impl From<i64> for Round {
    fn from(r: i64) -> Self {
        if r < 0 {
            Round::Nil
        } else {
            Round::Some(r as u32)
        }
    }
}
impl PartialOrd for Round {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for Round {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.as_i64().cmp(&other.as_i64())
    }
}
impl Display for Round {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.as_i64())
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum NilOrVal<T> {
    Nil,
    Val(T),
}
impl<T> NilOrVal<T> {
    pub fn is_nil(&self) -> bool {
        matches!(self, NilOrVal::Nil)
    }
    pub fn is_val(&self) -> bool {
        matches!(self, NilOrVal::Val(_))
    }
    pub fn as_ref(&self) -> NilOrVal<&T> {
        match self {
            NilOrVal::Nil => NilOrVal::Nil,
            NilOrVal::Val(v) => NilOrVal::Val(v),
        }
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum VoteType {
    Prevote,
    Precommit,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Validity {
    Valid,
    Invalid,
}
impl Validity {
    pub fn is_valid(self) -> bool {
        self == Validity::Valid
    }
    pub fn is_invalid(self) -> bool {
        self == Validity::Invalid
    }
    pub fn from_bool(v: bool) -> Self {
        if v {
            Validity::Valid
        } else {
            Validity::Invalid
        }
    }
    pub fn to_bool(self) -> bool {
        self.is_valid()
    }
}

pub trait Address: Clone + Debug + Display + Eq + Ord + Send + Sync {}

pub trait Height: Default + Copy + Clone + Debug + Display + PartialEq + Eq + PartialOrd + Ord + Send + Sync {
    const ZERO: Self;
    const INITIAL: Self;
    fn increment(&self) -> Self {
        self.increment_by(1)
    }
    fn decrement(&self) -> Option<Self> {
        self.decrement_by(1)
    }
    fn increment_by(&self, n: u64) -> Self;
    fn decrement_by(&self, n: u64) -> Option<Self>;
    fn as_u64(&self) -> u64;
}

pub trait Value: Clone + Debug + PartialEq + Eq + PartialOrd + Ord + Send + Sync {
    type Id: Clone + Debug + Display + Eq + Ord + Send + Sync;
    fn id(&self) -> Self::Id;
}
pub type ValueId<Ctx> = <<Ctx as Context>::Value as Value>::Id;

pub trait Extension: Clone + Debug + Eq + Send + Sync + 'static {}
impl Extension for () {}

pub trait Vote<Ctx: Context>: Clone + Debug + Eq + Ord + Send + Sync + 'static {
    fn height(&self) -> Ctx::Height;
    fn round(&self) -> Round;
    fn value(&self) -> &NilOrVal<ValueId<Ctx>>;
    fn take_value(self) -> NilOrVal<ValueId<Ctx>>;
    fn vote_type(&self) -> VoteType;
    fn validator_address(&self) -> &Ctx::Address;
    fn extension(&self) -> Option<&SignedExtension<Ctx>>;
    fn take_extension(&mut self) -> Option<SignedExtension<Ctx>>;
    fn extend(self, extension: SignedExtension<Ctx>) -> Self;
}

pub trait Proposal<Ctx: Context>: Clone + Debug + Eq + Send + Sync + 'static {
    fn height(&self) -> Ctx::Height;
    fn round(&self) -> Round;
    fn value(&self) -> &Ctx::Value;
    fn take_value(self) -> Ctx::Value;
    fn pol_round(&self) -> Round;
    fn validator_address(&self) -> &Ctx::Address;
}

pub trait ProposalPart<Ctx: Context>: Clone + Debug + Eq + Send + Sync + 'static {
    fn is_first(&self) -> bool;
    fn is_last(&self) -> bool;
}

pub trait Validator<Ctx: Context>: Clone + Debug + PartialEq + Eq + Send + Sync {
    fn address(&self) -> &Ctx::Address;
    fn public_key(&self) -> &PublicKey<Ctx>;
    fn voting_power(&self) -> VotingPower;
}

pub trait ValidatorSet<Ctx: Context>: Clone + Debug + Send + Sync {
    fn count(&self) -> usize;
    fn total_voting_power(&self) -> VotingPower;
    fn get_by_address(&self, address: &Ctx::Address) -> Option<&Ctx::Validator>;
    fn get_by_index(&self, index: usize) -> Option<&Ctx::Validator>;
}

pub trait SigningScheme: Clone + Debug + Eq {
    type DecodingError: Display;
    type Signature: Clone + Debug + Eq + Ord + Send + Sync;
    type PublicKey: Clone + Debug + Eq + Send + Sync;
    type PrivateKey: Clone + Send + Sync;
    fn decode_signature(bytes: &[u8]) -> Result<Self::Signature, Self::DecodingError>;
    fn encode_signature(signature: &Self::Signature) -> Vec<u8>;
}

pub type PublicKey<Ctx> = <<Ctx as Context>::SigningScheme as SigningScheme>::PublicKey;
pub type PrivateKey<Ctx> = <<Ctx as Context>::SigningScheme as SigningScheme>::PrivateKey;
pub type Signature<Ctx> = <<Ctx as Context>::SigningScheme as SigningScheme>::Signature;

pub trait Context: Sized + Clone + Send + Sync + 'static {
    type Address: Address;
    type Height: Height;
    type ProposalPart: ProposalPart<Self>;
    type Proposal: Proposal<Self>;
    type Validator: Validator<Self>;
    type ValidatorSet: ValidatorSet<Self>;
    type Value: Value;
    type Vote: Vote<Self>;
    type Extension: Extension;
    type SigningScheme: SigningScheme;

    fn select_proposer<'a>(
        &self,
        validator_set: &'a Self::ValidatorSet,
        height: Self::Height,
        round: Round,
    ) -> &'a Self::Validator;
    fn new_proposal(
        height: Self::Height,
        round: Round,
        value: Self::Value,
        pol_round: Round,
        address: Self::Address,
    ) -> Self::Proposal;
    fn new_prevote(
        height: Self::Height,
        round: Round,
        value_id: NilOrVal<ValueId<Self>>,
        address: Self::Address,
    ) -> Self::Vote;
    fn new_precommit(
        height: Self::Height,
        round: Round,
        value_id: NilOrVal<ValueId<Self>>,
        address: Self::Address,
    ) -> Self::Vote;
}

#[derive_where(Clone, Debug, PartialEq, Eq; Msg)]
pub struct SignedMessage<Ctx: Context, Msg> {
    pub message: Msg,
    pub signature: Signature<Ctx>,
}
impl<Ctx: Context, Msg> SignedMessage<Ctx, Msg> {
    pub fn new(message: Msg, signature: Signature<Ctx>) -> Self {
        Self { message, signature }
    }
    pub fn map<N>(self, f: impl FnOnce(Msg) -> N) -> SignedMessage<Ctx, N> {
        SignedMessage { message: f(self.message), signature: self.signature }
    }
}
impl<Ctx: Context, Msg> Deref for SignedMessage<Ctx, Msg> {
    type Target = Msg;
    fn deref(&self) -> &Msg {
        &self.message
    }
}
pub type SignedVote<Ctx> = SignedMessage<Ctx, <Ctx as Context>::Vote>;
pub type SignedProposal<Ctx> = SignedMessage<Ctx, <Ctx as Context>::Proposal>;
pub type SignedProposalPart<Ctx> = SignedMessage<Ctx, <Ctx as Context>::ProposalPart>;
pub type SignedExtension<Ctx> = SignedMessage<Ctx, <Ctx as Context>::Extension>;

#[derive_where(Clone, Debug, PartialEq, Eq)]
pub struct CommitSignature<Ctx: Context> {
    pub address: Ctx::Address,
    pub signature: Signature<Ctx>,
}
impl<Ctx: Context> CommitSignature<Ctx> {
    pub fn new(address: Ctx::Address, signature: Signature<Ctx>) -> Self {
        Self { address, signature }
    }
}

#[derive_where(Clone, Debug, Default, PartialEq, Eq)]
pub struct AggregatedSignature<Ctx: Context> {
    pub signatures: Vec<CommitSignature<Ctx>>,
}
impl<Ctx: Context> AggregatedSignature<Ctx> {
    pub fn new(signatures: Vec<CommitSignature<Ctx>>) -> Self {
        Self { signatures }
    }
}

#[derive_where(Clone, Debug, PartialEq, Eq)]
pub struct CommitCertificate<Ctx: Context> {
    pub height: Ctx::Height,
    pub round: Round,
    pub value_id: ValueId<Ctx>,
    pub aggregated_signature: AggregatedSignature<Ctx>,
}

#[derive_where(Clone, Debug)]
pub enum CertificateError<Ctx: Context> {
    InvalidSignature(CommitSignature<Ctx>),
    UnknownValidator(Ctx::Address),
    NotEnoughVotingPower { signed: VotingPower, total: VotingPower, expected: VotingPower },
}

#[derive_where(Clone, Debug, PartialEq, Eq)]
pub struct VoteSet<Ctx: Context> {
    pub votes: Vec<SignedVote<Ctx>>,
}
impl<Ctx: Context> VoteSet<Ctx> {
    pub fn new(votes: Vec<SignedVote<Ctx>>) -> Self {
        Self { votes }
    }
    pub fn len(&self) -> usize {
        self.votes.len()
    }
    pub fn is_empty(&self) -> bool {
        self.votes.is_empty()
    }
}

/// numerator/denominator, met when strictly more than that share of the total is reached
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct ThresholdParam {
    pub numerator: u64,
    pub denominator: u64,
}
impl ThresholdParam {
    pub const TWO_F_PLUS_ONE: Self = Self { numerator: 2, denominator: 3 };
    pub const F_PLUS_ONE: Self = Self { numerator: 1, denominator: 3 };
    pub fn is_met(&self, weight: Weight, total: Weight) -> bool {
        let lhs = weight.checked_mul(self.denominator).expect("attempt to multiply with overflow");
        let rhs = total.checked_mul(self.numerator).expect("attempt to multiply with overflow");
        lhs > rhs
    }
    pub fn min_expected(&self, total: Weight) -> Weight {
        1 + (total * self.numerator) / self.denominator
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct ThresholdParams {
    pub quorum: ThresholdParam,
    pub honest: ThresholdParam,
}
impl Default for ThresholdParams {
    fn default() -> Self {
        Self { quorum: ThresholdParam::TWO_F_PLUS_ONE, honest: ThresholdParam::F_PLUS_ONE }
    }
}

pub trait SigningProvider<Ctx: Context>: Send + Sync {
    fn sign_vote(&self, vote: Ctx::Vote) -> SignedMessage<Ctx, Ctx::Vote>;
    fn verify_signed_vote(&self, vote: &Ctx::Vote, signature: &Signature<Ctx>, public_key: &PublicKey<Ctx>) -> bool;
    fn sign_proposal(&self, proposal: Ctx::Proposal) -> SignedMessage<Ctx, Ctx::Proposal>;
    fn verify_signed_proposal(
        &self,
        proposal: &Ctx::Proposal,
        signature: &Signature<Ctx>,
        public_key: &PublicKey<Ctx>,
    ) -> bool;
    fn sign_proposal_part(&self, part: Ctx::ProposalPart) -> SignedMessage<Ctx, Ctx::ProposalPart>;
    fn verify_signed_proposal_part(
        &self,
        part: &Ctx::ProposalPart,
        signature: &Signature<Ctx>,
        public_key: &PublicKey<Ctx>,
    ) -> bool;
    fn sign_vote_extension(&self, extension: Ctx::Extension) -> SignedMessage<Ctx, Ctx::Extension>;
    fn verify_signed_vote_extension(
        &self,
        extension: &Ctx::Extension,
        signature: &Signature<Ctx>,
        public_key: &PublicKey<Ctx>,
    ) -> bool;
    fn verify_commit_signature(
        &self,
        certificate: &CommitCertificate<Ctx>,
        commit_sig: &CommitSignature<Ctx>,
        validator: &Ctx::Validator,
    ) -> Result<VotingPower, CertificateError<Ctx>>;
}
