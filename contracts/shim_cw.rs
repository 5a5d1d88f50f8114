// Assumed contracts of cw721, the royalty registry, sg-index-query and cw2.

pub enum Cw721ExecuteMsg { TransferNft { recipient: String, token_id: String }, SendNft { contract: String, token_id: String, msg: Binary }, Approve { spender: String, token_id: String, expires: Option<Expiration> } }
pub enum Cw721QueryMsg { OwnerOf { token_id: String, include_expired: Option<bool> }, Approval { token_id: String, spender: String, include_expired: Option<bool> }, Approvals { token_id: String, include_expired: Option<bool> }, AllNftInfo { token_id: String, include_expired: Option<bool> } }
pub struct Approval { pub spender: String, pub expires: Expiration }
pub struct OwnerOfResponse { pub owner: String, pub approvals: Vec<Approval> }
pub struct ApprovalResponse { pub approval: Approval }
pub enum RoyaltyRegistryQueryMsg { RoyaltyPayment { collection: String, protocol: Option<String> } }
pub enum RoyaltyRegistryExecuteMsg { InitializeCollectionRoyalty { collection: String } }
pub struct RegistryRoyaltyEntry { pub recipient: Addr, pub share: Decimal, pub updated: Option<Timestamp> }
pub struct RoyaltyDefault { pub collection: Addr, pub royalty_entry: RegistryRoyaltyEntry }
pub struct RoyaltyProtocol { pub collection: Addr, pub protocol: Addr, pub royalty_entry: RegistryRoyaltyEntry }
pub struct RoyaltyPaymentResponse { pub royalty_default: Option<RoyaltyDefault>, pub royalty_protocol: Option<RoyaltyProtocol> }

pub enum Query {
    OwnerOf { token: Seq<char>, expired: bool },
    Approval { token: Seq<char>, spender: Seq<char>, expired: bool },
    CollectionInfo,
    RoyaltyPayment { collection: Seq<char>, protocol: Option<Seq<char>> },
    Other(int),
}
impl ToQuery for Cw721QueryMsg { open spec fn query_sp(&self) -> Query { match *self {
    Cw721QueryMsg::OwnerOf { token_id, include_expired } => Query::OwnerOf { token: token_id.g@, expired: include_expired == Some(true) },
    Cw721QueryMsg::Approval { token_id, spender, include_expired } => Query::Approval { token: token_id.g@, spender: spender.g@, expired: include_expired == Some(true) },
    _ => Query::Other(0) } } }
impl ToQuery for RoyaltyRegistryQueryMsg { open spec fn query_sp(&self) -> Query { match *self { RoyaltyRegistryQueryMsg::RoyaltyPayment { collection, protocol } => Query::RoyaltyPayment { collection: collection.g@, protocol: opt_str(protocol) } } } }

pub enum Payload {
    Cw721(Cw721ExecuteMsg),
    InitRoyalty(Seq<char>),
    FairBurn(Option<Seq<char>>),
    Other(int),
}
impl ToPayload for Cw721ExecuteMsg { open spec fn payload(&self) -> Payload { Payload::Cw721(*self) } }
impl ToPayload for RoyaltyRegistryExecuteMsg { open spec fn payload(&self) -> Payload { match *self { RoyaltyRegistryExecuteMsg::InitializeCollectionRoyalty { collection } => Payload::InitRoyalty(collection.g@) } } }

// sg-index-query 0.1.1 (its source is read; `unpack` is a pure function of the options)
pub enum QueryBound<T> { Inclusive(T), Exclusive(T) }
pub struct QueryOptions<T> { pub limit: Option<u32>, pub descending: Option<bool>, pub min: Option<QueryBound<T>>, pub max: Option<QueryBound<T>> }
pub struct QueryOptionsInternal<U> { pub limit: usize, pub order: Order, pub min: Option<Bound<U>>, pub max: Option<Bound<U>> }
pub trait PriceOff { spec fn po_amount(&self) -> u128; spec fn po_id(&self) -> String; }
pub open spec fn qo_limit(l: Option<u32>, def: Option<u32>, mx: Option<u32>) -> nat {
    let x = match l { Some(x) => x, None => match def { Some(x) => x, None => 10 } };
    let m = match mx { Some(x) => x, None => 100 };
    if x < m { x as nat } else { m as nat }
}
pub open spec fn qo_order(d: Option<bool>) -> Order { if d == Some(true) { Order::Descending } else { Order::Ascending } }
pub open spec fn qb_price<T: PriceOff>(b: Option<QueryBound<T>>) -> Option<SBound<(u128, String)>> { match b { None => None, Some(QueryBound::Inclusive(x)) => Some(SBound::Inclusive((x.po_amount(), x.po_id()))), Some(QueryBound::Exclusive(x)) => Some(SBound::Exclusive((x.po_amount(), x.po_id()))) } }
pub open spec fn qb_id<T>(b: Option<QueryBound<T>>) -> Option<SBound<T>> { match b { None => None, Some(QueryBound::Inclusive(x)) => Some(SBound::Inclusive(x)), Some(QueryBound::Exclusive(x)) => Some(SBound::Exclusive(x)) } }
impl<T> QueryOptions<T> {
    pub fn default() -> (r: QueryOptions<T>) ensures r.limit is None, r.descending is None, r.min is None, r.max is None { QueryOptions { limit: None, descending: None, min: None, max: None } }
    #[verifier::external_body]
    pub fn unpack_id_(&self, def: Option<u32>, mx: Option<u32>) -> (r: QueryOptionsInternal<T>)
        ensures r.limit as nat == qo_limit(self.limit, def, mx), r.order == qo_order(self.descending), bound_of(r.min) == qb_id(self.min), bound_of(r.max) == qb_id(self.max) { unimplemented!() }
}
impl<T: PriceOff> QueryOptions<T> {
    #[verifier::external_body]
    pub fn unpack_price_(&self, def: Option<u32>, mx: Option<u32>) -> (r: QueryOptionsInternal<(u128, String)>)
        ensures r.limit as nat == qo_limit(self.limit, def, mx), r.order == qo_order(self.descending), bound_of(r.min) == qb_price(self.min), bound_of(r.max) == qb_price(self.max) { unimplemented!() }
}

// cw2: reads and writes the contract's own version record, nothing else
#[verifier::external_body]
pub fn set_contract_version(st: &mut Storage, name: &String, version: &String) -> (r: Result<(), StdError>)
    ensures r is Ok, final(st).cw2@ == Some((name.g@, version.g@)), *final(st) == (Storage { cw2: final(st).cw2, ..*old(st) }) { unimplemented!() }
pub struct ContractVersion { pub contract: String, pub version: String }
#[verifier::external_body]
pub fn get_contract_version(st: &Storage) -> (r: Result<ContractVersion, StdError>)
    ensures match st.cw2@ { Some(v) => r is Ok && r->Ok_0.contract.g@ == v.0 && r->Ok_0.version.g@ == v.1, None => r is Err } { unimplemented!() }
// semver: parsing is a function of the text, versions are totally ordered; the contracts' own versions are well formed (cargo checks it)
pub struct Version { pub g: Ghost<Seq<char>> }
pub uninterp spec fn version_of(s: Seq<char>) -> Option<Version>;
pub uninterp spec fn version_lt(a: Version, b: Version) -> bool;
pub broadcast axiom fn version_lt_asym(a: Version, b: Version) ensures #[trigger] version_lt(a, b) ==> !version_lt(b, a) && a != b;
pub broadcast axiom fn version_lt_total(a: Version, b: Version) ensures a == b || #[trigger] version_lt(a, b) || version_lt(b, a);
impl EqOp<Version> for Version { open spec fn eq_spec(&self, r: &Version) -> bool { *self == *r } #[verifier::external_body] fn eq_op(&self, r: &Version) -> (b: bool) { unimplemented!() } }
impl OrdOp<Version> for Version {
    open spec fn lt_sp(&self, r: &Version) -> bool { version_lt(*self, *r) }
    open spec fn le_sp(&self, r: &Version) -> bool { !version_lt(*r, *self) }
    #[verifier::external_body] fn lt_op(&self, r: &Version) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn le_op(&self, r: &Version) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn gt_op(&self, r: &Version) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn ge_op(&self, r: &Version) -> (b: bool) { unimplemented!() }
}
pub trait ParseOp: Sized { spec fn parse_sp(s: Seq<char>) -> Option<Self>; }
impl ParseOp for Version { open spec fn parse_sp(s: Seq<char>) -> Option<Version> { version_of(s) } }
impl String {
    #[verifier::external_body]
    pub fn parse_<T: ParseOp>(&self) -> (r: Result<T, StdError>) ensures match T::parse_sp(self.g@) { Some(v) => r == Ok::<T, StdError>(v), None => r is Err } { unimplemented!() }
}
impl Version {
    #[verifier::external_body]
    pub fn parse(s: &String) -> (r: Result<Version, StdError>) ensures match version_of(s.g@) { Some(v) => r == Ok::<Version, StdError>(v), None => r is Err } { unimplemented!() }
}

// blake2: an abstract, deterministic digest of the bytes fed to it
pub struct Blake2s256 { pub b: Ghost<Seq<u8>> }
pub struct Digest_ { pub b: Ghost<Seq<u8>> }
impl Blake2s256 {
    #[verifier::external_body] pub fn new() -> (r: Blake2s256) ensures r.b@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, x: &Bytes) ensures final(self).b@ == old(self).b@ + x.g@ { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: Digest_) ensures r.b == self.b { unimplemented!() }
}
#[verifier::external_body]
pub fn fmt_hex_(d: Digest_) -> (r: String) ensures r.g@ == hex_hash(d.b@) { unimplemented!() }

pub trait AddressLike {}
impl AddressLike for String {}
impl AddressLike for Addr {}
