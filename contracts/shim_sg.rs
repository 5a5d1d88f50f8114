// Assumed contracts of sg721, sg721-base, cw721-base helpers, and query paging (units that use them).
pub use core::marker::PhantomData;
pub struct RoyaltyInfo { pub payment_address: Addr, pub share: Decimal }
pub struct RoyaltyInfoResponse { pub payment_address: String, pub share: Decimal }
pub struct CollectionInfoResponse { pub creator: String, pub description: String, pub image: String, pub external_link: Option<String>, pub explicit_content: Option<bool>, pub start_trading_time: Option<Timestamp>, pub royalty_info: Option<RoyaltyInfoResponse> }
pub enum Sg721QueryMsg { CollectionInfo {} }
impl ToQuery for Sg721QueryMsg { open spec fn query_sp(&self) -> Query { Query::CollectionInfo } }
pub struct Cw721Contract<T, Q>(pub Addr, pub PhantomData<T>, pub PhantomData<Q>);
impl<T, Q> Cw721Contract<T, Q> {
    #[verifier::external_body]
    pub fn owner_of<S: StrLike>(&self, querier: &QuerierWrapper, token_id: S, include_expired: bool) -> (r: Result<OwnerOfResponse, StdError>)
        ensures (match r { Ok(x) => smart_answer::<OwnerOfResponse>(*querier, self.0.g@, Query::OwnerOf { token: token_id.str_sp(), expired: include_expired }) == Some(x), Err(_) => smart_answer::<OwnerOfResponse>(*querier, self.0.g@, Query::OwnerOf { token: token_id.str_sp(), expired: include_expired }) is None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn approval<S: StrLike, U: StrLike>(&self, querier: &QuerierWrapper, token_id: S, spender: U, include_expired: Option<bool>) -> (r: Result<ApprovalResponse, StdError>)
        ensures (match r { Ok(x) => smart_answer::<ApprovalResponse>(*querier, self.0.g@, Query::Approval { token: token_id.str_sp(), spender: spender.str_sp(), expired: include_expired == Some(true) }) == Some(x), Err(_) => smart_answer::<ApprovalResponse>(*querier, self.0.g@, Query::Approval { token: token_id.str_sp(), spender: spender.str_sp(), expired: include_expired == Some(true) }) is None }) { unimplemented!() }
}
pub open spec fn fb_sub(m: SubMsg) -> bool { match m.msg { CosmosMsg::Wasm(WasmMsg::Execute { msg, .. }) => match msg.p@ { Payload::FairBurn(r) => r is None, _ => true }, _ => true } }
// every fair-burn message leaves the whole amount to the fair-burn contract
pub open spec fn fb_plain(ms: Seq<SubMsg>) -> bool { forall|i: int| 0 <= i < ms.len() ==> fb_sub(#[trigger] ms[i]) }
pub broadcast proof fn lemma_fb_push(ms: Seq<SubMsg>, m: SubMsg) ensures #[trigger] fb_plain(ms.push(m)) == (fb_plain(ms) && fb_sub(m)) {
    if fb_plain(ms.push(m)) { assert(ms.push(m)[ms.len() as int] == m); assert forall|i: int| 0 <= i < ms.len() implies fb_sub(#[trigger] ms[i]) by { assert(ms.push(m)[i] == ms[i]); } }
}
pub broadcast group group_fb { lemma_fb_push }
