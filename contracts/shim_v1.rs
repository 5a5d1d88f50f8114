// Assumed contracts of sg-std 2.4.0, sg-controllers 2.4.0, cw-utils 0.16 and std that the classic marketplace uses.
pub const NATIVE_DENOM: &'static str = "ustars";
#[verifier::external_body]
pub fn create_fund_fairburn_pool_msg(amount: Vec<Coin>) -> (r: CosmosMsg) ensures r == CosmosMsg::Custom(CustomMsg::FundFairburnPool { amount }) { unimplemented!() }
#[verifier::external_body]
pub fn create_fund_community_pool_msg(amount: Vec<Coin>) -> (r: CosmosMsg) ensures r == CosmosMsg::Custom(CustomMsg::FundCommunityPool { amount }) { unimplemented!() }
#[verifier::external_body]
pub fn coins<S: StrLike>(amount: u128, denom: S) -> (r: Vec<Coin>) ensures r@.len() == 1, r@[0].amount.v == amount, r@[0].denom.g@ == denom.str_sp() { unimplemented!() }
pub struct HookError { pub u: u8 }
pub struct HooksResponse { pub hooks: Vec<String> }

#[derive(Clone, Copy)]
pub enum Duration { Height(u64), Time(u64) }
impl AddOp<Duration> for Expiration {
    type O = Result<Expiration, StdError>;
    open spec fn add_sp(self, r: Duration, o: Result<Expiration, StdError>) -> bool {
        match (self, r) {
            (Expiration::AtTime(t), Duration::Time(s)) => t.n as int + s as int * 1_000_000_000 <= u64::MAX && o is Ok && o->Ok_0 == Expiration::AtTime(Timestamp { n: (t.n as int + s as int * 1_000_000_000) as u64 }),
            (Expiration::AtHeight(h), Duration::Height(s)) => h as int + s as int <= u64::MAX && o is Ok && o->Ok_0 == Expiration::AtHeight((h as int + s as int) as u64),
            (Expiration::Never {}, _) => o is Ok && o->Ok_0 == Expiration::Never {},
            _ => o is Err,
        }
    }
    #[verifier::external_body] fn add_op(self, r: Duration) -> (o: Result<Expiration, StdError>) { unimplemented!() }
}
impl Expiration {
    #[verifier::external_body]
    pub fn is_expired(&self, block: &BlockInfo) -> (r: bool) ensures r == (match *self { Expiration::AtHeight(h) => block.height >= h, Expiration::AtTime(t) => block.time.n >= t.n, Expiration::Never {} => false }) { unimplemented!() }
}

pub enum SubMsgResult { Ok(Empty), Err(String) }
impl SubMsgResult {
    #[verifier::external_body]
    pub fn unwrap_err_x(self) -> (r: String) requires self is Err ensures r == self->Err_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn unwrap_err_(self) -> (r: String) ensures self is Err, r == self->Err_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_err(&self) -> (r: bool) ensures r == (self is Err) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_ok(&self) -> (r: bool) ensures r == (self is Ok) { unimplemented!() }
}
pub struct Reply { pub id: u64, pub result: SubMsgResult }

pub enum Ordering { Less, Equal, Greater }
pub trait CmpOp<R: ?Sized>: OrdOp<R> { fn cmp_(&self, r: &R) -> (o: Ordering) ensures (match o { Ordering::Less => self.lt_sp(r), Ordering::Equal => self.le_sp(r) && !self.lt_sp(r), Ordering::Greater => !self.le_sp(r) }); }
impl<R: ?Sized, A: OrdOp<R>> CmpOp<R> for A { #[verifier::external_body] fn cmp_(&self, r: &R) -> (o: Ordering) { unimplemented!() } }
// the result of sort(): same elements, equal ones adjacent
pub uninterp spec fn sorted_v<T>(s: Seq<T>) -> bool;
pub trait VecOrder<T> { fn sort_(&mut self); fn dedup_(&mut self); }
impl<T> VecOrder<T> for Vec<T> {
    #[verifier::external_body]
    fn sort_(&mut self) ensures sorted_v(final(self)@), final(self)@.to_multiset() == old(self)@.to_multiset(), forall|x: T| #[trigger] final(self)@.contains(x) <==> old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    fn dedup_(&mut self) ensures sorted_v(old(self)@) ==> final(self)@.no_duplicates(), forall|x: T| #[trigger] final(self)@.contains(x) <==> old(self)@.contains(x) { unimplemented!() }
}
pub trait VecAppend<T> { fn append_(&mut self, o: &mut Vec<T>); fn append_v_(&mut self, o: Vec<T>); fn extend_(&mut self, o: Vec<T>); }
impl<T> VecAppend<T> for Vec<T> {
    #[verifier::external_body] fn append_(&mut self, o: &mut Vec<T>) ensures final(self)@ == old(self)@ + old(o)@, final(o)@.len() == 0 { unimplemented!() }
    #[verifier::external_body] fn append_v_(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body] fn extend_(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}
pub trait Transp<T, E>: Sized { spec fn transp_sp(self) -> Result<Option<T>, E>; fn transpose_(self) -> (r: Result<Option<T>, E>) ensures r == self.transp_sp(); }
impl<T, E> Transp<T, E> for Option<Result<T, E>> {
    open spec fn transp_sp(self) -> Result<Option<T>, E> { match self { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
    fn transpose_(self) -> (r: Result<Option<T>, E>) { match self { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
}

// ---------------------------------------------------------------- burnt funds, hook calls
pub open spec fn sub_burnt(m: SubMsg, d: Seq<char>) -> int {
    match m.msg {
        CosmosMsg::Bank(BankMsg::Burn { amount }) => if m.reply_on is Never { coins_amt(amount@, d) } else { 0 },
        CosmosMsg::Custom(CustomMsg::FundFairburnPool { amount }) => if m.reply_on is Never { coins_amt(amount@, d) } else { 0 },
        _ => 0,
    }
}
pub open spec fn burnt(ms: Seq<SubMsg>, d: Seq<char>) -> int decreases ms.len() { if ms.len() == 0 { 0 } else { burnt(ms.drop_last(), d) + sub_burnt(ms.last(), d) } }
// nothing of amount zero goes to a user or to the fair-burn pool
pub open spec fn sub_nz(m: SubMsg) -> bool {
    match m.msg { CosmosMsg::Bank(BankMsg::Send { amount, .. }) => no_zero_coins(amount@), CosmosMsg::Custom(CustomMsg::FundFairburnPool { amount }) => no_zero_coins(amount@), CosmosMsg::Wasm(WasmMsg::Execute { funds, .. }) => nonzero(funds@), _ => true }
}
pub open spec fn nz(ms: Seq<SubMsg>) -> bool { forall|i: int| 0 <= i < ms.len() ==> sub_nz(#[trigger] ms[i]) }
// a call whose failure is caught: it carries no funds, moves no asset, and its reply id is one the contract handles
pub open spec fn caught(m: SubMsg) -> bool {
    m.reply_on is Error && 1 <= m.id <= 4 && match m.msg { CosmosMsg::Wasm(WasmMsg::Execute { funds, msg, .. }) => funds@.len() == 0 && msg.p@ is Other, _ => false }
}
// everything that moves value undoes the message when it fails; everything else is caught
pub open spec fn sub_safe(m: SubMsg) -> bool { m.reply_on is Never || caught(m) }
pub open spec fn safe(ms: Seq<SubMsg>) -> bool { forall|i: int| 0 <= i < ms.len() ==> sub_safe(#[trigger] ms[i]) }
pub struct HookCall { pub to: Seq<char>, pub id: u64, pub p: Payload }
pub open spec fn call_of(m: SubMsg) -> Option<HookCall> {
    if m.reply_on is Never { None } else { match m.msg { CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, .. }) => Some(HookCall { to: contract_addr.g@, id: m.id, p: msg.p@ }), _ => None } }
}
pub open spec fn hook_log(ms: Seq<SubMsg>) -> Seq<HookCall> decreases ms.len() { if ms.len() == 0 { Seq::empty() } else { push_opt(hook_log(ms.drop_last()), call_of(ms.last())) } }
pub broadcast proof fn lemma_burnt_push(ms: Seq<SubMsg>, m: SubMsg, d: Seq<char>) ensures #[trigger] burnt(ms.push(m), d) == burnt(ms, d) + sub_burnt(m, d) { assert(ms.push(m).drop_last() =~= ms); }
pub broadcast proof fn lemma_log_push(ms: Seq<SubMsg>, m: SubMsg) ensures #[trigger] hook_log(ms.push(m)) == push_opt(hook_log(ms), call_of(m)) { assert(ms.push(m).drop_last() =~= ms); }
pub broadcast proof fn lemma_nz_push(ms: Seq<SubMsg>, m: SubMsg) ensures #[trigger] nz(ms.push(m)) == (nz(ms) && sub_nz(m)) {
    if nz(ms.push(m)) { assert(ms.push(m)[ms.len() as int] == m); assert forall|i: int| 0 <= i < ms.len() implies sub_nz(#[trigger] ms[i]) by { assert(ms.push(m)[i] == ms[i]); } }
}
pub broadcast proof fn lemma_safe_push(ms: Seq<SubMsg>, m: SubMsg) ensures #[trigger] safe(ms.push(m)) == (safe(ms) && sub_safe(m)) {
    if safe(ms.push(m)) { assert(ms.push(m)[ms.len() as int] == m); assert forall|i: int| 0 <= i < ms.len() implies sub_safe(#[trigger] ms[i]) by { assert(ms.push(m)[i] == ms[i]); } }
}
pub broadcast proof fn lemma_burnt_none(d: Seq<char>) ensures #[trigger] burnt(Seq::<SubMsg>::empty(), d) == 0 {}
pub broadcast proof fn lemma_log_none() ensures #![trigger hook_log(Seq::<SubMsg>::empty())] hook_log(Seq::<SubMsg>::empty()) == Seq::<HookCall>::empty() {}
// the notifications of a list of hooks
pub open spec fn hook_sub(m: SubMsg, h: Addr, id: u64, p: Payload) -> bool {
    m.reply_on is Error && m.id == id && match m.msg { CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, funds, msg }) => contract_addr.g@ == h.g@ && funds@.len() == 0 && msg.p@ == p, _ => false }
}
pub open spec fn notifies(v: Seq<SubMsg>, hs: Seq<Addr>, n: int, id: u64, p: Payload) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> hook_sub(#[trigger] v[i], hs[i], id, p) }
pub open spec fn calls(hs: Seq<Addr>, id: u64, p: Payload) -> Seq<HookCall> { Seq::new(hs.len(), |i: int| HookCall { to: hs[i].g@, id, p }) }
pub broadcast proof fn lemma_notify(ms: Seq<SubMsg>, v: Seq<SubMsg>, hs: Seq<Addr>, id: u64, p: Payload)
    requires #[trigger] notifies(v, hs, hs.len() as int, id, p), p is Other, 1 <= id <= 4
    ensures
        forall|to: Seq<char>, d: Seq<char>| #[trigger] paid(ms + v, to, d) == paid(ms, to, d), forall|d: Seq<char>| #[trigger] paid_all(ms + v, d) == paid_all(ms, d), forall|d: Seq<char>| #[trigger] burnt(ms + v, d) == burnt(ms, d),
        nfts(#[trigger] (ms + v)) == nfts(ms), nz(ms + v) == nz(ms), safe(ms + v) == safe(ms), hook_log(ms + v) == hook_log(ms) + calls(hs, id, p),
    decreases hs.len()
{
    if hs.len() == 0 { assert(ms + v =~= ms); assert(hook_log(ms) + calls(hs, id, p) =~= hook_log(ms)); }
    else {
        let (v1, h1) = (v.drop_last(), hs.drop_last());
        assert forall|i: int| 0 <= i < h1.len() implies hook_sub(#[trigger] v1[i], h1[i], id, p) by { assert(v1[i] == v[i]); }
        lemma_notify(ms, v1, h1, id, p);
        let m = v[v.len() - 1];
        assert(hook_sub(m, hs[hs.len() - 1], id, p));
        assert(ms + v =~= (ms + v1).push(m));
        lemma_log_push(ms + v1, m); lemma_nz_push(ms + v1, m); lemma_safe_push(ms + v1, m); lemma_nfts_push(ms + v1, m);
        assert forall|to: Seq<char>, d: Seq<char>| #[trigger] paid(ms + v, to, d) == paid(ms, to, d) by { lemma_paid_push(ms + v1, m, to, d); assert(paid(ms + v1, to, d) == paid(ms, to, d)); lemma_coins_len0(m.msg->Wasm_0->funds@, d); }
        assert forall|d: Seq<char>| #[trigger] paid_all(ms + v, d) == paid_all(ms, d) by { lemma_paid_all_push(ms + v1, m, d); assert(paid_all(ms + v1, d) == paid_all(ms, d)); lemma_coins_len0(m.msg->Wasm_0->funds@, d); }
        assert forall|d: Seq<char>| #[trigger] burnt(ms + v, d) == burnt(ms, d) by { lemma_burnt_push(ms + v1, m, d); assert(burnt(ms + v1, d) == burnt(ms, d)); }
        assert(calls(hs, id, p) =~= calls(h1, id, p).push(HookCall { to: hs[hs.len() - 1].g@, id, p }));
        assert(hook_log(ms) + calls(hs, id, p) =~= (hook_log(ms) + calls(h1, id, p)).push(HookCall { to: hs[hs.len() - 1].g@, id, p }));
    }
}
pub broadcast group group_v1 { lemma_burnt_push, lemma_log_push, lemma_nz_push, lemma_safe_push, lemma_burnt_none, lemma_log_none, lemma_notify }
