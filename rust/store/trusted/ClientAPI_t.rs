// The trusted client and disk interface of Splinter/src/trusted/ClientAPI_t.rs, answered by the simulator (crate::world); request and disk ids come from the tree's own one (TreeAPI_t).
use std::sync::atomic::{AtomicU64, Ordering};
use vstd::{prelude::*};
use vstd::tokens::InstanceId;
use crate::spec::MapSpec_t::{ID};
use crate::spec::KeyType_t::Key;
use crate::spec::Messages_t::Value;
use crate::spec::ImplDisk_t::*;
use crate::implementation::MultisetMapRelation_v::*;
use crate::trusted::ReqReply_t::*;
use crate::trusted::KVStoreTokenized_t::*;
use crate::trusted::ProgramModelTrait_t::*;
use crate::trusted::TreeAPI_t;

verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(ProgramModel)]
pub struct ClientAPI<ProgramModel: ProgramModelTrait>{ pub real: TreeAPI_t::ClientAPI<ProgramModel>, }
pub struct PollResult { pub user_input_ready: bool, pub disk_response_ready: bool, }
impl<ProgramModel: ProgramModelTrait> ClientAPI<ProgramModel>{
    #[verifier::external_body]
    pub fn new(instance: Ghost<InstanceId>) -> (out: Self) { Self{real: TreeAPI_t::ClientAPI::new(instance)} }
    #[verifier::external_body]
    pub fn receive_request(&mut self, print: bool) -> (out: (Request, Tracked<KVStoreTokenized::requests<ProgramModel>>)) { let id = self.real.receive_request(false).0.id; (crate::world::receive_request(false, id), Tracked::assume_new()) }
    #[verifier::external_body]
    pub fn receive_noop_request(&mut self) -> (out: (Request, Tracked<KVStoreTokenized::requests<ProgramModel>>)) { let id = self.real.receive_noop_request().0.id; (crate::world::receive_request(true, id), Tracked::assume_new()) }
    #[verifier::external_body]
    pub fn send_reply(&self, reply: Reply, reply_shard: Tracked<KVStoreTokenized::replies<ProgramModel>>, print: bool) { self.real.send_reply(Reply { output: Output::NoopOutput, id: reply.id }, Tracked::assume_new(), false); crate::world::send_reply(reply) }
    #[verifier::external_body]
    pub proof fn send_disk_request_predict_id(&self) -> (tracked out: ID) { let Tracked(out) = Tracked::assume_new(); out }
    #[verifier::external_body]
    pub fn send_disk_request(&mut self, disk_req: IDiskRequest, id_perm: Tracked<ID>, disk_request_tokens: Tracked<KVStoreTokenized::disk_requests_multiset<ProgramModel>>) -> (out: ID) { let copy = match &disk_req { IDiskRequest::ReadReq { from } => IDiskRequest::ReadReq { from: IAddress { au: from.au, page: from.page } }, IDiskRequest::WriteReq { to, .. } => IDiskRequest::WriteReq { to: IAddress { au: to.au, page: to.page }, data: crate::spec::AsyncDisk_t::RawPage { v: vec![] } } }; let id = self.real.send_disk_request(copy, id_perm, disk_request_tokens); crate::world::send_disk(disk_req, id) }
    #[verifier::external_body]
    pub fn receive_disk_response(&mut self) -> (out: (ID, IDiskResponse, Tracked<KVStoreTokenized::disk_responses_multiset<ProgramModel>>)) { let (i, r) = crate::world::receive_disk(); (i, r, Tracked::assume_new()) }
    #[verifier::external_body]
    pub fn poll(&self) -> (out: PollResult) { let (u, d) = crate::world::poll(); PollResult{ user_input_ready: u, disk_response_ready: d } }
}
}
