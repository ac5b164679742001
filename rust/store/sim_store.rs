// The key-value store of Splinter/src/implementation under a simulated client and disk: its modules are the tree's own files.
#![allow(unused, non_snake_case, non_camel_case_types)]
macro_rules! println { () => { () }; ($($a:tt)*) => { vstd::simcore::emit(&(format!($($a)*) + "\n")) } }
macro_rules! print { ($($a:tt)*) => { vstd::simcore::emit(&format!($($a)*)) } }
macro_rules! eprintln { ($($a:tt)*) => { () } }
pub mod spec { pub mod AsyncDisk_t; pub mod ImplDisk_t; pub mod FloatingSeq_t; pub mod KeyType_t; pub mod MapSpec_t; pub mod Messages_t; pub mod TotalKMMap_t; }
pub mod abstract_system { pub mod MsgHistory_v; pub mod StampedMap_v; pub mod AbstractCrashAwareSystemRefinement_v; pub mod AbstractCrashAwareSystem_v; pub mod AbstractCrashAwareJournal_v; pub mod AbstractCrashAwareMap_v; pub mod AbstractJournal_v; pub mod AbstractMap_v; }
pub mod trusted { pub mod KVStoreTokenized_t; pub mod KVStoreTrait_t; pub mod ClientAPI_t; pub mod TreeAPI_t; pub mod TrustedEntry_t; pub mod ProgramModelTrait_t; pub mod SystemModel_t; pub mod RefinementObligation_t; pub mod ReqReply_t; }
pub mod implementation { pub mod ConcreteProgramModel_v; pub mod ModelRefinement_v; pub mod Implementation_v; pub mod MultisetMapRelation_v; pub mod AtomicState_v; pub mod DiskLayout_v; }

// The superblock codec the tree leaves open (DiskLayout_v::marshall is unreached()).
pub mod codec {
    use crate::implementation::DiskLayout_v::*; use crate::spec::{AsyncDisk_t::RawPage, KeyType_t::Key, Messages_t::*}; use crate::abstract_system::MsgHistory_v::KeyedMessage;
    pub fn enc(start: u64, m: &[(u64, u64)]) -> Vec<u8> { let mut b = b"SUPERBLK".to_vec(); b.extend(start.to_le_bytes()); b.extend((m.len() as u64).to_le_bytes()); for (k, v) in m { b.extend(k.to_le_bytes()); b.extend(v.to_le_bytes()); } b }
    pub fn dec(b: &[u8]) -> Option<(u64, Vec<(u64, u64)>)> { if b.len() < 24 || &b[..8] != b"SUPERBLK" { return None; } let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap()); let n = g(16) as usize; if b.len() != 24 + 16 * n { return None; } Some((g(8), (0..n).map(|i| (g(24 + 16 * i), g(32 + 16 * i))).collect())) }
    pub fn marshall(sb: &ISuperblock) -> RawPage { let m: Vec<(u64, u64)> = sb.journal.msg_history.iter().map(|k| (k.key.0, match &k.message { Message::Define { value } => value.0, _ => u64::MAX })).collect(); RawPage { v: enc(sb.journal.seq_start, &m) } }
    pub fn unmarshall(p: &RawPage) -> ISuperblock { let (seq_start, m) = dec(&p.v).expect("the superblock page does not parse"); ISuperblock { journal: Journal { msg_history: m.into_iter().map(|(k, v)| KeyedMessage { key: Key(k), message: Message::Define { value: Value(v) } }).collect(), seq_start } } }
}

// The world: clients and the disk. One scenario event is consumed at each poll.
pub mod world {
    use crate::{codec, spec::{AsyncDisk_t::*, ImplDisk_t::*, KeyType_t::Key, Messages_t::Value}, trusted::ReqReply_t::*}; use std::collections::{BTreeMap, VecDeque}; use std::sync::Mutex; use std::panic::resume_unwind; use vstd::simrt::word;
    pub struct Crash; pub struct End;
    #[derive(Clone, PartialEq, Debug)] pub enum K { Put(u64, u64), Query(u64), Sync, Noop }
    pub struct Req { pub k: K, pub puts: usize, pub replies: u32, pub poll: u64, pub at: usize }
    pub struct Pend { id: u64, write: Option<Vec<u8>>, au: u32, page: u32, landed: bool, puts: Option<usize> }
    pub struct W { pub ev: VecDeque<Vec<String>>, pub disk: BTreeMap<(u32, u32), Vec<u8>>, pub pend: Vec<Pend>, pub resp: VecDeque<(u64, Option<Vec<u8>>, Option<usize>)>, pub user: VecDeque<K>, pub reqs: BTreeMap<u64, Req>, pub puts: Vec<(u64, u64)>, pub base: Vec<(u64, u64)>, pub durable: usize, pub writes: Vec<(usize, usize)>, pub ids: std::collections::BTreeSet<u64>, pub polls: u64, pub idle: u64, pub bad: Vec<(&'static str, String)>, pub ctr: BTreeMap<&'static str, u64>, pub log: Vec<String>, pub states: Vec<u64>, pub draining: bool, pub boots: u64, pub calls: u64 }
    pub static S: Mutex<Option<W>> = Mutex::new(None);
    fn with<R>(f: impl FnOnce(&mut W) -> R) -> R { let mut g = S.lock().unwrap_or_else(|e| e.into_inner()); f(g.as_mut().unwrap()) }
    impl W {
        fn n(&mut self, k: &'static str) { *self.ctr.entry(k).or_insert(0) += 1; }
        pub fn fail(&mut self, p: &'static str, m: String) { if self.bad.len() < 20 { self.bad.push((p, m)); } }
        fn fresh(&mut self, id: u64) { if !self.ids.insert(id) { self.fail("R05", format!("id {} is given to a request although another one carries it already", id)); } }
        fn step(&mut self) -> bool { self.calls += 1; self.calls > 200000 }
        fn land(&mut self, i: usize) { let p = &mut self.pend[i]; if !p.landed { p.landed = true; if let Some(b) = p.write.clone() { let a = (p.au, p.page); self.disk.insert(a, b); } } }
        fn finish(&mut self, i: usize) { self.land(i); let p = self.pend.remove(i); let data = if p.write.is_none() { Some(self.disk.get(&(p.au, p.page)).cloned().unwrap_or(vec![0; 24])) } else { None }; self.resp.push_back((p.id, data, p.puts)); if i > 0 { self.n("fault.reordered"); } }
        fn mark(&mut self) { let unanswered = self.reqs.values().filter(|r| r.replies == 0 && r.k == K::Sync).count() as u64; let h = vstd::simcore::mix(vstd::simcore::mix(unanswered * 64 + self.pend.len() as u64, self.puts.len() as u64 * 1000 + self.durable as u64), self.resp.len() as u64 * 8 + self.boots); if self.states.len() < 300 { self.states.push(h); } }
    }
    enum Go { On(bool, bool), Crash, End, Spin }
    pub fn poll() -> (bool, bool) {
        let g = with(|w| { w.polls += 1; if w.step() { return Go::Spin; } w.mark();
            let Some(e) = w.ev.pop_front() else {
                // no more faults: the disk answers everything, then all must have been answered
                w.draining = true; if !w.resp.is_empty() { return Go::On(!w.user.is_empty(), true); } if !w.pend.is_empty() { w.finish(0); return Go::On(false, true); } if !w.user.is_empty() { return Go::On(true, false); } w.idle += 1; return if w.idle > 6 { Go::End } else { Go::On(false, false) };
            };
            w.log.push(e.join(" ")); let input = |e: &[String]| match e[0].as_str() { "put" => Some(K::Put(word(e, 1), word(e, 2))), "query" => Some(K::Query(word(e, 1))), "sync" => Some(K::Sync), "noop" => Some(K::Noop), _ => None };
            if let Some(k) = input(&e) { w.user.push_back(k); return Go::On(true, !w.resp.is_empty() && w.polls % 2 == 0); }
            match e[0].as_str() {
                "disk" => { let n = w.pend.len(); if n > 0 { w.finish(word(&e, 1) as usize % n); w.n("disk.completed"); } Go::On(false, !w.resp.is_empty()) }
                "both" => { if let Some(k) = input(&e[2..]) { w.user.push_back(k); } let n = w.pend.len(); if n > 0 { w.finish(word(&e, 1) as usize % n); w.n("disk.completed"); } Go::On(!w.user.is_empty(), !w.resp.is_empty()) }
                "land" => { let n = w.pend.len(); if n > 0 { w.land(word(&e, 1) as usize % n); w.n("fault.landed_unreported"); } Go::On(false, false) }
                "crash" => { let m = word(&e, 1); w.n("fault.crash"); let mut i = 0; for k in 0..w.pend.len() { if w.pend[k].write.is_some() && !w.pend[k].landed { if m >> i & 1 == 1 { w.land(k); w.n("fault.crash_write_kept"); } else { w.n("fault.crash_write_lost"); } i += 1; } } Go::Crash }
                _ => { w.n("fault.idle_poll"); Go::On(false, false) }
            } });
        match g { Go::On(u, d) => (u, d), Go::Crash => resume_unwind(Box::new(Crash)), Go::End => resume_unwind(Box::new(End)), Go::Spin => { with(|w| w.fail("R05", "the store does not come to rest within 200000 steps although no request arrives".into())); resume_unwind(Box::new(End)) } }
    }
    pub fn receive_request(noop: bool, id: u64) -> Request {
        let r = with(|w| { if w.step() { return None; } w.fresh(id); let k = if noop { K::Noop } else { w.user.pop_front().unwrap_or(K::Noop) }; let (puts, poll) = (w.puts.len(), w.polls); if let K::Put(a, b) = k { w.puts.push((a, b)); } w.log.push(format!("request {} {:?}", id, k)); w.n(match k { K::Put(..) => "put", K::Query(_) => "query", K::Sync => "sync", K::Noop => "noop" }); w.reqs.insert(id, Req { k: k.clone(), puts, replies: 0, poll, at: w.log.len() }); Some((k, id)) });
        let Some((k, id)) = r else { with(|w| w.fail("R05", "the store asks for requests without end".into())); resume_unwind(Box::new(End)) };
        Request { input: match k { K::Put(a, b) => Input::PutInput { key: Key(a), value: Value(b) }, K::Query(a) => Input::QueryInput { key: Key(a) }, K::Sync => Input::SyncInput, K::Noop => Input::NoopInput }, id }
    }
    pub fn send_reply(r: Reply) { with(|w| {
        w.log.push(format!("reply {:?}", r)); let id = r.id; let durable = w.durable; let nputs = w.puts.clone(); let base = w.base.clone();
        let Some(q) = w.reqs.get_mut(&id) else { let m = format!("a reply carries id {}, which no request has: {:?}", id, r.output); w.fail("R05", m); return; };
        q.replies += 1; let n = q.replies; let k = q.k.clone(); let puts = q.puts; let at = q.at; if n > 1 { w.fail("R05", format!("request {} ({:?}) is answered {} times", id, k, n)); }
        let fits = matches!((&k, &r.output), (K::Put(..), Output::PutOutput) | (K::Query(_), Output::QueryOutput { .. }) | (K::Sync, Output::SyncOutput) | (K::Noop, Output::NoopOutput)); if !fits { w.fail("R05", format!("request {} ({:?}) is answered with {:?}", id, k, r.output)); }
        if let (K::Query(a), Output::QueryOutput { value }) = (&k, &r.output) { let want = |b: &[(u64, u64)]| b.iter().chain(nputs.iter()).rev().find(|p| p.0 == *a).map(|p| p.1).unwrap_or(0); if value.0 != want(&base) { w.fail("R05", format!("a query of key {} is answered with {}, not {}", a, value.0, want(&base))); } }
        if let (K::Sync, Output::SyncOutput) = (&k, &r.output) { w.n("sync.acknowledged"); if durable < puts { if w.writes.iter().any(|x| x.0 >= at && x.1 < puts) { w.fail("R04", format!("a superblock write issued after {} puts had been received lacks the last of them", puts)); } w.fail("R03", format!("sync request {} is acknowledged when {} puts had been received before it, and the newest completed superblock write holds {}", id, puts, durable)); } }
    }) }
    pub fn send_disk(r: IDiskRequest, id: u64) -> u64 { let (id, spin) = with(|w| { let spin = w.step(); w.fresh(id);
        match r {
            IDiskRequest::ReadReq { from } => { w.n("disk.read"); if (from.au, from.page) != (0, 0) { w.fail("R04", format!("the store reads its superblock at {}.{} instead of 0.0", from.au, from.page)); } w.log.push(format!("disk {} read {}.{}", id, from.au, from.page)); w.pend.push(Pend { id, write: None, au: from.au, page: from.page, landed: false, puts: None }); }
            IDiskRequest::WriteReq { to, data } => {
                w.n("disk.write"); w.log.push(format!("disk {} write {}.{} {} bytes", id, to.au, to.page, data.v.len())); if w.pend.iter().any(|p| p.write.is_some()) { w.fail("R04", "a superblock write is issued while another is in flight".into()); }
                if (to.au, to.page) != (0, 0) { w.fail("R04", format!("the store writes its superblock at {}.{} instead of 0.0", to.au, to.page)); }
                let mut puts = None; match codec::dec(&data.v) { None => w.fail("R04", "a superblock write holds something else".into()), Some((start, m)) => {
                    let all = w.puts.clone(); let base = w.base.clone(); let fit = |b: &[(u64, u64)]| -> Option<usize> { if m.len() >= b.len() && m[..b.len()] == *b && m.len() - b.len() <= all.len() && m[b.len()..] == all[..m.len() - b.len()] { Some(m.len() - b.len()) } else { None } };
                    puts = fit(&base); if puts.is_none() && !base.is_empty() && fit(&[]).is_some() { w.fail("R04", format!("the first superblock write after a recovery holds {:?} and drops the recovered puts {:?}", m, base)); } else if puts.is_none() { w.fail("R04", format!("the superblock holds {:?}, which is not the recovered puts {:?} and then a prefix of the puts received: {:?}", m, base, all)); } if start != 0 { w.fail("R04", format!("the superblock's history starts at {} although nothing was ever truncated", start)); } } }
                w.writes.push((w.log.len(), puts.unwrap_or(usize::MAX))); w.pend.push(Pend { id, write: Some(data.v), au: to.au, page: to.page, landed: false, puts });
            } } (id, spin) }); if spin { with(|w| w.fail("R05", "the store writes to its disk without end".into())); resume_unwind(Box::new(End)) } id }
    pub fn receive_disk() -> (u64, IDiskResponse) { let r = with(|w| { if w.step() { return None; } if w.resp.is_empty() && !w.pend.is_empty() { w.finish(0); } let x = w.resp.pop_front()?; if let Some(p) = x.2 { if p > w.durable { w.durable = p; } } w.log.push(format!("disk {} done", x.0)); Some(x) });
        match r { None => { with(|w| w.fail("R05", "the store waits for a disk response although no disk request is in flight".into())); resume_unwind(Box::new(End)) } Some((id, Some(data), _)) => (id, IDiskResponse::ReadResp { data: RawPage { v: data } }), Some((id, None, _)) => (id, IDiskResponse::WriteResp {}) } }
    // what a crash leaves: the disk
    pub fn reboot() { with(|w| { for (id, q) in std::mem::take(&mut w.reqs) { let _ = (id, q); } w.pend.clear(); w.resp.clear(); w.user.clear(); w.puts.clear(); w.durable = 0; w.writes.clear(); w.ids.clear(); w.boots += 1; w.idle = 0; w.base = w.disk.get(&(0, 0)).and_then(|b| codec::dec(b)).map(|x| x.1).unwrap_or_default(); }) }
}

use std::panic::{catch_unwind, AssertUnwindSafe}; use vstd::{simcore as c, simrt::{self, Ctx}};
fn run(x: &mut Ctx) {
    c::start(Default::default(), 1 << 40);
    let mut disk = std::collections::BTreeMap::new(); disk.insert((0u32, 0u32), codec::enc(0, &[]));
    *world::S.lock().unwrap() = Some(world::W { ev: x.events.iter().cloned().collect(), disk, pend: vec![], resp: Default::default(), user: Default::default(), reqs: Default::default(), puts: vec![], base: vec![], durable: 0, writes: vec![], ids: Default::default(), polls: 0, idle: 0, bad: vec![], ctr: Default::default(), log: vec![], states: vec![], draining: false, boots: 0, calls: 0 });
    loop {
        let r = catch_unwind(AssertUnwindSafe(|| trusted::TrustedEntry_t::entry::<implementation::Implementation_v::Implementation>()));
        match r { Ok(()) => { world::S.lock().unwrap().as_mut().unwrap().fail("R05", "the store's main loop ended".into()); break; } Err(e) if e.is::<world::Crash>() => { world::reboot(); } Err(e) if e.is::<world::End>() => break, Err(_) => break }
    }
    c::finish(); let (ab, pan) = { let s = c::st(); (s.abort.clone(), s.panics.clone()) };
    let w = world::S.lock().unwrap().take().unwrap();
    for (p, m) in &w.bad { x.bad(p, m.clone()); } if let Some(p) = pan.first() { x.bad("R05", format!("the store panicked: {}", p)); } if let Some(m) = ab { x.bad("R05", m); }
    if w.bad.is_empty() && pan.is_empty() { for (id, q) in &w.reqs { if q.replies == 0 && !matches!(q.k, world::K::Query(_)) { x.bad("R05", format!("request {} ({:?}) is never answered although the disk answered everything and the store is idle", id, q.k)); break; } } }
    for l in &w.log { x.note(l); } for (k, n) in &w.ctr { x.add(k, *n); } x.add("boots", w.boots + 1); x.states = w.states; for e in x.events.clone() { x.kind(e[0].bytes().fold(0, |h, b| h * 31 + b as u64)); } x.secs = w.polls as f64 * 1e-3;
}
#[no_mangle] pub unsafe extern "C" fn rs_run(t: *const u8, n: usize, out: extern "C" fn(*const u8, usize)) { simrt::entry(t, n, out, run) }
