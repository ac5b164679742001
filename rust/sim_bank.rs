// The bank of Splinter/src/example under the seeded scheduler: its modules are the tree's own files beside this copy.
#![allow(unused, non_snake_case, non_camel_case_types)]
macro_rules! println { () => { vstd::simcore::emit("\n") }; ($($a:tt)*) => { vstd::simcore::emit(&(format!($($a)*) + "\n")) } }
macro_rules! print { ($($a:tt)*) => { vstd::simcore::emit(&format!($($a)*)) } }
macro_rules! eprintln { ($($a:tt)*) => { () } }
pub mod BankSpec_t; pub mod BankContract_t; pub mod Bank_v; pub mod ClientAPI_t; pub mod VerifiedEntry_t; pub mod BankObligations_v; pub mod SimpleBank_v;
use std::collections::{BTreeMap, HashSet}; use std::sync::Arc; use std::panic::{catch_unwind, AssertUnwindSafe};
use vstd::{simcore as c, simrt::{self, Ctx, word}, simthread, prelude::*}; use BankSpec_t::*; use BankContract_t::*; use SimpleBank_v::SimpleBank; use ClientAPI_t::TrustedAPI;

#[derive(Clone, Debug)] enum Op { T { from: usize, to: usize, amt: u32, ok: bool }, C { id: usize, v: u64 } }
struct Rec { th: usize, op: Op, s: u64, e: u64 }
static H: std::sync::Mutex<(u64, Vec<Rec>, Vec<u64>, Vec<String>)> = std::sync::Mutex::new((0, vec![], vec![], vec![]));   // clock, history, request ids, complaints
fn tick() -> u64 { let mut h = H.lock().unwrap(); h.0 += 1; h.0 }
fn abort_props(m: &str) -> &'static str { "R02" }

fn transfer(bank: &SimpleBank, th: usize, req: Request, from: usize, to: usize, amt: u32) -> (Reply, Tracked<Bank_v::Bank::replies>) {
    let id = req.id; let s = tick(); let (reply, shard) = bank.maybe_transfer(req, Tracked::assume_new()); let e = tick(); let ok = reply.output.succeeded;
    let mut h = H.lock().unwrap(); if reply.id != id { h.3.push(format!("the reply to request {} carries id {}", id, reply.id)); } h.1.push(Rec { th, op: Op::T { from, to, amt, ok }, s, e }); drop(h); (reply, shard)
}

// Is there an order of the recorded operations, consistent with real time, that a sequential bank explains?
fn linearizable(h: &[Rec], n: usize, a: u32) -> bool {
    let mut per: BTreeMap<usize, Vec<&Rec>> = BTreeMap::new(); for r in h { per.entry(r.th).or_default().push(r); } let per: Vec<Vec<&Rec>> = per.into_values().collect();
    fn go(per: &[Vec<&Rec>], pos: &mut Vec<usize>, bal: &mut Vec<u64>, seen: &mut HashSet<Vec<usize>>) -> bool {
        if per.iter().zip(pos.iter()).all(|(p, i)| *i == p.len()) { return true; } if !seen.insert(pos.clone()) { return false; }
        let lim = per.iter().zip(pos.iter()).filter(|(p, i)| **i < p.len()).map(|(p, i)| p[*i].e).min().unwrap();
        for t in 0..per.len() { if pos[t] == per[t].len() { continue; } let r = per[t][pos[t]]; if r.s > lim { continue; }
            let n = bal.len(); let fit = match r.op { Op::C { id, v } => id < n && bal[id] == v, Op::T { from, to, amt, ok } => { let can = from != to && from < n && to < n && bal[from] >= amt as u64 && bal[to] + amt as u64 <= u32::MAX as u64; can == ok } }; if !fit { continue; }
            let eff = if let Op::T { from, to, amt, ok: true } = r.op { bal[from] -= amt as u64; bal[to] += amt as u64; true } else { false };
            pos[t] += 1; if go(per, pos, bal, seen) { return true; } pos[t] -= 1; if eff { if let Op::T { from, to, amt, .. } = r.op { bal[from] += amt as u64; bal[to] -= amt as u64; } } }
        false
    }
    go(&per, &mut vec![0; per.len()], &mut vec![a as u64; n], &mut HashSet::new())
}

fn run(x: &mut Ctx) {
    let n = x.knob("accounts", 3) as usize; let a = x.knob("initial", 15) as u32; let main = x.knob("main", 0) == 1;
    let plan: BTreeMap<u64, u64> = x.events.iter().filter(|e| e[0] == "p").map(|e| (word(e, 1), word(e, 2))).collect(); let np = plan.len() as u64;
    let mut work: BTreeMap<u64, Vec<Vec<String>>> = BTreeMap::new(); for e in &x.events { if e[0] != "p" { work.entry(word(e, 1)).or_default().push(e.clone()); } }
    let nops: u64 = work.values().map(|w| w.len() as u64).sum(); c::start(plan, x.knob("lim", 400 + 60 * nops as i64 + if main { 400000 } else { 0 }) as u64);
    if main {
        let r = catch_unwind(|| VerifiedEntry_t::entry::<SimpleBank>()); c::finish(); let s = c::st(); let out = s.out.clone(); drop(s);
        if r.is_ok() { let f = |k: &str| out.lines().find(|l| l.starts_with(k)).and_then(|l| l[k.len()..].trim().parse::<u64>().ok()); if let (Some(i), Some(p)) = (f("initial total:"), f("post total:")) { x.add("main.totals", 1); if i != p { x.bad("R01", format!("the bank's total was {} before the concurrent transfers and is {} after them", i, p)); } } }
        let mut h = x.trace; for b in out.bytes() { h = c::mix(h, b as u64); } x.trace = h; x.states.push(h); x.add("mode.main", 1);
    } else {
        let bank = Arc::new(SimpleBank::_new(n, a)); let api = Arc::new(VerifiedEntry_t::new_api(Ghost::assume_new()));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut hs = vec![];
            for (th, w) in work { let bank = bank.clone(); let api = api.clone(); let th = th as usize; hs.push(simthread::spawn(move || { for e in w { match e[0].as_str() {
                "t" => { let (from, to, amt) = (word(&e, 2) as usize, word(&e, 3) as usize, word(&e, 4) as u32); let id = 1_000_000 + tick(); transfer(&bank, th, Request { input: Input { from, to, amt }, id }, from, to, amt); }
                "c" => { let id = word(&e, 2) as usize; let s = tick(); let v = bank.check_value(id); let e = tick(); H.lock().unwrap().1.push(Rec { th, op: Op::C { id, v }, s, e }); }
                "api" => { let (req, _) = api.receive_request(false); let (from, to, amt) = (req.input.from, req.input.to, req.input.amt); H.lock().unwrap().2.push(req.id); let (reply, shard) = transfer(&bank, th, req, from, to, amt); api.send_reply(reply, shard, false); }
                _ => {} } } })); }
            let mut died = false; for h in hs { if h.join().is_err() { died = true; } } if died { return; }
            let mut sum = 0; for i in 0..n { let s = tick(); let v = bank.check_value(i); let e = tick(); sum += v; H.lock().unwrap().1.push(Rec { th: 99, op: Op::C { id: i, v }, s, e }); }
            let t = bank.get_total(); let mut h = H.lock().unwrap(); if t != sum || t != n as u64 * a as u64 { let m = format!("{} accounts of {} each: the balances now add up to {}, and the reported total is {}", n, a, sum, t); drop(h); H.lock().unwrap().3.push("R01 ".to_string() + &m); }
        })); c::finish();
        let h = std::mem::take(&mut *H.lock().unwrap()); let (_, hist, mut ids, comp) = h;
        for m in comp { if m.starts_with("R01 ") { x.bad("R01", m[4..].to_string()); } else { x.bad("R02", m); } }
        ids.sort(); for w in ids.windows(2) { if w[0] == w[1] { x.bad("R02", format!("two requests were given the same id {}", w[0])); } }
        let ab = c::st().abort.is_some(); if !ab && r.is_ok() && hist.len() <= 60 && !linearizable(&hist, n, a) { let t: Vec<String> = hist.iter().map(|r| format!("[{}-{}] thread {} {:?}", r.s, r.e, r.th, r.op)).collect(); x.bad("R01", format!("no order of these operations explains their results on a sequential bank: {}", t.join("; "))); }
        for r in &hist { x.note(&format!("{} {} {} {:?}", r.s, r.e, r.th, r.op)); if let Op::T { ok, .. } = r.op { x.add(if ok { "transfer.ok" } else { "transfer.declined" }, 1); } else { x.add("reads", 1); } }
        let mut conc = 0; for i in 0..hist.len() { for j in 0..i { if hist[i].s < hist[j].e && hist[j].s < hist[i].e { conc += 1; } } } x.add("concurrent.pairs", conc); let tr = x.trace; x.states.push(tr);
    }
    let s = c::st(); let (ab, pan, n, sw, wt, hash) = (s.abort.clone(), s.panics.clone(), s.n, s.switches, s.waits, s.hash); let sc = s.sched; drop(s);
    if let Some(m) = &ab { x.bad("R02", format!("transfers do not finish: {}", m)); } if let Some(p) = pan.iter().find(|p| !p.contains("waits for itself")) { x.bad("R02", format!("the bank panicked: {}", p)); } if pan.iter().any(|p| p.contains("waits for itself")) { x.bad("R02", "transfers do not finish: a thread waits for itself".into()); }
    x.add("sched.steps", n); x.add("fault.preemptions", sw); x.add("sched.waits", wt); x.add("fault.plan", np); x.shape = hash; x.trace = c::mix(x.trace, hash); x.secs = n as f64 * 1e-6;
}
#[no_mangle] pub unsafe extern "C" fn rs_run(t: *const u8, n: usize, out: extern "C" fn(*const u8, usize)) { simrt::entry(t, n, out, run) }
