//! Runs random instruction histories of the real program in the native world and compares every outcome with
//! what the properties demand.  vworld <seed> <histories> <steps> [<only property> [<seconds> [<first history>]]]
mod world;
mod reference;
use anchor_lang::prelude::*;
use anchor_lang::{InstructionData, ToAccountMetas};
use cyclos_core::libraries::tick_math;
use cyclos_core::states::{factory::*, oracle::*, pool::*, position::*, tick::*, tick_bitmap::*, tokenized_position::*};
use cyclos_core::{accounts as acc, instruction as ins};
use anchor_spl::associated_token::get_associated_token_address as ata;
use reference::*;
use std::collections::BTreeMap;
use world::*;

pub struct Rng(u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 3 }
    pub fn n(&mut self, k: u64) -> u64 { self.next() % k }
    pub fn p(&mut self, percent: u64) -> bool { self.n(100) < percent }
    pub fn size(&mut self, bits: u64) -> u64 { let b = 1 + self.n(bits); 1 + self.next() % (1u64 << b) }
}
#[derive(Clone, Copy)]
pub struct Nft { pub mint: Pubkey, pub acct: Pubkey, pub holder: usize, pub pool: usize, pub lo: i32, pub up: i32 }
struct Call { name: String, metas: Vec<AccountMeta>, data: Vec<u8>, fixed: Vec<usize>, bound: Vec<usize>, locks: Option<Pubkey> }
struct Run { w: World, pools: Vec<Pool>, users: Vec<Pubkey>, wallets: Vec<BTreeMap<Pubkey, Pubkey>>, nfts: Vec<Nft>, core: Vec<(usize, usize, i32, i32)>, owner: Pubkey, r: Rng, log: Vec<String>, bad: Vec<(String, String)>, ok: u64, refused: u64, rejected: u64 }

fn setm(m: &mut Vec<AccountMeta>) { for x in m.iter_mut() { x.is_writable = true } }

impl Run {
    fn new(seed: u64) -> Run {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
        for _ in 0..10 { r.next(); }
        NOW.with(|n| n.set(1_000_000 + (seed as i64 % 3) * ((1i64 << 32) - 1_000_050)));
        let mut w = World::new();
        let (fee, spacing) = [(500u32, 10u16), (3000, 60), (100, 1), (10000, 200), (999_999, 16383), (0, 7)][r.n(6) as usize];
        let mut ms: Vec<Pubkey> = (0..3).map(|_| w.mint()).collect();
        ms.sort();
        let mut pools = vec![];
        for (i, (a, b)) in [(0usize, 1usize), (1, 2), (0, 2)].iter().enumerate() {
            let t = [0i32, 1, -1, 2559, -2560, 5000, -33000, 100_000, -200_000, 30][r.n(10) as usize];
            let pr = tick_math::get_sqrt_ratio_at_tick(t).unwrap() + if r.p(50) { r.n(3) } else { 0 };
            let (f, s) = if i == 2 { (500u32, 10u16) } else { (fee, spacing) };
            pools.push(w.pool_of(ms[*a], ms[*b], f, s, pr));
        }
        let mut users = vec![];
        let mut wallets = vec![];
        for i in 0..3 {
            let u = id(0x11, i);
            w.fund(u);
            users.push(u);
            wallets.push(ms.iter().map(|m| (*m, w.token(*m, u, 1 << 50))).collect());
        }
        Run { w, pools, users, wallets, nfts: vec![], core: vec![], owner: admin(), r, log: vec![], bad: vec![], ok: 0, refused: 0, rejected: 0 }
    }
    fn say(&mut self, tags: &str, msg: String) { self.bad.push((tags.to_string(), msg)); }
    fn wal(&self, u: usize, p: &Pool) -> (Pubkey, Pubkey) { (self.wallets[u][&p.t0], self.wallets[u][&p.t1]) }

    /// Runs a call that must have the given effect (or must be rejected, with the properties that demand it).
    fn attempt(&mut self, c: Call, want: std::result::Result<(World, Vec<Vec<u8>>), &'static str>) -> bool {
        self.log.push(c.name.clone());
        let mode = self.r.n(100);
        if mode < 12 && !c.fixed.is_empty() {
            // another account of the same kind in one slot
            let i = c.fixed[self.r.n(c.fixed.len() as u64) as usize];
            let k = c.metas[i].pubkey;
            if let Some(a) = self.w.a.get(&k).cloned() {
                let twins: Vec<Pubkey> = self.w.a.iter().filter(|(q, b)| **q != k && b.data.len() == a.data.len() && b.owner == a.owner && (a.data.len() < 8 || b.data[..8] == a.data[..8] || a.owner == spl_token::id())).map(|(q, _)| *q).collect();
                let fake = self.r.p(35) || twins.is_empty();
                let mut w2 = self.w.clone();
                let q = if fake {
                    let q = id(0x99, self.r.n(250) as u8);
                    let mut b = a.clone();
                    if a.owner != spl_token::id() || self.r.p(50) { b.owner = id(0x77, 7); }
                    else if let Ok(mut t) = <spl_token::state::Account as solana_program::program_pack::Pack>::unpack(&b.data) { t.amount = 1 << 40; solana_program::program_pack::Pack::pack_into_slice(&t, &mut b.data); }
                    w2.a.insert(q, b);
                    q
                } else { twins[self.r.n(twins.len() as u64) as usize] };
                let mut m = c.metas.clone();
                m[i].pubkey = q;
                if m.iter().filter(|x| x.pubkey == k).count() == 0 {
                    self.rejected += 1;
                    if w2.run(m, &c.data).is_ok() { self.say("C23", format!("{}: account {} replaced by {} account {} was accepted", c.name, i, if fake { "a forged" } else { "another" }, q)); }
                }
            }
        } else if mode < 18 {
            // a missing signature
            let s: Vec<usize> = (0..c.metas.len()).filter(|i| c.metas[*i].is_signer).collect();
            if !s.is_empty() {
                let i = s[self.r.n(s.len() as u64) as usize];
                let mut m = c.metas.clone();
                let k = m[i].pubkey;
                for x in m.iter_mut() { if x.pubkey == k { x.is_signer = false } }
                self.rejected += 1;
                if self.w.clone().run(m, &c.data).is_ok() { self.say("C17", format!("{}: accepted without the signature of account {}", c.name, i)); }
            }
        } else if mode < 24 && !c.bound.is_empty() {
            // another signer
            let i = c.bound[self.r.n(c.bound.len() as u64) as usize];
            let mut m = c.metas.clone();
            let k = m[i].pubkey;
            let mut who: Vec<Pubkey> = self.users.iter().copied().filter(|u| *u != k).collect();
            who.push(id(0x55, 5));
            let q = who[self.r.n(who.len() as u64) as usize];
            let mut w2 = self.w.clone();
            w2.fund(id(0x55, 5));
            m[i].pubkey = q;
            self.rejected += 1;
            if w2.run(m, &c.data).is_ok() { self.say("C17", format!("{}: accepted with the signature of {} in place of the entitled account {}", c.name, q, i)); }
        } else if mode < 27 {
            if let Some(p) = c.locks {
                let mut w2 = self.w.clone();
                let mut s: PoolState = w2.zc(&p);
                s.unlocked = false;
                w2.set(&p, s);
                self.rejected += 1;
                if w2.run(c.metas.clone(), &c.data).is_ok() { self.say("C14", format!("{}: accepted on a locked pool", c.name)); }
            }
        }
        UNLOCKED.with(|u| u.set(false));
        let got = self.w.run(c.metas.clone(), &c.data);
        let evs = EVENTS.with(|e| e.borrow().clone());
        if std::env::var("VW_TRACE").is_ok() { println!("{} -> {:?} (reference {})", c.name, got, match &want { Ok(_) => "ok", Err(e) => e }); }
        match (got, want) {
            (Ok(()), Ok((x, ev))) => {
                self.ok += 1;
                if UNLOCKED.with(|u| u.get()) && c.locks.is_some() { self.say("C14", format!("{}: another program ran while the pool was unlocked", c.name)); }
                for (t, m) in differences(&x, &self.w) { self.say(&t, format!("{}: {}", c.name, m)); }
                let (mut a, mut b) = (evs, ev);
                a.sort();
                b.sort();
                a.retain(|d| d.len() >= 8);
                if a != b { self.say("C24", format!("{}: events {:?} must be {:?}", c.name, a, b)); }
                true
            }
            (Ok(()), Err(t)) => { self.ok += 1; self.say(t, format!("{}: accepted, must be rejected", c.name)); true }
            (Err(e), Ok(_)) => {
                self.refused += 1;
                // only where a proof has already failed: what is refused now was accepted by the program proved
                if let Ok(o) = std::env::var("VW_REFUSED") { self.say(&o, format!("{}: refused ({}), must be accepted", c.name, e)); }
                false
            }
            (Err(_), Err(_)) => { self.rejected += 1; false }
        }
    }

    fn ticks(&mut self, p: &Pool) -> (i32, i32) {
        let s: PoolState = self.w.zc(&p.key);
        let sp = p.spacing as i32;
        let base = (s.tick.div_euclid(sp)) as i64;
        let lim = (tick_math::MAX_TICK / sp) as i64;
        let mut pick = |r: &mut Rng| -> i64 {
            let v = match r.n(10) { 0 => base, 1 => base + 1, 2 => (base.div_euclid(256)) * 256, 3 => base.div_euclid(256) * 256 - 1, 4 => base.div_euclid(256) * 256 + 256, 5 => -1, 6 => 0, _ => base + r.n(41) as i64 - 20 };
            v.max(-lim).min(lim)
        };
        let (a, b) = (pick(&mut self.r), pick(&mut self.r));
        let (a, b) = if a == b { (a, (b + 1).min(lim)) } else { (a.min(b), a.max(b)) };
        let a = if a == b { a - 1 } else { a };
        (a as i32 * sp, b as i32 * sp)
    }

    fn step(&mut self) {
        let dt = [0i64, 0, 1, 5, 13, 14, 15, 100, 5000, 1 << 20][self.r.n(10) as usize];
        NOW.with(|n| n.set(n.get() + dt));
        let pi = self.r.n(self.pools.len() as u64) as usize;
        let p = self.pools[pi];
        let u = self.r.n(3) as usize;
        match self.r.n(100) {
            0..=13 => self.core_mint(u, pi, p),
            14..=24 => self.core_burn(p),
            25..=31 => self.core_collect(),
            32..=57 => self.swap(u, p),
            58..=62 => self.open(u, pi, p),
            63..=68 => self.increase(u),
            69..=75 => self.decrease(),
            76..=81 => self.collect_nft(),
            82..=84 => self.collect_protocol(p),
            85..=87 => self.set_fee(),
            88 => self.set_owner(),
            89..=91 => self.grow(p),
            92..=94 => self.exact_input(u),
            95..=97 => self.create_small(p, u),
            _ => self.close_tick(p),
        }
    }

    fn handler(&mut self, kind: u64) -> Pubkey {
        if kind == 0 { HANDLER.with(|h| *h.borrow_mut() = None); return PID; }
        // a foreign program that settles by itself: exactly, one short, one more, or one short in one token only
        let off = short(kind);
        let h = id(0x66, kind as u8);
        self.w.fund(h);
        HANDLER.with(|x| *x.borrow_mut() = Some(Box::new(move |ix, v| {
            use solana_program::program_pack::Pack;
            let a = u64::from_le_bytes(ix.data[8..16].try_into().unwrap()) as i64;
            let b = u64::from_le_bytes(ix.data[16..24].try_into().unwrap()) as i64;
            let swap = v.len() == 10 || v[8].data_len() != v[7].data_len();
            let pay: Vec<(usize, i64, i64)> = if v.len() >= 15 { vec![(3, a, off.0), (4, b, off.1)] } else { vec![(3, if a > 0 { a } else { b }, off.0)] };
            let _ = swap;
            for (i, n, off) in pay {
                if n <= 0 { continue; }
                let mut d = v[i].data.borrow_mut();
                let mut t = spl_token::state::Account::unpack(&d).unwrap();
                t.amount = (t.amount as i64 + n + off) as u64;
                t.pack_into_slice(&mut d);
            }
            Ok(())
        })));
        h
    }

    fn core_mint(&mut self, u: usize, pi: usize, p: Pool) {
        let who = self.users[u];
        let rec = self.users[self.r.n(3) as usize];
        let (lo, up) = if self.r.p(60) && !self.core.is_empty() { let c = self.core[self.r.n(self.core.len() as u64) as usize]; if c.1 == pi { (c.2, c.3) } else { self.ticks(&p) } } else { self.ticks(&p) };
        if self.w.init_position(&p, rec, lo, up).is_err() { return; }
        let l = if self.r.p(3) { 0 } else { self.r.size(34) };
        let kind = if self.r.p(25) { 1 + self.r.n(5) } else { 0 };
        let h = self.handler(kind);
        let (a0, a1) = self.wal(u, &p);
        let mut m = self.w.mint_accounts(&p, who, a0, a1, rec, lo, up);
        m.callback_handler = h;
        let next = self.w.next_obs(&p);
        let mut metas = m.to_account_metas(None);
        metas.push(AccountMeta { pubkey: next, is_signer: false, is_writable: true });
        let mut x = self.w.clone();
        let mut used = false;
        let want = (|| {
            let (q0, q1) = modify(&mut x, &p, &p.position(&rec, lo, up), lo, up, i64::try_from(l).map_err(|_| "C13")?, &mut used)?;
            if l == 0 { return Err("C12 C13"); }
            let off = short(kind);
            if kind == 0 { pay(&mut x, &a0, &p.v0, q0)?; pay(&mut x, &a1, &p.v1, q1)?; }
            else {
                if off.0 < 0 && q0 > 0 || off.1 < 0 && q1 > 0 { return Err("C13"); }
                if q0 > 0 { let b = x.amount(&p.v0); set_amount(&mut x, &p.v0, (b as i64 + q0 + off.0) as u64); }
                if q1 > 0 { let b = x.amount(&p.v1); set_amount(&mut x, &p.v1, (b as i64 + q1 + off.1) as u64); }
            }
            Ok(vec![ev(&MintEvent { pool_state: p.key, sender: who, owner: rec, tick_lower: lo, tick_upper: up, amount: l, amount_0: q0 as u64, amount_1: q1 as u64 })])
        })();
        let mut fixed = vec![3, 4, 6, 7, 8, 9, 10, 11, 12];
        if used { fixed.push(15); }
        let c = Call { name: format!("mint pool {} range {}..{} liquidity {} handler {}", pi, lo, up, l, kind), metas, data: ins::Mint { amount: l }.data(), fixed, bound: vec![], locks: Some(p.key) };
        if self.attempt(c, want.map(|e| (x, e))) && self.users.contains(&rec) {
            let ri = self.users.iter().position(|q| *q == rec).unwrap();
            if !self.core.contains(&(ri, pi, lo, up)) { self.core.push((ri, pi, lo, up)); }
        }
    }

    fn core_burn(&mut self, _p: Pool) {
        if self.core.is_empty() { return; }
        let (ui, pi, lo, up) = self.core[self.r.n(self.core.len() as u64) as usize];
        let (p, who) = (self.pools[pi], self.users[ui]);
        let pos: PositionState = self.w.zc(&p.position(&who, lo, up));
        let have = { pos.liquidity };
        let l = match self.r.n(6) { 0 => 0, 1 => have, 2 => have + 1, 3 => have / 2, _ => if have > 0 { self.r.next() % have } else { 1 } };
        let mut m = self.w.burn_accounts(&p, who, lo, up).to_account_metas(None);
        m.push(AccountMeta { pubkey: self.w.next_obs(&p), is_signer: false, is_writable: true });
        setm(&mut m);
        let mut x = self.w.clone();
        let mut used = false;
        let want = (|| {
            let k = p.position(&who, lo, up);
            let (q0, q1) = modify(&mut x, &p, &k, lo, up, -i64::try_from(l).map_err(|_| "C12")?, &mut used)?;
            let (o0, o1) = ((-q0) as u64, (-q1) as u64);
            credit(&mut x, &k, o0, o1);
            Ok(vec![ev(&BurnEvent { pool_state: p.key, owner: who, tick_lower: lo, tick_upper: up, amount: l, amount_0: o0, amount_1: o1 })])
        })();
        let mut fixed = vec![1, 2, 3, 4, 5, 6, 7];
        if used { fixed.push(8); }
        let c = Call { name: format!("burn pool {} range {}..{} liquidity {} of {}", pi, lo, up, l, have), metas: m, data: ins::Burn { amount: l }.data(), fixed, bound: vec![0], locks: Some(p.key) };
        self.attempt(c, want.map(|e| (x, e)));
    }

    fn core_collect(&mut self) {
        if self.core.is_empty() { return; }
        let (ui, pi, lo, up) = self.core[self.r.n(self.core.len() as u64) as usize];
        let (p, who) = (self.pools[pi], self.users[ui]);
        let k = p.position(&who, lo, up);
        let pos: PositionState = self.w.zc(&k);
        let r0 = self.ask(pos.tokens_owed_0);
        let r1 = self.ask(pos.tokens_owed_1);
        let (a0, a1) = { let v = self.r.n(3) as usize; self.wal(v, &p) };
        let metas = acc::CollectContext { owner: who, pool_state: p.key, tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up), position_state: k, vault_0: p.v0, vault_1: p.v1, recipient_wallet_0: a0, recipient_wallet_1: a1, token_program: spl_token::id() }.to_account_metas(None);
        let mut x = self.w.clone();
        let want = collect(&mut x, &p, &k, &a0, &a1, r0, r1).map(|(q0, q1)| vec![ev(&CollectEvent { pool_state: p.key, owner: who, tick_lower: lo, tick_upper: up, amount_0: q0, amount_1: q1 })]);
        let c = Call { name: format!("collect pool {} range {}..{} {} {}", pi, lo, up, r0, r1), metas, data: ins::Collect { amount_0_requested: r0, amount_1_requested: r1 }.data(), fixed: vec![1, 2, 3, 4, 5, 6], bound: vec![0], locks: Some(p.key) };
        self.attempt(c, want.map(|e| (x, e)));
    }
    fn ask(&mut self, have: u64) -> u64 { match self.r.n(5) { 0 => 0, 1 => have, 2 => have.saturating_sub(1), 3 => u64::MAX, _ => self.r.size(30) } }

    fn limit(&mut self, p: &Pool, z: bool) -> u64 {
        let s: PoolState = self.w.zc(&p.key);
        let t = { s.tick } + (if z { -1 } else { 1 }) * match self.r.n(4) { 0 => self.r.n(5) as i32, 1 => self.r.n(60) as i32 * p.spacing as i32, 2 => self.r.n(400) as i32, _ => self.r.n(30) as i32 * p.spacing as i32 };
        let t = t.max(tick_math::MIN_TICK + 1).min(tick_math::MAX_TICK - 1);
        let sp = p.spacing as i32;
        let t = if self.r.p(60) { (t.div_euclid(sp) * sp).max(tick_math::MIN_TICK + 1) } else { t };
        let b = tick_math::get_sqrt_ratio_at_tick(t).unwrap();
        let b = if self.r.p(40) { b + self.r.n(3) - 1 } else { b };
        match self.r.n(50) { 0 => if z { tick_math::MIN_SQRT_RATIO + self.r.n(2) } else { tick_math::MAX_SQRT_RATIO - self.r.n(2) }, 1 => if z { tick_math::MAX_SQRT_RATIO } else { tick_math::MIN_SQRT_RATIO }, _ => b }
    }

    fn swap(&mut self, u: usize, p: Pool) {
        let z = self.r.p(50);
        let who = self.users[u];
        let (a0, a1) = self.wal(u, &p);
        let single = self.r.p(25);
        let out = !single && self.r.p(35);
        let n = self.r.size(38) as i64;
        let amount = if out { -n } else { n };
        let kind = if single { 0 } else if out { 1 + self.r.n(3) } else if self.r.p(20) { 1 + self.r.n(3) } else { 0 };
        let limit = self.limit(&p, z);
        let zero = single && self.r.p(5);
        let lim = if zero { if z { tick_math::MIN_SQRT_RATIO + 1 } else { tick_math::MAX_SQRT_RATIO - 1 } } else { limit };
        let mut x = self.w.clone();
        let mut path = vec![];
        let (ui, uo, vi, vo) = if z { (a0, a1, p.v0, p.v1) } else { (a1, a0, p.v1, p.v0) };
        let off = match kind { 2 => -1i64, 3 => 1, _ => 0 };
        let r = swap(&mut x, &p, z, amount, lim, &mut path);
        if r.is_err() && path.is_empty() && self.r.p(70) {
            // a swap to be refused at its start is given the accounts it would need if it were not
            let e = if z { tick_math::MIN_SQRT_RATIO + 1 } else { tick_math::MAX_SQRT_RATIO - 1 };
            let _ = swap(&mut self.w.clone(), &p, z, amount, if self.r.p(50) { e } else { self.limit(&p, z) }, &mut path);
        }
        if path.len() > 60 { return; }
        let lastobs = self.w.last_obs(&p);
        let mut paid_out = 0u64;
        let want = r.and_then(|o| {
            let (qi, qo) = if z { (o.amount_0, o.amount_1) } else { (o.amount_1, o.amount_0) };
            pay(&mut x, &vo, &uo, -qo)?;
            paid_out = (-qo) as u64;
            if kind == 0 { if qi > 0 { pay(&mut x, &ui, &vi, qi)?; } }
            else if qi > 0 { if off < 0 { return Err("C13"); } let b = x.amount(&vi); set_amount(&mut x, &vi, (b as i64 + qi + off) as u64); }
            Ok(vec![ev(&SwapEvent { pool_state: p.key, sender: who, token_account_0: a0, token_account_1: a1, amount_0: o.amount_0, amount_1: o.amount_1, sqrt_price_x32: o.price, liquidity: o.liquidity, tick: o.tick })])
        });
        let h = self.handler(kind);
        let rest: Vec<AccountMeta> = path.iter().map(|k| AccountMeta { pubkey: *k, is_signer: false, is_writable: true }).collect();
        if single {
            let min = match self.r.n(4) { 0 => paid_out, 1 => paid_out + 1, 2 => paid_out / 2, _ => 0 };
            let late = self.r.p(5);
            let now = NOW.with(|t| t.get());
            let deadline = if late { now - 1 } else { now + self.r.n(2) as i64 };
            let want = want.and_then(|e| if min > paid_out || late { Err("C16") } else { Ok((x, e)) });
            let mut metas = acc::ExactInputSingle { signer: who, factory_state: factory(), pool_state: p.key, input_token_account: ui, output_token_account: uo, input_vault: vi, output_vault: vo, last_observation_state: lastobs, core_program: PID, token_program: spl_token::id() }.to_account_metas(None);
            let mut fixed = vec![2, 5, 6, 7];
            for i in 0..rest.len() { fixed.push(metas.len() + i) }
            metas.extend(rest);
            let c = Call { name: format!("exact_input_single {} {} limit {} min {}", z, amount, lim, min), metas, data: ins::ExactInputSingle { deadline, amount_in: amount as u64, amount_out_minimum: min, sqrt_price_limit_x32: if zero { 0 } else { lim } }.data(), fixed, bound: vec![], locks: Some(p.key) };
            self.attempt(c, want);
        } else {
            let mut m = self.w.swap_accounts(&p, who, a0, a1, z);
            m.callback_handler = h;
            let mut metas = m.to_account_metas(None);
            let mut fixed = vec![3, 4, 7, 8];
            for i in 0..rest.len() { fixed.push(metas.len() + i) }
            metas.extend(rest);
            let c = Call { name: format!("swap zero_for_one {} amount {} limit {} handler {}", z, amount, lim, kind), metas, data: ins::Swap { amount_specified: amount, sqrt_price_limit_x32: lim }.data(), fixed, bound: vec![], locks: Some(p.key) };
            self.attempt(c, want.map(|e| (x, e)));
        }
    }

    fn exact_input(&mut self, u: usize) {
        // t0 -> t1 -> t2 over pools 0 and 1, sometimes on through pool 2 back to t0
        let hops: Vec<(usize, bool)> = match self.r.n(5) { 0 => vec![(0, true), (1, true), (2, false)], 1 => vec![(1, false), (0, false)], 2 => vec![(2, true)], 3 => vec![(2, true), (1, false)], _ => vec![(0, true), (1, true)] };
        let who = self.users[u];
        let amount = self.r.size(28);
        let mut x = self.w.clone();
        let mut evs = vec![];
        let mut amt = amount;
        let mut rest: Vec<AccountMeta> = vec![];
        let mut counts = vec![];
        let wr = |k: Pubkey| AccountMeta { pubkey: k, is_signer: false, is_writable: true };
        let mut err = None;
        let mut fixed = vec![];
        for (pi, z) in &hops {
            let p = self.pools[*pi];
            let (a0, a1) = self.wal(u, &p);
            let (ui, uo, vi, vo) = if *z { (a0, a1, p.v0, p.v1) } else { (a1, a0, p.v1, p.v0) };
            for i in [0usize, 2, 3, 4] { fixed.push(5 + rest.len() + i) }
            rest.extend([p.key, uo, vi, vo, x.last_obs(&p)].map(wr));
            let mut path = vec![];
            let lim = if *z { tick_math::MIN_SQRT_RATIO + 1 } else { tick_math::MAX_SQRT_RATIO - 1 };
            let r = if amt == 0 || amt > i64::MAX as u64 { Err("C15") } else { swap(&mut x, &p, *z, amt as i64, lim, &mut path) };
            if path.len() > 60 { return; }
            counts.push(path.len() as u8);
            rest.extend(path.into_iter().map(wr));
            let r = r.and_then(|o| {
                let (qi, qo) = if *z { (o.amount_0, o.amount_1) } else { (o.amount_1, o.amount_0) };
                pay(&mut x, &vo, &uo, -qo)?;
                pay(&mut x, &ui, &vi, qi)?;
                evs.push(ev(&SwapEvent { pool_state: p.key, sender: who, token_account_0: a0, token_account_1: a1, amount_0: o.amount_0, amount_1: o.amount_1, sqrt_price_x32: o.price, liquidity: o.liquidity, tick: o.tick }));
                Ok((-qo) as u64)
            });
            match r { Ok(n) => amt = n, Err(e) => { err = Some(e); break } }
        }
        if err.is_some() && self.r.p(80) { return; }
        let min = match self.r.n(4) { 0 => amt, 1 => amt.saturating_add(1), 2 => amt / 2, _ => 0 };
        let late = self.r.p(5);
        let now = NOW.with(|t| t.get());
        let deadline = if late { now - 1 } else { now };
        let want = match err { Some(e) => Err(e), None => if min > amt || late { Err("C16") } else { Ok((x, evs)) } };
        let first = self.pools[hops[0].0];
        let inp = if hops[0].1 { self.wal(u, &first).0 } else { self.wal(u, &first).1 };
        let mut metas = acc::ExactInput { signer: who, factory_state: factory(), input_token_account: inp, core_program: PID, token_program: spl_token::id() }.to_account_metas(None);
        metas.extend(rest);
        self.handler(0);
        let c = Call { name: format!("exact_input {:?} {} min {}", hops, amount, min), metas, data: ins::ExactInput { deadline, amount_in: amount, amount_out_minimum: min, additional_accounts_per_pool: counts }.data(), fixed, bound: vec![], locks: Some(first.key) };
        self.attempt(c, want);
    }

    fn open(&mut self, u: usize, pi: usize, p: Pool) {
        let (lo, up) = if self.r.p(60) && !self.nfts.is_empty() { let c = self.nfts[self.r.n(self.nfts.len() as u64) as usize]; if c.pool == pi { (c.lo, c.up) } else { self.ticks(&p) } } else { self.ticks(&p) };
        if self.w.init_position(&p, factory(), lo, up).is_err() { return; }
        let who = self.users[u];
        let (a0, a1) = self.wal(u, &p);
        self.w.n = self.w.n.wrapping_add(1);
        let m = id(0x72, self.w.n);
        if self.w.a.contains_key(&m) { return; }
        let na = ata(&who, &m);
        let st = self.w.nft_state(&m);
        let (d0, d1) = (self.r.size(34), self.r.size(34));
        let mut x = self.w.clone();
        let mut used = false;
        let r = add_liquidity(&mut x, &p, lo, up, d0, d1, &a0, &a1, &mut used);
        let (q0, q1) = r.map(|(_, a, b)| (a, b)).unwrap_or((0, 0));
        let (m0, m1) = (self.minimum(q0), self.minimum(q1));
        let late = self.r.p(4);
        let now = NOW.with(|t| t.get());
        let k = p.position(&factory(), lo, up);
        let want = r.and_then(|(l, q0, q1)| {
            if m0 > q0 || m1 > q1 || late { return Err("C16"); }
            let pos: PositionState = x.zc(&k);
            // the mint, its account and the record
            use solana_program::program_pack::Pack;
            let mut d = vec![0u8; 82];
            spl_token::state::Mint { mint_authority: Some(factory()).into(), supply: 1, decimals: 0, is_initialized: true, freeze_authority: None.into() }.pack_into_slice(&mut d);
            x.a.insert(m, Acct { lamports: 0, data: d, owner: spl_token::id() });
            x.token_at(na, m, who, 1);
            let mut d = vec![0u8; 8 + std::mem::size_of::<TokenizedPositionState>()];
            d[..8].copy_from_slice(&<TokenizedPositionState as anchor_lang::Discriminator>::discriminator());
            x.a.insert(st, Acct { lamports: 0, data: d, owner: PID });
            let bump = Pubkey::find_program_address(&[POSITION_SEED.as_bytes(), m.as_ref()], &PID).1;
            x.set(&st, TokenizedPositionState { bump, mint: m, pool_id: p.key, tick_lower: lo, tick_upper: up, liquidity: l, fee_growth_inside_0_last_x32: pos.fee_growth_inside_0_last_x32, fee_growth_inside_1_last_x32: pos.fee_growth_inside_1_last_x32, tokens_owed_0: 0, tokens_owed_1: 0 });
            Ok(vec![ev(&MintEvent { pool_state: p.key, sender: who, owner: factory(), tick_lower: lo, tick_upper: up, amount: l, amount_0: q0, amount_1: q1 }), ev(&IncreaseLiquidityEvent { token_id: m, liquidity: l, amount_0: q0, amount_1: q1 })])
        });
        self.handler(0);
        let next = self.w.next_obs(&p);
        let mut metas = acc::MintTokenizedPosition { minter: who, recipient: who, factory_state: factory(), nft_mint: m, nft_account: na, pool_state: p.key, core_position_state: k, tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up),
            bitmap_lower_state: p.bitmap(p.word(lo)), bitmap_upper_state: p.bitmap(p.word(up)), tokenized_position_state: st, token_account_0: a0, token_account_1: a1, vault_0: p.v0, vault_1: p.v1, last_observation_state: self.w.last_obs(&p),
            rent: solana_program::sysvar::rent::id(), core_program: PID, system_program: solana_program::system_program::id(), token_program: spl_token::id(), associated_token_program: anchor_spl::associated_token::ID }.to_account_metas(None);
        let mut fixed = vec![5, 6, 7, 8, 9, 10, 14, 15, 16];
        if used { fixed.push(metas.len()); }
        metas.push(AccountMeta { pubkey: next, is_signer: false, is_writable: true });
        let c = Call { name: format!("mint_tokenized_position pool {} range {}..{} desired {} {} min {} {}", pi, lo, up, d0, d1, m0, m1), metas, data: ins::MintTokenizedPosition { amount_0_desired: d0, amount_1_desired: d1, amount_0_min: m0, amount_1_min: m1, deadline: if late { now - 1 } else { now } }.data(), fixed, bound: vec![], locks: Some(p.key) };
        if self.attempt(c, want.map(|e| (x, e))) { self.nfts.push(Nft { mint: m, acct: na, holder: u, pool: pi, lo, up }); }
    }
    fn minimum(&mut self, q: u64) -> u64 { match self.r.n(6) { 0 => q, 1 => q + 1, 2 => q.saturating_sub(1), _ => 0 } }

    fn increase(&mut self, u: usize) {
        if self.nfts.is_empty() { return; }
        let t = self.nfts[self.r.n(self.nfts.len() as u64) as usize];
        let p = self.pools[t.pool];
        // sometimes a range the token was not opened in
        let other = self.r.p(6);
        let (lo, up) = if other { self.ticks(&p) } else { (t.lo, t.up) };
        if other && self.w.init_position(&p, factory(), lo, up).is_err() { return; }
        let who = self.users[u];
        let (a0, a1) = self.wal(u, &p);
        let (d0, d1) = (self.r.size(34), self.r.size(34));
        let st = self.w.nft_state(&t.mint);
        let mut x = self.w.clone();
        let mut used = false;
        let r = add_liquidity(&mut x, &p, lo, up, d0, d1, &a0, &a1, &mut used);
        let (q0, q1) = r.map(|(_, a, b)| (a, b)).unwrap_or((0, 0));
        let (m0, m1) = (self.minimum(q0), self.minimum(q1));
        let late = self.r.p(4);
        let now = NOW.with(|t| t.get());
        let k = p.position(&factory(), lo, up);
        let want = r.and_then(|(l, q0, q1)| {
            if (lo, up) != (t.lo, t.up) { return Err("C18"); }
            if m0 > q0 || m1 > q1 || late { return Err("C16"); }
            let pos: PositionState = x.zc(&k);
            let mut s: TokenizedPositionState = x.zc(&st);
            let f0 = fee(pos.fee_growth_inside_0_last_x32, s.fee_growth_inside_0_last_x32, s.liquidity).ok_or("C18")?;
            let f1 = fee(pos.fee_growth_inside_1_last_x32, s.fee_growth_inside_1_last_x32, s.liquidity).ok_or("C18")?;
            s.tokens_owed_0 = { s.tokens_owed_0 }.wrapping_add(f0);
            s.tokens_owed_1 = { s.tokens_owed_1 }.wrapping_add(f1);
            s.fee_growth_inside_0_last_x32 = pos.fee_growth_inside_0_last_x32;
            s.fee_growth_inside_1_last_x32 = pos.fee_growth_inside_1_last_x32;
            s.liquidity += l;
            x.set(&st, s);
            Ok(vec![ev(&MintEvent { pool_state: p.key, sender: who, owner: factory(), tick_lower: lo, tick_upper: up, amount: l, amount_0: q0, amount_1: q1 }), ev(&IncreaseLiquidityEvent { token_id: t.mint, liquidity: l, amount_0: q0, amount_1: q1 })])
        });
        self.handler(0);
        let mut metas = acc::IncreaseLiquidity { payer: who, factory_state: factory(), tokenized_position_state: st, pool_state: p.key, core_position_state: k, tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up), bitmap_lower_state: p.bitmap(p.word(lo)), bitmap_upper_state: p.bitmap(p.word(up)),
            token_account_0: a0, token_account_1: a1, vault_0: p.v0, vault_1: p.v1, last_observation_state: self.w.last_obs(&p), core_program: PID, token_program: spl_token::id() }.to_account_metas(None);
        let mut fixed = vec![3, 4, 5, 6, 7, 8, 11, 12, 13];
        if used { fixed.push(metas.len()); }
        metas.push(AccountMeta { pubkey: self.w.next_obs(&p), is_signer: false, is_writable: true });
        let c = Call { name: format!("increase_liquidity range {}..{} desired {} {} min {} {}", lo, up, d0, d1, m0, m1), metas, data: ins::IncreaseLiquidity { amount_0_desired: d0, amount_1_desired: d1, amount_0_min: m0, amount_1_min: m1, deadline: if late { now - 1 } else { now } }.data(), fixed, bound: vec![], locks: Some(p.key) };
        self.attempt(c, want.map(|e| (x, e)));
    }

    /// Who acts on a position token: its holder, its delegate (with or without allowance), somebody else; entitled or not
    fn acting(&mut self, t: &Nft) -> (Pubkey, bool, Vec<usize>) {
        let holder = self.users[t.holder];
        let other = |r: &mut Rng, n: u64| r.n(n) as usize;
        let n = self.users.len() as u64;
        let d = match self.r.n(4) { 0 => { let i = other(&mut self.r, n); Some(self.users[i]) }, _ => None };
        let allow = if d.is_some() { [0u64, 1, 1, 5][self.r.n(4) as usize] } else { 0 };
        let amount = if self.r.p(4) { [0u64, 2][self.r.n(2) as usize] } else { 1 };
        if let Some(a) = self.w.a.get_mut(&t.acct) {
            if let Ok(mut x) = <spl_token::state::Account as solana_program::program_pack::Pack>::unpack(&a.data) {
                x.delegate = match d { Some(k) => solana_program::program_option::COption::Some(k), None => solana_program::program_option::COption::None };
                x.delegated_amount = allow;
                x.amount = amount;
                solana_program::program_pack::Pack::pack_into_slice(&x, &mut a.data);
            }
        }
        let who = match d { Some(k) if self.r.p(70) => k, _ => if self.r.p(6) { let i = other(&mut self.r, n); self.users[i] } else { holder } };
        let ok = amount == 1 && (who == holder || (d == Some(who) && allow > 0));
        (who, ok, if d.is_none() && who == holder { vec![0] } else { vec![] })
    }

    fn decrease(&mut self) {
        if self.nfts.is_empty() { return; }
        let t = self.nfts[self.r.n(self.nfts.len() as u64) as usize];
        let p = self.pools[t.pool];
        let other = self.r.p(8);
        let (lo, up) = if other { let q = self.nfts[self.r.n(self.nfts.len() as u64) as usize]; if q.pool != t.pool { return; } (q.lo, q.up) } else { (t.lo, t.up) };
        let (who, entitled, bound) = self.acting(&t);
        let st = self.w.nft_state(&t.mint);
        let s0: TokenizedPositionState = self.w.zc(&st);
        let have = { s0.liquidity };
        let l = match self.r.n(7) { 0 => 0, 1 => have, 2 => have + 1, 3 => have.saturating_mul(2), 4 => have / 2, _ => if have > 0 { self.r.next() % have } else { 1 } };
        let k = p.position(&factory(), lo, up);
        let before: PositionState = self.w.zc(&k);
        let _ = before;
        let mut x = self.w.clone();
        let mut used = false;
        let r = (|| { let (a, b) = modify(&mut x, &p, &k, lo, up, -i64::try_from(l).map_err(|_| "C18")?, &mut used)?; let (a, b) = ((-a) as u64, (-b) as u64); credit(&mut x, &k, a, b); Ok((a, b)) })();
        let (q0, q1) = r.unwrap_or((0, 0));
        let (m0, m1) = (self.minimum(q0), self.minimum(q1));
        let late = self.r.p(4);
        let now = NOW.with(|t| t.get());
        let want = r.and_then(|(q0, q1)| {
            if !entitled { return Err("C17"); }
            if (lo, up) != (t.lo, t.up) || l == 0 || l > have { return Err("C18"); }
            if m0 > q0 || m1 > q1 || late { return Err("C16"); }
            let pos: PositionState = x.zc(&k);
            let mut s = s0;
            let f0 = fee(pos.fee_growth_inside_0_last_x32, s.fee_growth_inside_0_last_x32, s.liquidity).ok_or("C18")?;
            let f1 = fee(pos.fee_growth_inside_1_last_x32, s.fee_growth_inside_1_last_x32, s.liquidity).ok_or("C18")?;
            s.tokens_owed_0 = { s.tokens_owed_0 }.wrapping_add(f0).wrapping_add(q0);
            s.tokens_owed_1 = { s.tokens_owed_1 }.wrapping_add(f1).wrapping_add(q1);
            s.fee_growth_inside_0_last_x32 = pos.fee_growth_inside_0_last_x32;
            s.fee_growth_inside_1_last_x32 = pos.fee_growth_inside_1_last_x32;
            s.liquidity -= l;
            x.set(&st, s);
            Ok(vec![ev(&BurnEvent { pool_state: p.key, owner: factory(), tick_lower: lo, tick_upper: up, amount: l, amount_0: q0, amount_1: q1 }), ev(&DecreaseLiquidityEvent { token_id: t.mint, liquidity: l, amount_0: q0, amount_1: q1 })])
        });
        let mut metas = acc::DecreaseLiquidity { owner_or_delegate: who, nft_account: t.acct, tokenized_position_state: st, factory_state: factory(), pool_state: p.key, core_position_state: k, tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up), bitmap_lower_state: p.bitmap(p.word(lo)), bitmap_upper_state: p.bitmap(p.word(up)),
            last_observation_state: self.w.last_obs(&p), core_program: PID }.to_account_metas(None);
        let mut fixed = vec![1, 2, 4, 5, 6, 7, 8, 9, 10];
        if used { fixed.push(metas.len()); }
        metas.push(AccountMeta { pubkey: self.w.next_obs(&p), is_signer: false, is_writable: true });
        let c = Call { name: format!("decrease_liquidity range {}..{} (opened {}..{}) {} of {} min {} {}", lo, up, t.lo, t.up, l, have, m0, m1), metas, data: ins::DecreaseLiquidity { liquidity: l, amount_0_min: m0, amount_1_min: m1, deadline: if late { now - 1 } else { now } }.data(), fixed, bound, locks: Some(p.key) };
        self.attempt(c, want.map(|e| (x, e)));
    }

    fn collect_nft(&mut self) {
        if self.nfts.is_empty() { return; }
        let t = self.nfts[self.r.n(self.nfts.len() as u64) as usize];
        let p = self.pools[t.pool];
        let (lo, up) = (t.lo, t.up);
        let (who, entitled, bound) = self.acting(&t);
        let st = self.w.nft_state(&t.mint);
        let mut s: TokenizedPositionState = self.w.zc(&st);
        let k = p.position(&factory(), lo, up);
        let (a0, a1) = { let v = self.r.n(3) as usize; self.wal(v, &p) };
        let (r0, r1) = { let (a, b) = (s.tokens_owed_0, s.tokens_owed_1); (self.ask(a), self.ask(b)) };
        let live = { s.liquidity } > 0;
        let mut x = self.w.clone();
        let mut used = false;
        let want = (|| {
            if !entitled { return Err("C17"); }
            if r0 == 0 && r1 == 0 { return Err("C18"); }
            let mut evs = vec![];
            if live {
                modify(&mut x, &p, &k, lo, up, 0, &mut used)?;
                evs.push(ev(&BurnEvent { pool_state: p.key, owner: factory(), tick_lower: lo, tick_upper: up, amount: 0, amount_0: 0, amount_1: 0 }));
                let pos: PositionState = x.zc(&k);
                let f0 = fee(pos.fee_growth_inside_0_last_x32, s.fee_growth_inside_0_last_x32, s.liquidity).ok_or("C18")?;
                let f1 = fee(pos.fee_growth_inside_1_last_x32, s.fee_growth_inside_1_last_x32, s.liquidity).ok_or("C18")?;
                s.tokens_owed_0 = { s.tokens_owed_0 }.wrapping_add(f0);
                s.tokens_owed_1 = { s.tokens_owed_1 }.wrapping_add(f1);
                s.fee_growth_inside_0_last_x32 = pos.fee_growth_inside_0_last_x32;
                s.fee_growth_inside_1_last_x32 = pos.fee_growth_inside_1_last_x32;
            }
            let (n0, n1) = (r0.min(s.tokens_owed_0), r1.min(s.tokens_owed_1));
            let (q0, q1) = collect(&mut x, &p, &k, &a0, &a1, n0, n1)?;
            s.tokens_owed_0 -= n0;
            s.tokens_owed_1 -= n1;
            x.set(&st, s);
            evs.push(ev(&CollectEvent { pool_state: p.key, owner: factory(), tick_lower: lo, tick_upper: up, amount_0: q0, amount_1: q1 }));
            evs.push(ev(&CollectTokenizedEvent { token_id: t.mint, recipient_wallet_0: a0, recipient_wallet_1: a1, amount_0: n0, amount_1: n1 }));
            Ok(evs)
        })();
        let mut metas = acc::CollectFromTokenized { owner_or_delegate: who, nft_account: t.acct, tokenized_position_state: st, factory_state: factory(), pool_state: p.key, core_position_state: k, tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up), bitmap_lower_state: p.bitmap(p.word(lo)), bitmap_upper_state: p.bitmap(p.word(up)),
            last_observation_state: self.w.last_obs(&p), vault_0: p.v0, vault_1: p.v1, recipient_wallet_0: a0, recipient_wallet_1: a1, core_program: PID, token_program: spl_token::id() }.to_account_metas(None);
        let mut fixed = vec![1, 2, 4, 5, 6, 7, 11, 12];
        if live { fixed.extend([8, 9, 10]); }
        metas.push(AccountMeta { pubkey: self.w.next_obs(&p), is_signer: false, is_writable: true });
        let c = Call { name: format!("collect_from_tokenized range {}..{} {} {}", lo, up, r0, r1), metas, data: ins::CollectFromTokenized { amount_0_max: r0, amount_1_max: r1 }.data(), fixed, bound, locks: Some(p.key) };
        self.attempt(c, want.map(|e| (x, e)));
    }

    fn collect_protocol(&mut self, p: Pool) {
        let s: PoolState = self.w.zc(&p.key);
        let (h0, h1) = ({ s.protocol_fees_token_0 }, { s.protocol_fees_token_1 });
        let (r0, r1) = (self.ask(h0), self.ask(h1));
        let (a0, a1) = { let v = self.r.n(3) as usize; self.wal(v, &p) };
        let (q0, q1) = (r0.min(h0), r1.min(h1));
        let mut x = self.w.clone();
        let owner = self.owner;
        let want = (|| {
            let mut t = s;
            t.protocol_fees_token_0 -= q0;
            t.protocol_fees_token_1 -= q1;
            x.set(&p.key, t);
            pay(&mut x, &p.v0, &a0, q0 as i64)?;
            pay(&mut x, &p.v1, &a1, q1 as i64)?;
            Ok(vec![ev(&CollectProtocolEvent { pool_state: p.key, sender: owner, recipient_wallet_0: a0, recipient_wallet_1: a1, amount_0: q0, amount_1: q1 })])
        })();
        let metas = acc::CollectProtocol { owner, factory_state: factory(), pool_state: p.key, vault_0: p.v0, vault_1: p.v1, recipient_wallet_0: a0, recipient_wallet_1: a1, token_program: spl_token::id() }.to_account_metas(None);
        let c = Call { name: format!("collect_protocol {} {}", r0, r1), metas, data: ins::CollectProtocol { amount_0_requested: r0, amount_1_requested: r1 }.data(), fixed: vec![2, 3, 4], bound: vec![0], locks: Some(p.key) };
        self.attempt(c, want.map(|e| (x, e)));
    }

    fn set_fee(&mut self) {
        let v = self.r.n(12) as u8;
        let mut x = self.w.clone();
        let mut f: FactoryState = x.zc(&factory());
        let old = f.fee_protocol;
        f.fee_protocol = v;
        x.set(&factory(), f);
        let want = if (2..=10).contains(&v) { Ok((x, vec![ev(&SetFeeProtocolEvent { fee_protocol_old: old, fee_protocol: v })])) } else { Err("C22") };
        let metas = acc::SetFeeProtocol { owner: self.owner, factory_state: factory() }.to_account_metas(None);
        let c = Call { name: format!("set_fee_protocol {}", v), metas, data: ins::SetFeeProtocol { fee_protocol: v }.data(), fixed: vec![], bound: vec![0], locks: None };
        self.attempt(c, want);
    }
    fn set_owner(&mut self) {
        let q = if self.owner == admin() { id(0xAE, 1) } else { admin() };
        if !self.w.a.contains_key(&q) { self.w.fund(q); }
        let mut x = self.w.clone();
        let mut f: FactoryState = x.zc(&factory());
        let old = self.owner;
        f.owner = q;
        x.set(&factory(), f);
        let metas = acc::SetOwner { owner: old, new_owner: q, factory_state: factory() }.to_account_metas(None);
        let c = Call { name: "set_owner".into(), metas, data: ins::SetOwner {}.data(), fixed: vec![], bound: vec![0], locks: None };
        if self.attempt(c, Ok((x, vec![ev(&OwnerChanged { old_owner: old, new_owner: q })]))) { self.owner = q; }
    }
    fn grow(&mut self, p: Pool) {
        let s: PoolState = self.w.zc(&p.key);
        let n0 = { s.observation_cardinality_next };
        let k = self.r.n(3) as u16;
        let mut metas = acc::IncreaseObservationCardinalityNext { payer: admin(), pool_state: p.key, system_program: solana_program::system_program::id() }.to_account_metas(None);
        metas[0].is_writable = true;
        let mut bumps = vec![];
        let mut x = self.w.clone();
        let wrong = self.r.p(8);
        for i in n0..n0 + k {
            let (kk, bump) = Pubkey::find_program_address(&[OBSERVATION_SEED.as_bytes(), p.t0.as_ref(), p.t1.as_ref(), &p.fee.to_be_bytes(), &i.to_be_bytes()], &PID);
            bumps.push(bump);
            let kk2 = if wrong && i == n0 + k - 1 { p.obs(n0 + k + 1) } else { kk };
            metas.push(AccountMeta { pubkey: kk2, is_signer: false, is_writable: true });
            let mut d = vec![0u8; 8 + std::mem::size_of::<ObservationState>()];
            d[..8].copy_from_slice(&<ObservationState as anchor_lang::Discriminator>::discriminator());
            x.a.insert(kk, Acct { lamports: 0, data: d, owner: PID });
            x.set(&kk, ObservationState { bump, index: i, block_timestamp: 1, ..Default::default() });
        }
        let mut t = s;
        t.observation_cardinality_next = n0 + k;
        x.set(&p.key, t);
        let want = if wrong && k > 0 { Err("C21 C23") } else { Ok((x, vec![ev(&IncreaseObservationCardinalityNext { observation_cardinality_next_old: n0, observation_cardinality_next_new: n0 + k })])) };
        let c = Call { name: format!("increase_observation_cardinality_next by {}", k), metas, data: ins::IncreaseObservationCardinalityNext { observation_account_bumps: bumps }.data(), fixed: vec![], bound: vec![], locks: Some(p.key) };
        self.attempt(c, want);
    }
    fn create_small(&mut self, p: Pool, u: usize) {
        // ticks, bitmap words and positions, valid and not
        let sp = p.spacing as i32;
        let lim = tick_math::MAX_TICK / sp;
        let who = self.users[u];
        match self.r.n(4) {
            0 => {
                let t = match self.r.n(6) { 0 => lim * sp, 1 => -lim * sp, 2 => (lim + 1) * sp, 3 => -(lim + 1) * sp, 4 => self.r.n(100) as i32 - 50, _ => (self.r.n(200) as i32 - 100) * sp };
                let k = p.tick(t);
                let exists = self.w.a.contains_key(&k);
                let good = t % sp == 0 && t.abs() <= tick_math::MAX_TICK && !exists;
                let mut x = self.w.clone();
                let bump = Pubkey::find_program_address(&[TICK_SEED.as_bytes(), p.t0.as_ref(), p.t1.as_ref(), &p.fee.to_be_bytes(), &t.to_be_bytes()], &PID).1;
                let mut d = vec![0u8; 8 + std::mem::size_of::<TickState>()];
                d[..8].copy_from_slice(&<TickState as anchor_lang::Discriminator>::discriminator());
                if !exists { x.a.insert(k, Acct { lamports: 0, data: d, owner: PID }); x.set(&k, TickState { bump, tick: t, ..Default::default() }); }
                let metas = acc::InitTickAccount { signer: who, pool_state: p.key, tick_state: k, system_program: solana_program::system_program::id() }.to_account_metas(None);
                let c = Call { name: format!("init_tick_account {}", t), metas, data: ins::InitTickAccount { tick: t }.data(), fixed: vec![], bound: vec![], locks: None };
                self.attempt(c, if good { Ok((x, vec![])) } else { Err("C21") });
            }
            1 => {
                let last = (tick_math::MAX_TICK / sp) >> 8;
                let first = (-lim) >> 8;
                let wd = match self.r.n(5) { 0 => last, 1 => last + 1, 2 => first, 3 => first - 1, _ => self.r.n(6) as i32 - 3 } as i16;
                let k = p.bitmap(wd);
                let exists = self.w.a.contains_key(&k);
                let mut x = self.w.clone();
                let bump = Pubkey::find_program_address(&[BITMAP_SEED.as_bytes(), p.t0.as_ref(), p.t1.as_ref(), &p.fee.to_be_bytes(), &wd.to_be_bytes()], &PID).1;
                let mut d = vec![0u8; 8 + std::mem::size_of::<TickBitmapState>()];
                d[..8].copy_from_slice(&<TickBitmapState as anchor_lang::Discriminator>::discriminator());
                if !exists { x.a.insert(k, Acct { lamports: 0, data: d, owner: PID }); x.set(&k, TickBitmapState { bump, word_pos: wd, ..Default::default() }); }
                let metas = acc::InitBitmapAccount { signer: who, pool_state: p.key, bitmap_state: k, system_program: solana_program::system_program::id() }.to_account_metas(None);
                let good = !exists && (wd as i32) <= last && (wd as i32) >= first;
                let c = Call { name: format!("init_bitmap_account {}", wd), metas, data: ins::InitBitmapAccount { word_pos: wd }.data(), fixed: vec![], bound: vec![], locks: None };
                self.attempt(c, if good { Ok((x, vec![])) } else { Err("C21") });
            }
            _ => {
                let (lo, up) = self.ticks(&p);
                let (lo, up) = match self.r.n(5) { 0 => (up, lo), 1 => (lo, lo), _ => (lo, up) };
                if self.w.init_tick(&p, lo).is_err() || self.w.init_tick(&p, up).is_err() { return; }
                let k = p.position(&who, lo, up);
                let exists = self.w.a.contains_key(&k);
                let mut x = self.w.clone();
                let bump = Pubkey::find_program_address(&[POSITION_SEED.as_bytes(), p.t0.as_ref(), p.t1.as_ref(), &p.fee.to_be_bytes(), who.as_ref(), &lo.to_be_bytes(), &up.to_be_bytes()], &PID).1;
                let mut d = vec![0u8; 8 + std::mem::size_of::<PositionState>()];
                d[..8].copy_from_slice(&<PositionState as anchor_lang::Discriminator>::discriminator());
                if !exists { x.a.insert(k, Acct { lamports: 0, data: d, owner: PID }); x.set(&k, PositionState { bump, ..Default::default() }); }
                let metas = acc::InitPositionAccount { signer: admin(), recipient: who, pool_state: p.key, tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up), position_state: k, system_program: solana_program::system_program::id() }.to_account_metas(None);
                let c = Call { name: format!("init_position_account {}..{}", lo, up), metas, data: ins::InitPositionAccount {}.data(), fixed: vec![2], bound: vec![], locks: None };
                self.attempt(c, if lo < up && !exists { Ok((x, vec![])) } else { Err("C21") });
            }
        }
    }
    fn close_tick(&mut self, p: Pool) {
        let disc = <TickState as anchor_lang::Discriminator>::discriminator();
        let ts: Vec<Pubkey> = self.w.a.iter().filter(|(_, a)| a.owner == PID && a.data.len() > 8 && a.data[..8] == disc).map(|(k, _)| *k).collect();
        if ts.is_empty() { return; }
        let _ = p;
        let k = ts[self.r.n(ts.len() as u64) as usize];
        let t: TickState = self.w.zc(&k);
        let clear = { t.liquidity_net } == 0 && { t.liquidity_gross } == 0 && { t.fee_growth_outside_0_x32 } == 0 && { t.fee_growth_outside_1_x32 } == 0 && { t.tick_cumulative_outside } == 0 && { t.seconds_per_liquidity_outside_x32 } == 0 && { t.seconds_outside } == 0;
        let metas = acc::CloseTickAccount { tick_state: k, recipient: self.users[0] }.to_account_metas(None);
        // only on a copy: a closed tick would have to be created again
        let r = self.w.clone().run(metas, &ins::CloseTickAccount {}.data());
        if r.is_ok() && !clear { self.log.push("close_tick_account".into()); self.say("C20", format!("close_tick_account: tick {} with liquidity {} closed", { t.tick }, { t.liquidity_gross })); }
    }
}

fn create_pools(seed: u64, bad: &mut Vec<(String, String)>) -> u64 {
    // pools and fee tiers, valid and not
    let mut r = Rng(seed.wrapping_mul(77_777) | 1);
    for _ in 0..8 { r.next(); }
    let mut w = World::new();
    let mut n = 0;
    let ms: Vec<Pubkey> = (0..3).map(|_| w.mint()).collect();
    for _ in 0..12 {
        let fee = [0u32, 1, 500, 3000, 999_999, 1_000_000, 1_000_001, u32::MAX, r.n(1_000_000) as u32][r.n(9) as usize];
        let sp = [0u16, 1, 10, 16383, 16384, 65535, r.n(16384) as u16][r.n(7) as usize];
        let fk = pda(&[FEE_SEED_.as_bytes(), &fee.to_be_bytes()]);
        let exists = w.a.contains_key(&fk);
        let good = !exists && fee < 1_000_000 && sp > 0 && sp < 16384;
        n += 1;
        let who = if r.p(15) { let q = id(0x31, 1); w.fund(q); q } else { admin() };
        let ok = w.ix(acc::EnableFeeAmount { owner: who, factory_state: factory(), fee_state: fk, system_program: solana_program::system_program::id() }, ins::EnableFeeAmount { fee, tick_spacing: sp }, &[]).is_ok();
        if ok && who != admin() { bad.push(("C17".into(), "enable_fee_amount by someone else than the owner".into())); }
        if ok && !good { bad.push(("C21".into(), format!("enable_fee_amount {} {} (exists {}) accepted", fee, sp, exists))); }
        if !w.a.contains_key(&fk) { continue; }
        let s: cyclos_core::states::fee::FeeState = w.zc(&fk);
        if ok && ({ s.fee } != fee || { s.tick_spacing } != sp) { bad.push(("C21".into(), format!("fee tier {} {} recorded as {} {}", fee, sp, { s.fee }, { s.tick_spacing }))); }
        let (a, b) = (ms[r.n(3) as usize], ms[r.n(3) as usize]);
        let price = match r.n(7) { 0 => tick_math::MIN_SQRT_RATIO, 1 => tick_math::MIN_SQRT_RATIO - 1, 2 => tick_math::MAX_SQRT_RATIO, 3 => tick_math::MAX_SQRT_RATIO - 1, 4 => 0, _ => { let b = 17 + r.n(45); (1u64 << b) + r.next() % (1u64 << b) } };
        let key = pda(&[POOL_SEED.as_bytes(), a.as_ref(), b.as_ref(), &fee.to_be_bytes()]);
        let p = Pool { key, t0: a, t1: b, fee, spacing: { s.tick_spacing }, v0: ata(&key, &a), v1: ata(&key, &b) };
        let was = w.a.contains_key(&key);
        n += 1;
        let ok = w.ix(acc::CreateAndInitPool { pool_creator: admin(), token_0: a, token_1: b, fee_state: fk, pool_state: key, initial_observation_state: p.obs(0), system_program: solana_program::system_program::id(), rent: solana_program::sysvar::rent::id() }, ins::CreateAndInitPool { sqrt_price_x32: price }, &[]).is_ok();
        let good = a < b && !was && price >= tick_math::MIN_SQRT_RATIO && price < tick_math::MAX_SQRT_RATIO;
        if ok && !good { bad.push(("C21".into(), format!("pool created: ordered {} existed {} price {}", a < b, was, price))); }
        if ok && good {
            let evs = EVENTS.with(|e| e.borrow().clone());
            let t: PoolState = w.zc(&key);
            let o: ObservationState = w.zc(&p.obs(0));
            let tk = tick_math::get_tick_at_sqrt_ratio(price).unwrap();
            let now = NOW.with(|x| x.get()) as u32;
            let fine = { t.token_0 } == a && { t.token_1 } == b && { t.fee } == fee && { t.tick_spacing } == p.spacing && { t.liquidity } == 0 && { t.sqrt_price_x32 } == price && { t.tick } == tk && { t.observation_index } == 0 && { t.observation_cardinality } == 1 && { t.observation_cardinality_next } == 1 && { t.fee_growth_global_0_x32 } == 0 && { t.fee_growth_global_1_x32 } == 0 && { t.protocol_fees_token_0 } == 0 && { t.protocol_fees_token_1 } == 0 && t.unlocked
                && t.bump == Pubkey::find_program_address(&[POOL_SEED.as_bytes(), a.as_ref(), b.as_ref(), &fee.to_be_bytes()], &PID).1;
            if !fine { bad.push(("C21".into(), format!("new pool at price {} has tick {} liquidity {} cardinality {}/{} spacing {}", price, { t.tick }, { t.liquidity }, { t.observation_cardinality }, { t.observation_cardinality_next }, { t.tick_spacing }))); }
            if { o.index } != 0 || { o.block_timestamp } != now || { o.tick_cumulative } != 0 || { o.seconds_per_liquidity_cumulative_x32 } != 0 || !o.initialized { bad.push(("C21 C19".into(), "first observation of a new pool".into())); }
            let want = vec![ev(&PoolCreatedAndInitialized { token_0: a, token_1: b, fee, tick_spacing: p.spacing, pool_state: key, sqrt_price_x32: price, tick: tk })];
            if evs != want { bad.push(("C24".into(), "event of a new pool".into())); }
        }
    }
    n
}
const FEE_SEED_: &str = cyclos_core::states::fee::FEE_SEED;

fn main() {
    if std::panic::catch_unwind(go).is_err() { println!("INTERNAL {}", LAST_PANIC.with(|l| l.borrow().clone())); std::process::exit(3); }
}
fn go() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(1);
    let hist: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let steps: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(100);
    let only = a.get(4).cloned();
    let secs: u64 = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(3600);
    let from: u64 = a.get(6).and_then(|x| x.parse().ok()).unwrap_or(0);
    let t0 = std::time::Instant::now();
    let all = std::env::var("VW_REFUSED").is_ok();
    let (mut ok, mut refused, mut rejected, mut made) = (0, 0, 0, 0);
    let mut found = 0;
    for h in from..hist {
        if t0.elapsed().as_secs() >= secs { break; }
        let s = seed.wrapping_mul(1_000_003).wrapping_add(h);
        if h % 4 == 0 {
            let mut bad = vec![];
            made += create_pools(s, &mut bad);
            for (t, m) in bad { if all || only.as_ref().map_or(true, |o| t.split(' ').any(|x| x == o)) { found += 1; println!("BAD {} | seed {} history {} | {}", t, seed, h, m); } }
        }
        let mut r = Run::new(s);
        for i in 0..steps {
            if t0.elapsed().as_secs() >= secs { break; }
            r.step();
            if !r.bad.is_empty() {
                let tail: Vec<String> = r.log.iter().rev().take(6).rev().cloned().collect();
                let mut shown = 0;
                for (t, m) in &r.bad {
                    if all || only.as_ref().map_or(true, |o| t.split(' ').any(|x| x == o)) { shown += 1; println!("BAD {} | seed {} history {} steps {} | {} | last calls: {}", t, seed, h, i + 1, m, tail.join("; ")); }
                }
                found += shown;
                break;
            }
        }
        ok += r.ok; refused += r.refused; rejected += r.rejected;
        if found >= 3 { break; }
    }
    println!("RAN {} accepted and compared, {} rejected as demanded, {} refused, {} creations", ok, rejected, refused, made);
}

/// what a foreign payment program adds to the amounts due
fn short(kind: u64) -> (i64, i64) { match kind { 2 => (-1, -1), 3 => (1, 1), 4 => (-1, 0), 5 => (0, -1), _ => (0, 0) } }
