// A native stand-in for the Solana runtime: accounts, cross-program calls (token, system, associated
// token and this program itself), clock; a failing transaction leaves no trace.
#![allow(dead_code, unused_imports)]
use anchor_lang::prelude::*;
use anchor_lang::{InstructionData, ToAccountMetas};
use anchor_spl::associated_token::get_associated_token_address as ata;
use cyclos_core::states::{factory::*, fee::*, oracle::*, pool::*, position::*, tick::*, tick_bitmap::*, tokenized_position::*};
use cyclos_core::{accounts as acc, instruction as ins};
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, instruction::{AccountMeta, Instruction}, program_pack::Pack, program_stubs::{set_syscall_stubs, SyscallStubs}, system_program};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PID: Pubkey = cyclos_core::ID;
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Acct { pub lamports: u64, pub data: Vec<u8>, pub owner: Pubkey }

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    pub static NOW: Cell<i64> = Cell::new(1_000_000);
    pub static HANDLER: RefCell<Option<Box<dyn Fn(&Instruction, &[AccountInfo]) -> ProgramResult>>> = RefCell::new(None);
    /// a pool that was unlocked while another program was called
    pub static UNLOCKED: Cell<bool> = Cell::new(false);
    pub static TRACE: Cell<bool> = Cell::new(false);
    pub static LOGS: RefCell<Vec<String>> = RefCell::new(vec![]);
}
struct Stubs;
fn infos_for<'a>(ix: &Instruction, infos: &[AccountInfo<'a>], pdas: &[Pubkey]) -> std::result::Result<Vec<AccountInfo<'a>>, ProgramError> {
    let mut v = vec![];
    for m in &ix.accounts {
        let mut a = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?.clone();
        if m.is_signer && !infos.iter().any(|i| *i.key == m.pubkey && i.is_signer) && !pdas.contains(&m.pubkey) { return Err(ProgramError::MissingRequiredSignature); }
        a.is_signer = m.is_signer;
        a.is_writable = m.is_writable;
        v.push(a);
    }
    Ok(v)
}
fn create(a: &AccountInfo, space: usize, owner: Pubkey) {
    *a.data.borrow_mut() = Box::leak(vec![0u8; space].into_boxed_slice());
    unsafe { std::ptr::write_volatile(a.owner as *const Pubkey as *mut Pubkey, owner) };
}
fn lam(a: &AccountInfo, b: &AccountInfo, n: u64) -> ProgramResult {
    let x = a.lamports().checked_sub(n).ok_or(ProgramError::InsufficientFunds)?;
    **a.lamports.borrow_mut() = x;
    **b.lamports.borrow_mut() += n;
    Ok(())
}
impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if TRACE.with(|t| t.get()) { println!("  {}", m) }
        // anchor logs an event as the base64 text of its bytes
        if m.len() >= 12 { if let Ok(d) = anchor_lang::__private::base64::decode(m) { EVENTS.with(|e| e.borrow_mut().push(d)) } }
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::clock::Clock) = solana_program::clock::Clock { unix_timestamp: NOW.with(|n| n.get()), ..Default::default() } };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 { unsafe { *(p as *mut solana_program::rent::Rent) = Default::default() }; 0 }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        for i in infos {
            let d = i.data.borrow();
            if i.owner == &PID && d.len() == 8 + std::mem::size_of::<PoolState>() && d[..8] == <PoolState as anchor_lang::Discriminator>::discriminator() {
                let s: PoolState = unsafe { std::ptr::read_unaligned(d[8..].as_ptr() as *const PoolState) };
                if s.unlocked { UNLOCKED.with(|u| u.set(true)); }
            }
        }
        let pdas: Vec<Pubkey> = seeds.iter().map(|s| Pubkey::create_program_address(s, &PID).unwrap()).collect();
        let v = infos_for(ix, infos, &pdas)?;
        if ix.program_id == spl_token::id() { return spl_token::processor::Processor::process(&ix.program_id, &v, &ix.data); }
        if ix.program_id == PID { return cyclos_core::entry(&PID, &v, &ix.data); }
        if ix.program_id == system_program::id() {
            let d = &ix.data;
            let u = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
            match d[0] {
                0 => { if v[1].lamports() > 0 || !v[1].is_signer { return Err(ProgramError::AccountAlreadyInitialized); } lam(&v[0], &v[1], u(4))?; create(&v[1], u(12) as usize, Pubkey::new(&d[20..52])); }
                1 => { if !v[0].is_signer || v[0].owner != &system_program::id() { return Err(ProgramError::IllegalOwner); } let l = v[0].data_len(); create(&v[0], l, Pubkey::new(&d[4..36])); }
                2 => lam(&v[0], &v[1], u(4))?,
                8 => { if !v[0].is_signer || v[0].data_len() > 0 || v[0].owner != &system_program::id() { return Err(ProgramError::AccountAlreadyInitialized); } let o = *v[0].owner; create(&v[0], u(4) as usize, o); }
                _ => panic!("system instruction {}", d[0]),
            }
            return Ok(());
        }
        if ix.program_id == anchor_spl::associated_token::ID {
            if v[1].lamports() > 0 { return Err(ProgramError::AccountAlreadyInitialized); }
            lam(&v[0], &v[1], 2039280)?;
            create(&v[1], 165, spl_token::id());
            let t = spl_token::state::Account { mint: *v[3].key, owner: *v[2].key, amount: 0, state: spl_token::state::AccountState::Initialized, ..Default::default() };
            t.pack_into_slice(&mut v[1].data.borrow_mut());
            return Ok(());
        }
        HANDLER.with(|h| match &*h.borrow() { Some(f) => f(ix, &v), None => Err(ProgramError::IncorrectProgramId) })
    }
}
thread_local! { pub static EVENTS: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]); }

#[derive(Clone)]
pub struct World { pub a: BTreeMap<Pubkey, Acct>, pub n: u8 }
#[derive(Clone, Copy)]
pub struct Pool { pub key: Pubkey, pub t0: Pubkey, pub t1: Pubkey, pub fee: u32, pub spacing: u16, pub v0: Pubkey, pub v1: Pubkey }
pub fn id(tag: u8, n: u8) -> Pubkey { let mut b = [tag; 32]; b[1] = n; b[0] = 1; Pubkey::new_from_array(b) }
pub fn admin() -> Pubkey { id(0xAD, 0) }
pub fn factory() -> Pubkey { Pubkey::find_program_address(&[], &PID).0 }
pub fn pda(s: &[&[u8]]) -> Pubkey { Pubkey::find_program_address(s, &PID).0 }
impl Pool {
    pub fn tick(&self, t: i32) -> Pubkey { pda(&[TICK_SEED.as_bytes(), self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes(), &t.to_be_bytes()]) }
    pub fn bitmap(&self, w: i16) -> Pubkey { pda(&[BITMAP_SEED.as_bytes(), self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes(), &w.to_be_bytes()]) }
    pub fn word(&self, t: i32) -> i16 { ((t / self.spacing as i32) >> 8) as i16 }
    pub fn obs(&self, i: u16) -> Pubkey { pda(&[OBSERVATION_SEED.as_bytes(), self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes(), &i.to_be_bytes()]) }
    pub fn position(&self, who: &Pubkey, lo: i32, up: i32) -> Pubkey { pda(&[POSITION_SEED.as_bytes(), self.t0.as_ref(), self.t1.as_ref(), &self.fee.to_be_bytes(), who.as_ref(), &lo.to_be_bytes(), &up.to_be_bytes()]) }
}
type R = std::result::Result<(), String>;
impl World {
    pub fn new() -> World {
        std::panic::set_hook(Box::new(|i| { let m = i.to_string(); LAST_PANIC.with(|l| *l.borrow_mut() = m); }));
        set_syscall_stubs(Box::new(Stubs));
        let mut w = World { a: BTreeMap::new(), n: 0 };
        let native = solana_program::bpf_loader::id();
        for p in [PID, spl_token::id(), system_program::id(), anchor_spl::associated_token::ID] { w.a.insert(p, Acct { lamports: 1, data: vec![], owner: native }); }
        let mut rent = vec![0u8; 17];
        rent[..8].copy_from_slice(&3480u64.to_le_bytes());
        rent[8..16].copy_from_slice(&2f64.to_le_bytes());
        rent[16] = 50;
        w.a.insert(solana_program::sysvar::rent::id(), Acct { lamports: 1, data: rent, owner: solana_program::sysvar::id() });
        w.fund(admin());
        w.ix(acc::Initialize { owner: admin(), factory_state: factory(), system_program: system_program::id() }, ins::InitFactory {}, &[]).unwrap();
        w
    }
    pub fn fund(&mut self, k: Pubkey) { self.a.insert(k, Acct { lamports: 1 << 50, data: vec![], owner: system_program::id() }); }
    pub fn ix<A: ToAccountMetas, D: InstructionData>(&mut self, a: A, d: D, rest: &[(Pubkey, bool)]) -> R {
        let mut m = a.to_account_metas(None);
        for (k, s) in rest { m.push(AccountMeta { pubkey: *k, is_signer: *s, is_writable: true }); }
        self.run(m, &d.data())
    }
    /// one transaction with one instruction
    pub fn run(&mut self, metas: Vec<AccountMeta>, data: &[u8]) -> R {
        let mut made: BTreeMap<Pubkey, AccountInfo<'static>> = BTreeMap::new();
        let mut v: Vec<AccountInfo<'static>> = vec![];
        for m in &metas {
            let sg = metas.iter().any(|x| x.pubkey == m.pubkey && x.is_signer);
            let wr = metas.iter().any(|x| x.pubkey == m.pubkey && x.is_writable);
            let i = made.entry(m.pubkey).or_insert_with(|| {
                let a = self.a.get(&m.pubkey).cloned().unwrap_or_default();
                AccountInfo { key: Box::leak(Box::new(m.pubkey)), is_signer: sg, is_writable: wr, lamports: Rc::new(RefCell::new(Box::leak(Box::new(a.lamports)))),
                    data: Rc::new(RefCell::new(Box::leak(a.data.into_boxed_slice()))), owner: Box::leak(Box::new(a.owner)),
                    executable: [PID, spl_token::id(), system_program::id(), anchor_spl::associated_token::ID].contains(&m.pubkey), rent_epoch: 0 }
            });
            v.push(i.clone());
        }
        EVENTS.with(|e| e.borrow_mut().clear());
        let vv: &'static [AccountInfo<'static>] = Box::leak(v.into_boxed_slice());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cyclos_core::entry(&PID, vv, data)));
        match r {
            Ok(Ok(())) => {
                for (k, i) in made { if i.lamports() == 0 { self.a.remove(&k); continue; } self.a.insert(k, Acct { lamports: i.lamports(), data: i.data.borrow().to_vec(), owner: unsafe { std::ptr::read_volatile(i.owner) } }); }
                Ok(())
            }
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Err(p) => Err(format!("panic {:?}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())))),
        }
    }
    pub fn zc<T: Copy>(&self, k: &Pubkey) -> T { let d = &self.a.get(k).expect("account").data; unsafe { std::ptr::read_unaligned(d[8..8 + std::mem::size_of::<T>()].as_ptr() as *const T) } }
    pub fn set<T: Copy>(&mut self, k: &Pubkey, t: T) { let d = &mut self.a.get_mut(k).expect("account").data; unsafe { std::ptr::write_unaligned(d[8..8 + std::mem::size_of::<T>()].as_mut_ptr() as *mut T, t) } }
    pub fn mint(&mut self) -> Pubkey {
        self.n += 1;
        let k = id(0x70, self.n);
        let mut d = vec![0u8; 82];
        spl_token::state::Mint { mint_authority: Some(admin()).into(), supply: 1 << 60, decimals: 6, is_initialized: true, freeze_authority: None.into() }.pack_into_slice(&mut d);
        self.a.insert(k, Acct { lamports: 1 << 30, data: d, owner: spl_token::id() });
        k
    }
    pub fn token_at(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        let mut d = vec![0u8; 165];
        spl_token::state::Account { mint, owner, amount, state: spl_token::state::AccountState::Initialized, ..Default::default() }.pack_into_slice(&mut d);
        self.a.insert(k, Acct { lamports: 1 << 30, data: d, owner: spl_token::id() });
    }
    pub fn token(&mut self, mint: Pubkey, owner: Pubkey, amount: u64) -> Pubkey { self.n += 1; let k = id(0x71, self.n); self.token_at(k, mint, owner, amount); k }
    pub fn amount(&self, k: &Pubkey) -> u64 { spl_token::state::Account::unpack(&self.a[k].data).unwrap().amount }
    pub fn fee_tier(&mut self, fee: u32, spacing: u16) -> R {
        self.ix(acc::EnableFeeAmount { owner: admin(), factory_state: factory(), fee_state: pda(&[FEE_SEED.as_bytes(), &fee.to_be_bytes()]), system_program: system_program::id() }, ins::EnableFeeAmount { fee, tick_spacing: spacing }, &[])
    }
    pub fn pool(&mut self, fee: u32, spacing: u16, price: u64) -> Pool {
        let (t0, t1) = (self.mint(), self.mint());
        self.pool_of(t0, t1, fee, spacing, price)
    }
    pub fn pool_of(&mut self, t0: Pubkey, t1: Pubkey, fee: u32, spacing: u16, price: u64) -> Pool {
        let fk = pda(&[FEE_SEED.as_bytes(), &fee.to_be_bytes()]);
        if !self.a.contains_key(&fk) { self.fee_tier(fee, spacing).unwrap(); }
        let key = pda(&[POOL_SEED.as_bytes(), t0.as_ref(), t1.as_ref(), &fee.to_be_bytes()]);
        let p = Pool { key, t0, t1, fee, spacing, v0: ata(&key, &t0), v1: ata(&key, &t1) };
        self.ix(acc::CreateAndInitPool { pool_creator: admin(), token_0: t0, token_1: t1, fee_state: fk, pool_state: key, initial_observation_state: p.obs(0), system_program: system_program::id(), rent: solana_program::sysvar::rent::id() }, ins::CreateAndInitPool { sqrt_price_x32: price }, &[]).unwrap();
        self.token_at(p.v0, t0, key, 0);
        self.token_at(p.v1, t1, key, 0);
        p
    }
    pub fn init_tick(&mut self, p: &Pool, tick: i32) -> R {
        let b = p.bitmap(p.word(tick));
        if !self.a.contains_key(&b) { self.ix(acc::InitBitmapAccount { signer: admin(), pool_state: p.key, bitmap_state: b, system_program: system_program::id() }, ins::InitBitmapAccount { word_pos: p.word(tick) }, &[])?; }
        if self.a.contains_key(&p.tick(tick)) { return Ok(()); }
        self.ix(acc::InitTickAccount { signer: admin(), pool_state: p.key, tick_state: p.tick(tick), system_program: system_program::id() }, ins::InitTickAccount { tick }, &[])
    }
    pub fn init_position(&mut self, p: &Pool, who: Pubkey, lo: i32, up: i32) -> R {
        self.init_tick(p, lo)?;
        self.init_tick(p, up)?;
        let k = p.position(&who, lo, up);
        if self.a.contains_key(&k) { return Ok(()); }
        self.ix(acc::InitPositionAccount { signer: admin(), recipient: who, pool_state: p.key, tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up), position_state: k, system_program: system_program::id() }, ins::InitPositionAccount {}, &[])
    }
    pub fn last_obs(&self, p: &Pool) -> Pubkey { p.obs(self.zc::<PoolState>(&p.key).observation_index) }
    pub fn next_obs(&self, p: &Pool) -> Pubkey { let s: PoolState = self.zc(&p.key); p.obs((s.observation_index + 1) % s.observation_cardinality_next) }
    pub fn mint_accounts(&self, p: &Pool, who: Pubkey, a0: Pubkey, a1: Pubkey, recipient: Pubkey, lo: i32, up: i32) -> acc::MintContext {
        acc::MintContext { minter: who, token_account_0: a0, token_account_1: a1, vault_0: p.v0, vault_1: p.v1, recipient, pool_state: p.key, tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up),
            bitmap_lower_state: p.bitmap(p.word(lo)), bitmap_upper_state: p.bitmap(p.word(up)), position_state: p.position(&recipient, lo, up), last_observation_state: self.last_obs(p), token_program: spl_token::id(), callback_handler: PID }
    }
    pub fn add(&mut self, p: &Pool, who: Pubkey, a0: Pubkey, a1: Pubkey, lo: i32, up: i32, l: u64) -> R {
        self.init_position(p, who, lo, up)?;
        let (m, n) = (self.mint_accounts(p, who, a0, a1, who, lo, up), self.next_obs(p));
        self.ix(m, ins::Mint { amount: l }, &[(n, false)])
    }
    pub fn burn_accounts(&self, p: &Pool, who: Pubkey, lo: i32, up: i32) -> acc::BurnContext {
        acc::BurnContext { owner: who, pool_state: p.key, tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up), bitmap_lower_state: p.bitmap(p.word(lo)), bitmap_upper_state: p.bitmap(p.word(up)), position_state: p.position(&who, lo, up), last_observation_state: self.last_obs(p) }
    }
    pub fn burn(&mut self, p: &Pool, who: Pubkey, lo: i32, up: i32, l: u64) -> R {
        let (m, n) = (self.burn_accounts(p, who, lo, up), self.next_obs(p));
        let mut v = m.to_account_metas(None);
        v.push(AccountMeta { pubkey: n, is_signer: false, is_writable: true });
        for x in v.iter_mut() { x.is_writable = true; }
        self.run(v, &ins::Burn { amount: l }.data())
    }
    pub fn collect(&mut self, p: &Pool, who: Pubkey, a0: Pubkey, a1: Pubkey, lo: i32, up: i32, r0: u64, r1: u64) -> R {
        self.ix(acc::CollectContext { owner: who, pool_state: p.key, tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up), position_state: p.position(&who, lo, up), vault_0: p.v0, vault_1: p.v1, recipient_wallet_0: a0, recipient_wallet_1: a1, token_program: spl_token::id() }, ins::Collect { amount_0_requested: r0, amount_1_requested: r1 }, &[])
    }
    pub fn swap_accounts(&self, p: &Pool, who: Pubkey, a0: Pubkey, a1: Pubkey, zero_for_one: bool) -> acc::SwapContext {
        let (ia, oa, iv, ov) = if zero_for_one { (a0, a1, p.v0, p.v1) } else { (a1, a0, p.v1, p.v0) };
        acc::SwapContext { signer: who, input_token_account: ia, output_token_account: oa, input_vault: iv, output_vault: ov, token_program: spl_token::id(), factory_state: factory(), pool_state: p.key, last_observation_state: self.last_obs(p), callback_handler: PID }
    }
    /// swap; `path`: bitmap and tick accounts in the order the swap needs them
    pub fn swap(&mut self, p: &Pool, who: Pubkey, a0: Pubkey, a1: Pubkey, zero_for_one: bool, amount: i64, limit: u64, path: &[Pubkey]) -> R {
        let m = self.swap_accounts(p, who, a0, a1, zero_for_one);
        let mut r: Vec<(Pubkey, bool)> = path.iter().map(|k| (*k, false)).collect();
        r.push((self.next_obs(p), false));
        self.ix(m, ins::Swap { amount_specified: amount, sqrt_price_limit_x32: limit }, &r)
    }
    pub fn grow_ring(&mut self, p: &Pool, k: u16) -> R {
        let s: PoolState = self.zc(&p.key);
        let n0 = s.observation_cardinality_next;
        let (mut b, mut r) = (vec![], vec![]);
        for i in n0..n0 + k {
            let (kk, bump) = Pubkey::find_program_address(&[OBSERVATION_SEED.as_bytes(), p.t0.as_ref(), p.t1.as_ref(), &p.fee.to_be_bytes(), &i.to_be_bytes()], &PID);
            b.push(bump);
            r.push((kk, false));
        }
        let mut m = acc::IncreaseObservationCardinalityNext { payer: admin(), pool_state: p.key, system_program: system_program::id() }.to_account_metas(None);
        m[0].is_writable = true;
        for (k, s) in r { m.push(AccountMeta { pubkey: k, is_signer: s, is_writable: true }); }
        self.run(m, &ins::IncreaseObservationCardinalityNext { observation_account_bumps: b }.data())
    }
    /// position token: opens a position and returns (mint, token account)
    pub fn open(&mut self, p: &Pool, who: Pubkey, a0: Pubkey, a1: Pubkey, lo: i32, up: i32, d0: u64, d1: u64) -> std::result::Result<(Pubkey, Pubkey), String> {
        self.init_position(p, factory(), lo, up)?;
        self.n += 1;
        let m = id(0x72, self.n);
        let na = ata(&who, &m);
        let n = self.next_obs(p);
        let mut metas = acc::MintTokenizedPosition { minter: who, recipient: who, factory_state: factory(), nft_mint: m, nft_account: na, pool_state: p.key, core_position_state: p.position(&factory(), lo, up), tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up),
            bitmap_lower_state: p.bitmap(p.word(lo)), bitmap_upper_state: p.bitmap(p.word(up)), tokenized_position_state: pda(&[POSITION_SEED.as_bytes(), m.as_ref()]), token_account_0: a0, token_account_1: a1, vault_0: p.v0, vault_1: p.v1, last_observation_state: self.last_obs(p),
            rent: solana_program::sysvar::rent::id(), core_program: PID, system_program: system_program::id(), token_program: spl_token::id(), associated_token_program: anchor_spl::associated_token::ID }.to_account_metas(None);
        metas.push(AccountMeta { pubkey: n, is_signer: false, is_writable: true });
        self.run(metas, &ins::MintTokenizedPosition { amount_0_desired: d0, amount_1_desired: d1, amount_0_min: 0, amount_1_min: 0, deadline: i64::MAX }.data())?;
        Ok((m, na))
    }
    pub fn nft_state(&self, m: &Pubkey) -> Pubkey { pda(&[POSITION_SEED.as_bytes(), m.as_ref()]) }
    pub fn increase(&mut self, p: &Pool, who: Pubkey, m: Pubkey, a0: Pubkey, a1: Pubkey, lo: i32, up: i32, d0: u64, d1: u64) -> R {
        let n = self.next_obs(p);
        let a = acc::IncreaseLiquidity { payer: who, factory_state: factory(), tokenized_position_state: self.nft_state(&m), pool_state: p.key, core_position_state: p.position(&factory(), lo, up), tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up), bitmap_lower_state: p.bitmap(p.word(lo)), bitmap_upper_state: p.bitmap(p.word(up)),
            token_account_0: a0, token_account_1: a1, vault_0: p.v0, vault_1: p.v1, last_observation_state: self.last_obs(p), core_program: PID, token_program: spl_token::id() };
        self.ix(a, ins::IncreaseLiquidity { amount_0_desired: d0, amount_1_desired: d1, amount_0_min: 0, amount_1_min: 0, deadline: i64::MAX }, &[(n, false)])
    }
    pub fn decrease(&mut self, p: &Pool, who: Pubkey, nft: (Pubkey, Pubkey), lo: i32, up: i32, l: u64, m0: u64, m1: u64) -> R {
        let n = self.next_obs(p);
        let a = acc::DecreaseLiquidity { owner_or_delegate: who, nft_account: nft.1, tokenized_position_state: self.nft_state(&nft.0), factory_state: factory(), pool_state: p.key, core_position_state: p.position(&factory(), lo, up), tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up), bitmap_lower_state: p.bitmap(p.word(lo)), bitmap_upper_state: p.bitmap(p.word(up)),
            last_observation_state: self.last_obs(p), core_program: PID };
        self.ix(a, ins::DecreaseLiquidity { liquidity: l, amount_0_min: m0, amount_1_min: m1, deadline: i64::MAX }, &[(n, false)])
    }
    pub fn collect_nft(&mut self, p: &Pool, who: Pubkey, nft: (Pubkey, Pubkey), lo: i32, up: i32, w0: Pubkey, w1: Pubkey, x0: u64, x1: u64) -> R {
        let n = self.next_obs(p);
        let a = acc::CollectFromTokenized { owner_or_delegate: who, nft_account: nft.1, tokenized_position_state: self.nft_state(&nft.0), factory_state: factory(), pool_state: p.key, core_position_state: p.position(&factory(), lo, up), tick_lower_state: p.tick(lo), tick_upper_state: p.tick(up), bitmap_lower_state: p.bitmap(p.word(lo)), bitmap_upper_state: p.bitmap(p.word(up)),
            last_observation_state: self.last_obs(p), vault_0: p.v0, vault_1: p.v1, recipient_wallet_0: w0, recipient_wallet_1: w1, core_program: PID, token_program: spl_token::id() };
        self.ix(a, ins::CollectFromTokenized { amount_0_max: x0, amount_1_max: x1 }, &[(n, false)])
    }
    pub fn exact_single(&mut self, p: &Pool, who: Pubkey, a0: Pubkey, a1: Pubkey, zero_for_one: bool, amount: u64, min: u64, limit: u64, path: &[Pubkey]) -> R {
        let (ia, oa, iv, ov) = if zero_for_one { (a0, a1, p.v0, p.v1) } else { (a1, a0, p.v1, p.v0) };
        let a = acc::ExactInputSingle { signer: who, factory_state: factory(), pool_state: p.key, input_token_account: ia, output_token_account: oa, input_vault: iv, output_vault: ov, last_observation_state: self.last_obs(p), core_program: PID, token_program: spl_token::id() };
        let mut r: Vec<(Pubkey, bool)> = path.iter().map(|k| (*k, false)).collect();
        r.push((self.next_obs(p), false));
        self.ix(a, ins::ExactInputSingle { deadline: i64::MAX, amount_in: amount, amount_out_minimum: min, sqrt_price_limit_x32: limit }, &r)
    }
}
