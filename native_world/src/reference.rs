//! What each call must do to the accounts, as the properties state it (arithmetic kernels are the program's own
//! functions, which have contracts of their own).
use crate::world::*;
use anchor_lang::prelude::*;
use anchor_lang::Discriminator;
use cyclos_core::libraries::{full_math::MulDiv, liquidity_amounts, sqrt_price_math, swap_math, tick_math};
use cyclos_core::states::{factory::*, oracle::*, pool::*, position::*, tick::*, tick_bitmap::*, tokenized_position::*};
use solana_program::program_pack::Pack;

type E = &'static str;
pub fn ev<T: anchor_lang::Event>(e: &T) -> Vec<u8> { anchor_lang::Event::data(e) }
pub fn set_amount(x: &mut World, k: &Pubkey, n: u64) {
    let d = &mut x.a.get_mut(k).unwrap().data;
    let mut t = spl_token::state::Account::unpack(d).unwrap();
    t.amount = n;
    t.pack_into_slice(d);
}
pub fn pay(x: &mut World, from: &Pubkey, to: &Pubkey, n: i64) -> std::result::Result<(), E> {
    if n <= 0 { return if n == 0 { Ok(()) } else { Err("C13") }; }
    let a = x.amount(from).checked_sub(n as u64).ok_or("C13")?;
    set_amount(x, from, a);
    let b = x.amount(to).checked_add(n as u64).ok_or("C13")?;
    set_amount(x, to, b);
    Ok(())
}
pub fn credit(x: &mut World, k: &Pubkey, a: u64, b: u64) {
    let mut s: PositionState = x.zc(k);
    s.tokens_owed_0 = { s.tokens_owed_0 }.wrapping_add(a);
    s.tokens_owed_1 = { s.tokens_owed_1 }.wrapping_add(b);
    x.set(k, s);
}
/// fees of a position: floor(growth * liquidity / 2^32)
pub fn fee(growth: u64, last: u64, liquidity: u64) -> Option<u64> {
    let n = (growth.wrapping_sub(last) as u128 * liquidity as u128) >> 32;
    if n > u64::MAX as u128 { None } else { Some(n as u64) }
}
fn now() -> u32 { NOW.with(|n| n.get()) as u32 }
fn guarded<T>(f: impl FnOnce() -> T) -> std::result::Result<T, E> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "C13") }

fn advance(o: &ObservationState, t: u32, tick: i32, liquidity: u64) -> (i64, u64) {
    let d = t.wrapping_sub(o.block_timestamp);
    ({ o.tick_cumulative }.wrapping_add((tick as i64).wrapping_mul(d as i64)), { o.seconds_per_liquidity_cumulative_x32 }.wrapping_add(((d as u64) << 32) / liquidity.max(1)))
}
/// writes the observation of the present; returns whether the next slot was used
fn observe(x: &mut World, p: &Pool, s: &mut PoolState) -> bool {
    let t = now();
    let lk = p.obs(s.observation_index);
    let last: ObservationState = x.zc(&lk);
    let fresh = t / 14 > { last.block_timestamp } / 14;
    let k = if fresh { p.obs((s.observation_index + 1) % s.observation_cardinality_next) } else { lk };
    let mut o: ObservationState = x.zc(&k);
    if fresh || { last.block_timestamp } != t {
        let (tc, spl) = advance(&last, t, s.tick, s.liquidity);
        o.block_timestamp = t;
        o.tick_cumulative = tc;
        o.seconds_per_liquidity_cumulative_x32 = spl;
        o.initialized = true;
        if { s.observation_cardinality_next } > { s.observation_cardinality } && { o.index } == { s.observation_cardinality } - 1 { s.observation_cardinality = s.observation_cardinality_next; }
        x.set(&k, o);
    }
    s.observation_index = o.index;
    fresh
}
fn latest(x: &World, p: &Pool, s: &PoolState) -> (i64, u64) {
    let o: ObservationState = x.zc(&p.obs(s.observation_index));
    if { o.block_timestamp } == now() { ({ o.tick_cumulative }, { o.seconds_per_liquidity_cumulative_x32 }) } else { advance(&o, now(), s.tick, s.liquidity) }
}
fn flip(x: &mut World, p: &Pool, tick: i32) {
    let c = tick / p.spacing as i32;
    let k = p.bitmap((c >> 8) as i16);
    let mut b: TickBitmapState = x.zc(&k);
    let bit = c.rem_euclid(256) as usize;
    let mut w = b.word;
    w[bit / 64] ^= 1u64 << (bit % 64);
    b.word = w;
    x.set(&k, b);
}
fn add(a: u64, d: i64) -> Option<u64> { let v = a as i128 + d as i128; if v < 0 || v > u64::MAX as i128 { None } else { Some(v as u64) } }

/// liquidity of a position changes by `delta`; returns the token amounts (positive: owed to the pool)
pub fn modify(x: &mut World, p: &Pool, k: &Pubkey, lo: i32, up: i32, delta: i64, used: &mut bool) -> std::result::Result<(i64, i64), E> {
    if lo >= up { return Err("C21"); }
    let mut s: PoolState = x.zc(&p.key);
    if !s.unlocked { return Err("C14"); }
    let (tick, g0, g1) = ({ s.tick }, { s.fee_growth_global_0_x32 }, { s.fee_growth_global_1_x32 });
    let mut t: [TickState; 2] = [x.zc(&p.tick(lo)), x.zc(&p.tick(up))];
    let (tc, spl) = latest(x, p, &s);
    let mut flipped = [false; 2];
    if delta != 0 {
        for i in 0..2 {
            let at = [lo, up][i];
            let before = { t[i].liquidity_gross };
            let after = add(before, delta).ok_or("C20")?;
            if before == 0 && at <= tick {
                t[i].fee_growth_outside_0_x32 = g0;
                t[i].fee_growth_outside_1_x32 = g1;
                t[i].seconds_per_liquidity_outside_x32 = spl;
                t[i].tick_cumulative_outside = tc;
                t[i].seconds_outside = now();
            }
            t[i].liquidity_gross = after;
            t[i].liquidity_net = { t[i].liquidity_net }.checked_add(if i == 0 { delta } else { -delta }).ok_or("C20")?;
            flipped[i] = (before == 0) != (after == 0);
            if flipped[i] { flip(x, p, at); }
        }
    }
    let inside = |g: u64, a: u64, b: u64| {
        let below = if tick >= lo { a } else { g.wrapping_sub(a) };
        let above = if tick < up { b } else { g.wrapping_sub(b) };
        g.wrapping_sub(below).wrapping_sub(above)
    };
    let i0 = inside(g0, t[0].fee_growth_outside_0_x32, t[1].fee_growth_outside_0_x32);
    let i1 = inside(g1, t[0].fee_growth_outside_1_x32, t[1].fee_growth_outside_1_x32);
    let mut q: PositionState = x.zc(k);
    let l = { q.liquidity };
    if delta == 0 && l == 0 { return Err("C12"); }
    q.liquidity = add(l, delta).ok_or("C12")?;
    let f0 = fee(i0, q.fee_growth_inside_0_last_x32, l).ok_or("C12")?;
    let f1 = fee(i1, q.fee_growth_inside_1_last_x32, l).ok_or("C12")?;
    q.tokens_owed_0 = { q.tokens_owed_0 }.wrapping_add(f0);
    q.tokens_owed_1 = { q.tokens_owed_1 }.wrapping_add(f1);
    q.fee_growth_inside_0_last_x32 = i0;
    q.fee_growth_inside_1_last_x32 = i1;
    x.set(k, q);
    for i in 0..2 {
        let at = [lo, up][i];
        if delta < 0 && flipped[i] {
            let mut c = TickState::default();
            c.bump = t[i].bump;
            c.tick = at;
            t[i] = c;
        }
        x.set(&p.tick(at), t[i]);
    }
    let (mut a, mut b) = (0, 0);
    if delta != 0 {
        let (pl, pu, pr) = (tick_math::get_sqrt_ratio_at_tick(lo).unwrap(), tick_math::get_sqrt_ratio_at_tick(up).unwrap(), { s.sqrt_price_x32 });
        if tick < lo { a = guarded(|| sqrt_price_math::get_amount_0_delta_signed(pl, pu, delta))?; }
        else if tick < up {
            *used = observe(x, p, &mut s);
            a = guarded(|| sqrt_price_math::get_amount_0_delta_signed(pr, pu, delta))?;
            b = guarded(|| sqrt_price_math::get_amount_1_delta_signed(pl, pr, delta))?;
            s.liquidity = add(s.liquidity, delta).ok_or("C20")?;
        } else { b = guarded(|| sqrt_price_math::get_amount_1_delta_signed(pl, pu, delta))?; }
    }
    x.set(&p.key, s);
    Ok((a, b))
}
pub fn collect(x: &mut World, p: &Pool, k: &Pubkey, w0: &Pubkey, w1: &Pubkey, r0: u64, r1: u64) -> std::result::Result<(u64, u64), E> {
    let s: PoolState = x.zc(&p.key);
    if !s.unlocked { return Err("C14"); }
    let mut q: PositionState = x.zc(k);
    let (n0, n1) = (r0.min(q.tokens_owed_0), r1.min(q.tokens_owed_1));
    q.tokens_owed_0 -= n0;
    q.tokens_owed_1 -= n1;
    x.set(k, q);
    if n0 > i64::MAX as u64 || n1 > i64::MAX as u64 { return Err("C13"); }
    pay(x, &p.v0, w0, n0 as i64)?;
    pay(x, &p.v1, w1, n1 as i64)?;
    Ok((n0, n1))
}
pub fn add_liquidity(x: &mut World, p: &Pool, lo: i32, up: i32, d0: u64, d1: u64, a0: &Pubkey, a1: &Pubkey, used: &mut bool) -> std::result::Result<(u64, u64, u64), E> {
    let s: PoolState = x.zc(&p.key);
    let (pl, pu) = (tick_math::get_sqrt_ratio_at_tick(lo).map_err(|_| "C21")?, tick_math::get_sqrt_ratio_at_tick(up).map_err(|_| "C21")?);
    let l = guarded(|| liquidity_amounts::get_liquidity_for_amounts({ s.sqrt_price_x32 }, pl, pu, d0, d1))?;
    if l == 0 || l > i64::MAX as u64 { return Err("C12 C13"); }
    let (q0, q1) = modify(x, p, &p.position(&factory(), lo, up), lo, up, l as i64, used)?;
    pay(x, a0, &p.v0, q0)?;
    pay(x, a1, &p.v1, q1)?;
    if q0 as u64 > d0 || q1 as u64 > d1 { return Err("C16 C07"); }
    Ok((l, q0 as u64, q1 as u64))
}
pub struct Out { pub amount_0: i64, pub amount_1: i64, pub price: u64, pub liquidity: u64, pub tick: i32 }

/// `path` receives the bitmap, tick and observation accounts in the order the swap needs them
pub fn swap(x: &mut World, p: &Pool, z: bool, amount: i64, limit: u64, path: &mut Vec<Pubkey>) -> std::result::Result<Out, E> {
    let mut s: PoolState = x.zc(&p.key);
    if !s.unlocked { return Err("C14"); }
    if amount == 0 { return Err("C15"); }
    let pr0 = { s.sqrt_price_x32 };
    if z { if limit >= pr0 || limit <= tick_math::MIN_SQRT_RATIO { return Err("C15"); } } else if limit <= pr0 || limit >= tick_math::MAX_SQRT_RATIO { return Err("C15"); }
    let f: FactoryState = x.zc(&factory());
    let sp = p.spacing as i32;
    let (tc, spl) = latest(x, p, &s);
    let t0 = now();
    let (mut left, mut calc) = (amount as i128, 0i128);
    let (mut price, mut tick, mut liq) = (pr0, { s.tick }, { s.liquidity });
    let mut growth = if z { s.fee_growth_global_0_x32 } else { s.fee_growth_global_1_x32 };
    let mut protocol = 0u64;
    let mut cached: Option<(i32, [u64; 4])> = None;
    let mut rounds = 0;
    while left != 0 && price != limit {
        rounds += 1;
        if rounds > 200 { return Err("C15"); }
        let start = price;
        let c = tick.div_euclid(sp) + if z { 0 } else { 1 };
        let (word, bit) = (c >> 8, c.rem_euclid(256));
        if cached.map_or(true, |q| q.0 != word) {
            let k = p.bitmap(word as i16);
            path.push(k);
            cached = x.a.get(&k).map(|_| { let b: TickBitmapState = x.zc(&k); (word, b.word) });
        }
        let mut next = if z { 0 } else { 255 };
        let mut init = false;
        if let Some((_, w)) = cached {
            let set = |i: i32| w[i as usize / 64] >> (i as usize % 64) & 1 == 1;
            let found = if z { (0..=bit).rev().find(|i| set(*i)) } else { (bit..256).find(|i| set(*i)) };
            if let Some(i) = found { next = i; init = true; }
        }
        let tn = ((word * 256 + next) * sp).max(tick_math::MIN_TICK).min(tick_math::MAX_TICK);
        let pn = tick_math::get_sqrt_ratio_at_tick(tn).map_err(|_| "C15")?;
        let target = if z { pn.max(limit) } else { pn.min(limit) };
        let st = guarded(|| swap_math::compute_swap_step(price, target, liq, left as i64, p.fee))?;
        price = st.sqrt_ratio_next_x32;
        let paid = st.amount_in as i128 + st.fee_amount as i128;
        if amount > 0 { left -= paid; calc -= st.amount_out as i128; } else { left += st.amount_out as i128; calc += paid; }
        if paid > i64::MAX as i128 || calc.abs() > i64::MAX as i128 || left.abs() > i64::MAX as i128 { return Err("C15"); }
        let mut fee_amount = st.fee_amount;
        if f.fee_protocol > 0 { let d = fee_amount / f.fee_protocol as u64; fee_amount -= d; protocol = protocol.wrapping_add(d); }
        if liq > 0 { growth = growth.wrapping_add(((fee_amount as u128) << 32).checked_div(liq as u128).filter(|v| *v <= u64::MAX as u128).ok_or("C22")? as u64); }
        if price == pn {
            if init {
                let k = p.tick(tn);
                path.push(k);
                let mut t: TickState = x.zc(&k);
                let (g0, g1) = if z { (growth, { s.fee_growth_global_1_x32 }) } else { ({ s.fee_growth_global_0_x32 }, growth) };
                t.fee_growth_outside_0_x32 = g0.wrapping_sub(t.fee_growth_outside_0_x32);
                t.fee_growth_outside_1_x32 = g1.wrapping_sub(t.fee_growth_outside_1_x32);
                t.seconds_per_liquidity_outside_x32 = spl.wrapping_sub(t.seconds_per_liquidity_outside_x32);
                t.tick_cumulative_outside = tc.wrapping_sub(t.tick_cumulative_outside);
                t.seconds_outside = t0.wrapping_sub(t.seconds_outside);
                let net = { t.liquidity_net };
                x.set(&k, t);
                liq = add(liq, if z { -net } else { net }).ok_or("C20")?;
            }
            tick = if z { tn - 1 } else { tn };
        } else if price != start { tick = tick_math::get_tick_at_sqrt_ratio(price).map_err(|_| "C15")?; }
    }
    if tick != { s.tick } {
        let fresh = observe(x, p, &mut s);
        if fresh { path.push(p.obs(s.observation_index)); }
    }
    s.tick = tick;
    s.sqrt_price_x32 = price;
    s.liquidity = liq;
    if z { s.fee_growth_global_0_x32 = growth; s.protocol_fees_token_0 = { s.protocol_fees_token_0 }.wrapping_add(protocol); }
    else { s.fee_growth_global_1_x32 = growth; s.protocol_fees_token_1 = { s.protocol_fees_token_1 }.wrapping_add(protocol); }
    x.set(&p.key, s);
    let spec = amount as i128 - left;
    let (a, b) = if z == (amount > 0) { (spec, calc) } else { (calc, spec) };
    Ok(Out { amount_0: a as i64, amount_1: b as i64, price, liquidity: liq, tick })
}

macro_rules! cmp { ($o:expr, $w:expr, $g:expr, $($f:ident : $t:expr),*) => { $( if { $w.$f } != { $g.$f } { $o.push(($t.to_string(), format!("{} is {:?}, must be {:?}", stringify!($f), { $g.$f }, { $w.$f }))); } )* } }

pub fn differences(want: &World, got: &World) -> Vec<(String, String)> {
    let mut o: Vec<(String, String)> = vec![];
    for k in want.a.keys().chain(got.a.keys()).collect::<std::collections::BTreeSet<_>>() {
        let (w, g) = match (want.a.get(k), got.a.get(k)) {
            (Some(w), Some(g)) => (w, g),
            (None, Some(g)) if g.data.is_empty() => continue,
            (None, Some(_)) => { o.push(("C20 C21".into(), format!("account {} appeared", k))); continue }
            (Some(_), None) => { o.push(("C20 C21".into(), format!("account {} is missing", k))); continue }
            _ => continue,
        };
        if w.data == g.data && w.owner == g.owner { continue; }
        if w.owner != g.owner || w.data.len() != g.data.len() { o.push(("C21".into(), format!("account {} has owner {} and {} bytes", k, g.owner, g.data.len()))); continue; }
        if w.owner == spl_token::id() {
            match (spl_token::state::Account::unpack(&w.data), spl_token::state::Account::unpack(&g.data)) {
                (Ok(a), Ok(b)) => { o.push(("C13 C15 C16".into(), format!("token account {} (mint {}, owner {}) holds {}, must hold {}", k, b.mint, b.owner, b.amount, a.amount))); }
                _ => o.push(("C18".into(), format!("mint {} differs", k))),
            }
            continue;
        }
        if w.data.len() < 8 || w.data[..8] != g.data[..8] { o.push(("C21".into(), format!("account {} changed its kind", k))); continue; }
        let d = &w.data[..8];
        let n = o.len();
        if d == PoolState::discriminator() {
            let (a, b): (PoolState, PoolState) = (want.zc(k), got.zc(k));
            cmp!(o, a, b, bump: "C21", token_0: "C21", token_1: "C21", fee: "C21", tick_spacing: "C21", liquidity: "C20 C15", sqrt_price_x32: "C15", tick: "C15", observation_index: "C19", observation_cardinality: "C19", observation_cardinality_next: "C19",
                fee_growth_global_0_x32: "C22", fee_growth_global_1_x32: "C22", protocol_fees_token_0: "C22 C13", protocol_fees_token_1: "C22 C13", unlocked: "C14");
        } else if d == TickState::discriminator() {
            let (a, b): (TickState, TickState) = (want.zc(k), got.zc(k));
            cmp!(o, a, b, bump: "C21", tick: "C21", liquidity_net: "C20", liquidity_gross: "C20", fee_growth_outside_0_x32: "C11 C20", fee_growth_outside_1_x32: "C11 C20", tick_cumulative_outside: "C20", seconds_per_liquidity_outside_x32: "C20", seconds_outside: "C20");
        } else if d == PositionState::discriminator() {
            let (a, b): (PositionState, PositionState) = (want.zc(k), got.zc(k));
            cmp!(o, a, b, bump: "C21", liquidity: "C12", fee_growth_inside_0_last_x32: "C12 C11", fee_growth_inside_1_last_x32: "C12 C11", tokens_owed_0: "C12 C13", tokens_owed_1: "C12 C13");
        } else if d == TokenizedPositionState::discriminator() {
            let (a, b): (TokenizedPositionState, TokenizedPositionState) = (want.zc(k), got.zc(k));
            cmp!(o, a, b, bump: "C18", mint: "C18", pool_id: "C18", tick_lower: "C18", tick_upper: "C18", liquidity: "C18", fee_growth_inside_0_last_x32: "C18", fee_growth_inside_1_last_x32: "C18", tokens_owed_0: "C18", tokens_owed_1: "C18");
        } else if d == ObservationState::discriminator() {
            let (a, b): (ObservationState, ObservationState) = (want.zc(k), got.zc(k));
            cmp!(o, a, b, bump: "C19", index: "C19", block_timestamp: "C19", tick_cumulative: "C19", seconds_per_liquidity_cumulative_x32: "C19", initialized: "C19");
        } else if d == TickBitmapState::discriminator() {
            o.push(("C20".into(), format!("bitmap word {} differs", k)));
        } else if d == FactoryState::discriminator() {
            let (a, b): (FactoryState, FactoryState) = (want.zc(k), got.zc(k));
            cmp!(o, a, b, bump: "C21", owner: "C17", fee_protocol: "C22 C17");
        }
        if o.len() == n { o.push(("C20 C21".into(), format!("account {} differs", k))); }
    }
    o
}
