//! Runs the repository's functions natively: one request per line on stdin, one answer per line on stdout.
use cyclos_core::libraries::big_num::{U128, U256};
use cyclos_core::libraries::full_math::MulDiv;
use cyclos_core::libraries::unsafe_math::UnsafeMathTrait;
use cyclos_core::libraries::*;
use cyclos_core::states::oracle::ObservationState;
use cyclos_core::states::pool::PoolState;
use cyclos_core::states::position::PositionState;
use cyclos_core::states::tick::{self, TickState};
use cyclos_core::states::tick_bitmap::{self, TickBitmapState};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static NOW: std::cell::Cell<i64> = std::cell::Cell::new(0); }
struct Clock;
impl anchor_lang::solana_program::program_stubs::SyscallStubs for Clock {
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut anchor_lang::solana_program::clock::Clock) = anchor_lang::solana_program::clock::Clock { unix_timestamp: NOW.with(|n| n.get()), ..Default::default() } };
        0
    }
}

pub struct In<'a>(pub std::str::SplitWhitespace<'a>);
impl<'a> In<'a> {
    fn s(&mut self) -> &'a str { self.0.next().expect("missing argument") }
    fn g<T: std::str::FromStr>(&mut self) -> T { let s = self.s(); s.parse().ok().unwrap_or_else(|| panic!("bad argument {}", s)) }
    fn u64(&mut self) -> u64 { self.g() }
    fn u128(&mut self) -> U128 { U128::from_dec_str(self.s()).unwrap() }
    fn u256(&mut self) -> U256 { U256::from_dec_str(self.s()).unwrap() }
    fn bool(&mut self) -> bool { self.s() != "0" }
    fn tick(&mut self) -> TickState {
        TickState { bump: self.g(), tick: self.g(), liquidity_net: self.g(), liquidity_gross: self.g(), fee_growth_outside_0_x32: self.g(), fee_growth_outside_1_x32: self.g(),
            tick_cumulative_outside: self.g(), seconds_per_liquidity_outside_x32: self.g(), seconds_outside: self.g(), ..Default::default() }
    }
    fn obs(&mut self) -> ObservationState {
        ObservationState { bump: self.g(), index: self.g(), block_timestamp: self.g(), tick_cumulative: self.g(), seconds_per_liquidity_cumulative_x32: self.g(), initialized: self.bool(), ..Default::default() }
    }
    fn position(&mut self) -> PositionState {
        PositionState { bump: self.g(), liquidity: self.g(), fee_growth_inside_0_last_x32: self.g(), fee_growth_inside_1_last_x32: self.g(), tokens_owed_0: self.g(), tokens_owed_1: self.g(), ..Default::default() }
    }
    fn bitmap(&mut self) -> TickBitmapState {
        TickBitmapState { bump: self.g(), word_pos: self.g(), word: [self.g(), self.g(), self.g(), self.g()], ..Default::default() }
    }
    fn pool(&mut self) -> PoolState {
        PoolState { bump: self.g(), fee: self.g(), tick_spacing: self.g(), liquidity: self.g(), sqrt_price_x32: self.g(), tick: self.g(), observation_index: self.g(),
            observation_cardinality: self.g(), observation_cardinality_next: self.g(), fee_growth_global_0_x32: self.g(), fee_growth_global_1_x32: self.g(),
            protocol_fees_token_0: self.g(), protocol_fees_token_1: self.g(), unlocked: self.bool(), ..Default::default() }
    }
}

macro_rules! show { ($o:expr, $($x:expr),*) => {{ $( { let v = $x; $o.push_str(&format!(" {}", v)); } )* }} }
fn b(x: bool) -> u8 { x as u8 }
fn show_tick(o: &mut String, t: &TickState) {
    show!(o, t.bump, {t.tick}, {t.liquidity_net}, {t.liquidity_gross}, {t.fee_growth_outside_0_x32}, {t.fee_growth_outside_1_x32}, {t.tick_cumulative_outside}, {t.seconds_per_liquidity_outside_x32}, {t.seconds_outside});
}
fn show_obs(o: &mut String, t: &ObservationState) {
    show!(o, t.bump, {t.index}, {t.block_timestamp}, {t.tick_cumulative}, {t.seconds_per_liquidity_cumulative_x32}, b(t.initialized));
}
fn show_pos(o: &mut String, t: &PositionState) {
    show!(o, t.bump, {t.liquidity}, {t.fee_growth_inside_0_last_x32}, {t.fee_growth_inside_1_last_x32}, {t.tokens_owed_0}, {t.tokens_owed_1});
}
fn show_bm(o: &mut String, t: &TickBitmapState) {
    let w = t.word;
    show!(o, t.bump, {t.word_pos}, w[0], w[1], w[2], w[3]);
}
fn res<T: std::fmt::Display, E>(r: Result<T, E>) -> String { match r { Ok(v) => format!("ok {}", v), Err(_) => "err".into() } }
fn opt<T: std::fmt::Display>(r: Option<T>) -> String { match r { Some(v) => format!("ok {}", v), None => "err".into() } }

fn lib_op(op: &str, i: &mut In) -> Option<String> {
    Some(match op {
        "mdf64" => opt(i.u64().mul_div_floor(i.u64(), i.u64())),
        "mdc64" => opt(i.u64().mul_div_ceil(i.u64(), i.u64())),
        "mdf128" => opt(i.u128().mul_div_floor(i.u128(), i.u128())),
        "mdc128" => opt(i.u128().mul_div_ceil(i.u128(), i.u128())),
        "du64" => format!("ok {}", u64::div_rounding_up(i.u64(), i.u64())),
        "du128" => format!("ok {}", U128::div_rounding_up(i.u128(), i.u128())),
        "add_delta" => res(liquidity_math::add_delta(i.g(), i.g())),
        "amount0" => format!("ok {}", sqrt_price_math::get_amount_0_delta_unsigned(i.g(), i.g(), i.g(), i.bool())),
        "amount1" => format!("ok {}", sqrt_price_math::get_amount_1_delta_unsigned(i.g(), i.g(), i.g(), i.bool())),
        "amount0s" => format!("ok {}", sqrt_price_math::get_amount_0_delta_signed(i.g(), i.g(), i.g())),
        "amount1s" => format!("ok {}", sqrt_price_math::get_amount_1_delta_signed(i.g(), i.g(), i.g())),
        "next0" => format!("ok {}", sqrt_price_math::get_next_sqrt_price_from_amount_0_rounding_up(i.g(), i.g(), i.g(), i.bool())),
        "next1" => format!("ok {}", sqrt_price_math::get_next_sqrt_price_from_amount_1_rounding_down(i.g(), i.g(), i.g(), i.bool())),
        "next_in" => format!("ok {}", sqrt_price_math::get_next_sqrt_price_from_input(i.g(), i.g(), i.g(), i.bool())),
        "next_out" => format!("ok {}", sqrt_price_math::get_next_sqrt_price_from_output(i.g(), i.g(), i.g(), i.bool())),
        "swap_step" => {
            let s = swap_math::compute_swap_step(i.g(), i.g(), i.g(), i.g(), i.g());
            format!("ok {} {} {} {}", s.sqrt_ratio_next_x32, s.amount_in, s.amount_out, s.fee_amount)
        }
        "liq0" => format!("ok {}", liquidity_amounts::get_liquidity_for_amount_0(i.g(), i.g(), i.g())),
        "liq1" => format!("ok {}", liquidity_amounts::get_liquidity_for_amount_1(i.g(), i.g(), i.g())),
        "liq_for_amounts" => format!("ok {}", liquidity_amounts::get_liquidity_for_amounts(i.g(), i.g(), i.g(), i.g(), i.g())),
        "amtliq0" => format!("ok {}", liquidity_amounts::get_amount_0_for_liquidity(i.g(), i.g(), i.g())),
        "amtliq1" => format!("ok {}", liquidity_amounts::get_amount_1_for_liquidity(i.g(), i.g(), i.g())),
        "amtsliq" => { let (x, y) = liquidity_amounts::get_amounts_for_liquidity(i.g(), i.g(), i.g(), i.g()); format!("ok {} {}", x, y) }
        "ratio_at_tick" => res(tick_math::get_sqrt_ratio_at_tick(i.g())),
        "tick_at_ratio" => res(tick_math::get_tick_at_sqrt_ratio(i.g())),
        "msb" => format!("ok {}", bit_math::most_significant_bit(i.u256())),
        "lsb" => format!("ok {}", bit_math::least_significant_bit(i.u256())),
        "flip" => { let mut t = i.bitmap(); t.flip_bit(i.g()); let mut o = "ok".to_string(); show_bm(&mut o, &t); o }
        "nextbit" => { let t = i.bitmap(); let r = t.next_initialized_bit(i.g(), i.bool()); format!("ok {} {}", r.next, b(r.initialized)) }
        "bitpos" => { let p = tick_bitmap::position(i.g()); format!("ok {} {}", p.word_pos, p.bit_pos) }
        "tick_update" => {
            let mut t = i.tick();
            let r = t.update(i.g(), i.g(), i.g(), i.g(), i.g(), i.g(), i.g(), i.bool(), i.g());
            let mut o = res(r.map(b));
            show_tick(&mut o, &t);
            o
        }
        "tick_cross" => { let mut t = i.tick(); let n = t.cross(i.g(), i.g(), i.g(), i.g(), i.g()); let mut o = format!("ok {}", n); show_tick(&mut o, &t); o }
        "tick_clear" => { let mut t = i.tick(); t.clear(); let mut o = "ok".to_string(); show_tick(&mut o, &t); o }
        "tick_is_clear" => format!("ok {}", b(i.tick().is_clear())),
        "fee_inside" => { let (l, u) = (i.tick(), i.tick()); let (x, y) = tick::get_fee_growth_inside(&l, &u, i.g(), i.g(), i.g()); format!("ok {} {}", x, y) }
        "position_update" => { let mut p = i.position(); let r = p.update(i.g(), i.g(), i.g()); let mut o = match r { Ok(_) => "ok".to_string(), Err(_) => "err".into() }; show_pos(&mut o, &p); o }
        "obs_transform" => { let p = i.obs().transform(i.g(), i.g(), i.g()); let mut o = "ok".to_string(); show_obs(&mut o, &p); o }
        "obs_update" => { let mut p = i.obs(); let c = p.update(i.g(), i.g(), i.g(), i.g(), i.g()); let mut o = format!("ok {}", c); show_obs(&mut o, &p); o }
        "obs_latest" => { let (x, y) = i.obs().observe_latest(i.g(), i.g(), i.g()); format!("ok {} {}", x, y) }
        "snapshot" => { // the clock is the last record's time, moved by an amount the pool's bump gives
            let (p, l, u, o) = (i.pool(), i.tick(), i.tick(), i.obs());
            NOW.with(|n| n.set(o.block_timestamp as i64 + (p.bump % 4) as i64 * 7));
            let x = p.snapshot_cumulatives_inside(&l, &u, &o);
            format!("ok {} {} {}", x.tick_cumulative_inside, x.seconds_per_liquidity_inside_x32, x.seconds_inside)
        }
        "next_obs" => format!("ok {}", i.pool().next_observation_index()),
        "ratio_table" => { // every tick of a range
            let (lo, hi): (i32, i32) = (i.g(), i.g());
            let mut o = "ok".to_string();
            for t in lo..=hi { o.push_str(&match tick_math::get_sqrt_ratio_at_tick(t) { Ok(v) => format!(" {}", v), Err(_) => " -1".into() }); }
            o
        }
        "tick_table" => { // for every tick t of a range: is the inverse t at ratio(t), and t - 1 just below?
            let (lo, hi): (i32, i32) = (i.g(), i.g());
            let mut o = "ok".to_string();
            for t in lo..=hi {
                let p = match tick_math::get_sqrt_ratio_at_tick(t) { Ok(v) => v, Err(_) => { o.push_str(&format!(" {}", t)); continue } };
                let a = catch_unwind(|| tick_math::get_tick_at_sqrt_ratio(p).ok()).unwrap_or(None);
                let c = catch_unwind(|| tick_math::get_tick_at_sqrt_ratio(p - 1).ok()).unwrap_or(None);
                let want_a = if t == tick_math::MAX_TICK { None } else { Some(t) };
                let want_c = if t == tick_math::MIN_TICK { None } else { Some(t - 1) };
                if a != want_a || c != want_c { o.push_str(&format!(" {}", t)); }
            }
            o
        }
        _ => return None,
    })
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    anchor_lang::solana_program::program_stubs::set_syscall_stubs(Box::new(Clock));
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut i = In(line.split_whitespace());
        let op = match i.0.next() { Some(x) => x, None => continue };
        let r = catch_unwind(AssertUnwindSafe(|| lib_op(op, &mut i)));
        let s = match r { Ok(Some(s)) => s, Ok(None) => "unknown-op".to_string(), Err(_) => "panic".to_string() };
        writeln!(out, "{}", s).unwrap();
    }
    out.flush().unwrap();
}
