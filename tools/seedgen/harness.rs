// Shared driver of the demonstrations: drives the public entry point natively, the way the
// runtime would, and reads the accounts back from their raw bytes.
#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
use asset_agnostic_orderbook as aob;
use aob::instruction as ix;
use aob::state::{AccountTag, SelfTradeBehavior, Side};
use bonfida_utils::BorshSize;
use borsh::{BorshDeserialize, BorshSerialize};
use solana_program::account_info::AccountInfo;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::convert::TryInto;
use std::rc::Rc;

#[derive(BorshDeserialize, BorshSerialize, Clone, Copy, Debug, PartialEq)]
pub struct Cb(pub [u8; 32]);
impl BorshSize for Cb {
    fn borsh_len(&self) -> usize {
        32
    }
}
pub fn cb(n: u8) -> Cb {
    Cb([n; 32])
}

// error codes, as published (order of the variants of AoError)
pub const WRONG_BIDS_ACCOUNT: u32 = 1;
pub const WRONG_ASKS_ACCOUNT: u32 = 2;
pub const WRONG_EVENT_QUEUE_ACCOUNT: u32 = 3;
pub const EVENT_QUEUE_FULL: u32 = 5;
pub const ORDER_NOT_FOUND: u32 = 6;
pub const WOULD_SELF_TRADE: u32 = 7;
pub const SLAB_OUT_OF_SPACE: u32 = 8;
pub const MARKET_STILL_ACTIVE: u32 = 11;
pub const WRONG_EVENT_QUEUE_OWNER: u32 = 13;
pub const WRONG_BIDS_OWNER: u32 = 14;
pub const WRONG_ASKS_OWNER: u32 = 15;
pub const WRONG_MARKET_OWNER: u32 = 16;
pub const INVALID_LIMIT_PRICE: u32 = 21;
pub const NUMERICAL_OVERFLOW: u32 = 22;
pub const ACCOUNT_TAG_MISMATCH: u32 = 24;

/// 16-byte aligned account storage
#[derive(Clone)]
pub struct Buf {
    v: Vec<u128>,
    len: usize,
}
impl Buf {
    pub fn new(len: usize) -> Self {
        Buf {
            v: vec![0; len / 16 + 2],
            len,
        }
    }
    // the node array starts 8 + 32 bytes in; keep the whole account 16-byte aligned
    pub fn get(&self) -> &[u8] {
        let p = self.v.as_ptr() as *const u8;
        unsafe { std::slice::from_raw_parts(p, self.len) }
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        let p = self.v.as_mut_ptr() as *mut u8;
        unsafe { std::slice::from_raw_parts_mut(p, self.len) }
    }
}

#[derive(Clone)]
pub struct Acc {
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Buf,
}

#[derive(Debug, PartialEq, Clone)]
pub enum Ev {
    Fill {
        taker_side: u8,
        maker: u128,
        base: u64,
        quote: u64,
        maker_cb: u8,
        taker_cb: u8,
    },
    Out {
        side: u8,
        id: u128,
        base: u64,
        cb: u8,
    },
}

#[derive(Debug, PartialEq, Clone)]
pub struct Sum {
    pub id: Option<u128>,
    pub base: u64,
    pub quote: u64,
    pub posted: u64,
}

#[derive(Debug, PartialEq, Clone)]
pub enum Fail {
    Err(ProgramError),
    Panic,
}
pub fn custom<T: std::fmt::Debug>(r: &Result<T, Fail>) -> Option<u32> {
    match r {
        Err(Fail::Err(ProgramError::Custom(c))) => Some(*c),
        _ => None,
    }
}

pub fn u64at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn u32at(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
pub fn u128at(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}
pub fn put64(d: &mut [u8], o: usize, v: u64) {
    d[o..o + 8].copy_from_slice(&v.to_le_bytes())
}

#[derive(Clone)]
pub struct World {
    pub accs: BTreeMap<Pubkey, Acc>,
    pub market: Pubkey,
    pub eq: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub register: Pubkey,
    pub target: Pubkey,
}

#[derive(Clone)]
pub struct Ord {
    pub side: Side,
    pub price: u64,
    pub base: u64,
    pub quote: u64,
    pub user: u8,
    pub limit: u64,
    pub post_only: bool,
    pub post: bool,
    pub stb: SelfTradeBehavior,
}
/// price in whole units, 32.32 fixed point
pub fn px(n: u64) -> u64 {
    n << 32
}
pub fn bid(price: u64, base: u64) -> Ord {
    Ord {
        side: Side::Bid,
        price,
        base,
        quote: u64::MAX >> 8,
        user: 1,
        limit: 1_000,
        post_only: false,
        post: true,
        stb: SelfTradeBehavior::DecrementTake,
    }
}
pub fn ask(price: u64, base: u64) -> Ord {
    Ord {
        side: Side::Ask,
        ..bid(price, base)
    }
}
impl Ord {
    pub fn user(mut self, u: u8) -> Self {
        self.user = u;
        self
    }
    pub fn quote(mut self, q: u64) -> Self {
        self.quote = q;
        self
    }
    pub fn limit(mut self, l: u64) -> Self {
        self.limit = l;
        self
    }
    pub fn stb(mut self, s: SelfTradeBehavior) -> Self {
        self.stb = s;
        self
    }
    pub fn ioc(mut self) -> Self {
        self.post = false;
        self
    }
    pub fn post_only(mut self) -> Self {
        self.post_only = true;
        self
    }
}

pub const EQ_HEAD: usize = 8 + 24;
pub const SLAB_HEAD: usize = 8 + 32;
pub fn eq_size(cap: usize) -> usize {
    EQ_HEAD + cap * (40 + 64)
}
pub fn slab_size(cap: usize) -> usize {
    SLAB_HEAD + 24 + 32 + (cap - 1) * (24 + 32 + 32)
}

impl World {
    /// a market with `orders` slots per side, `events` queue slots
    pub fn new(orders: usize, events: usize, min: u64, tick: u64) -> World {
        let mut w = World::blank(orders, events);
        let (m, e, b, a) = (w.market, w.eq, w.bids, w.asks);
        {
            let d = w.data_mut(&m);
            d[0] = AccountTag::Market as u8;
            d[8..40].copy_from_slice(e.as_ref());
            d[40..72].copy_from_slice(b.as_ref());
            d[72..104].copy_from_slice(a.as_ref());
            put64(d, 104, min);
            put64(d, 112, tick);
        }
        w.data_mut(&e)[0] = AccountTag::EventQueue as u8;
        w.data_mut(&b)[0] = AccountTag::Bids as u8;
        w.data_mut(&a)[0] = AccountTag::Asks as u8;
        w
    }
    pub fn blank(orders: usize, events: usize) -> World {
        let pid = aob::ID;
        let mut w = World {
            accs: BTreeMap::new(),
            market: Pubkey::new_unique(),
            eq: Pubkey::new_unique(),
            bids: Pubkey::new_unique(),
            asks: Pubkey::new_unique(),
            register: Pubkey::new_unique(),
            target: Pubkey::new_unique(),
        };
        let all = [
            (w.market, 120, 1_000_000_007),
            (w.eq, eq_size(events), 1_000_000_013),
            (w.bids, slab_size(orders), 1_000_000_017),
            (w.asks, slab_size(orders), 1_000_000_019),
            (w.register, 64, 1_000_000_021),
            (w.target, 0, 5),
        ];
        for (k, n, l) in all {
            w.accs.insert(
                k,
                Acc {
                    owner: pid,
                    lamports: l,
                    data: Buf::new(n),
                },
            );
        }
        w
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.accs[k].data.get()
    }
    pub fn data_mut(&mut self, k: &Pubkey) -> &mut [u8] {
        self.accs.get_mut(k).unwrap().data.get_mut()
    }
    /// run an instruction; a failing one changes nothing, as on chain, unless `keep` is set
    pub fn exec(&mut self, i: &Instruction, keep: bool) -> Result<(), Fail> {
        let before = self.accs.clone();
        let keys: Vec<Pubkey> = i.accounts.iter().map(|m| m.pubkey).collect();
        let res = {
            let mut cells = BTreeMap::new();
            for (k, a) in self.accs.iter_mut() {
                cells.insert(
                    *k,
                    (
                        *k,
                        a.owner,
                        Rc::new(RefCell::new(&mut a.lamports)),
                        Rc::new(RefCell::new(a.data.get_mut())),
                    ),
                );
            }
            let infos: Vec<AccountInfo> = i
                .accounts
                .iter()
                .map(|m| {
                    let (k, o, l, d) = &cells[&m.pubkey];
                    AccountInfo {
                        key: k,
                        lamports: l.clone(),
                        data: d.clone(),
                        owner: o,
                        rent_epoch: 0,
                        is_signer: m.is_signer,
                        is_writable: m.is_writable,
                        executable: false,
                    }
                })
                .collect();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                aob::entrypoint::process_instruction(&aob::ID, &infos, &i.data)
            }));
            match r {
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) => Err(Fail::Err(e)),
                Err(_) => Err(Fail::Panic),
            }
        };
        if res.is_err() && !keep {
            self.accs = before;
        }
        res
    }
    pub fn ix_order(&self, o: &Ord) -> Instruction {
        ix::new_order(
            ix::new_order::Accounts {
                market: &self.market,
                event_queue: &self.eq,
                bids: &self.bids,
                asks: &self.asks,
            },
            self.register,
            ix::new_order::Params {
                max_base_qty: o.base,
                max_quote_qty: o.quote,
                limit_price: o.price,
                side: o.side,
                match_limit: o.limit,
                callback_info: cb(o.user),
                post_only: o.post_only,
                post_allowed: o.post,
                self_trade_behavior: o.stb.clone(),
            },
        )
    }
    pub fn ix_cancel(&self, id: u128) -> Instruction {
        ix::cancel_order(
            ix::cancel_order::Accounts {
                market: &self.market,
                event_queue: &self.eq,
                bids: &self.bids,
                asks: &self.asks,
            },
            self.register,
            ix::cancel_order::Params { order_id: id },
        )
    }
    pub fn ix_mass(&self, ids: &[u128]) -> Instruction {
        // the instruction code is written here: this driver must not depend on the builder's
        let mut i = ix::mass_cancel_orders(
            ix::mass_cancel_orders::Accounts {
                market: &self.market,
                event_queue: &self.eq,
                bids: &self.bids,
                asks: &self.asks,
            },
            self.register,
            ix::mass_cancel_orders::Params {
                order_ids: ids.to_vec(),
            },
        );
        i.data[0] = 5;
        i
    }
    pub fn ix_consume(&self, n: u64) -> Instruction {
        ix::consume_events(
            ix::consume_events::Accounts {
                market: &self.market,
                event_queue: &self.eq,
            },
            self.register,
            ix::consume_events::Params {
                number_of_entries_to_consume: n,
            },
        )
    }
    pub fn ix_close(&self) -> Instruction {
        ix::close_market(
            ix::close_market::Accounts {
                market: &self.market,
                event_queue: &self.eq,
                bids: &self.bids,
                asks: &self.asks,
                lamports_target_account: &self.target,
            },
            self.register,
            ix::close_market::Params {},
        )
    }
    pub fn ix_create(&self, min: u64, tick: u64) -> Instruction {
        ix::create_market(
            ix::create_market::Accounts {
                market: &self.market,
                event_queue: &self.eq,
                bids: &self.bids,
                asks: &self.asks,
            },
            self.register,
            ix::create_market::Params {
                min_base_order_size: min,
                tick_size: tick,
            },
        )
    }
    /// the register holds Option<OrderSummary>
    pub fn register(&self) -> Option<Sum> {
        let d = self.data(&self.register);
        if d[0] == 0 {
            return None;
        }
        let (id, o) = if d[1] == 1 {
            (Some(u128at(d, 2)), 18)
        } else {
            (None, 2)
        };
        Some(Sum {
            id,
            base: u64at(d, o),
            quote: u64at(d, o + 8),
            posted: u64at(d, o + 16),
        })
    }
    pub fn order(&mut self, o: Ord) -> Result<Sum, Fail> {
        let i = self.ix_order(&o);
        self.exec(&i, false)?;
        Ok(self.register().expect("summary in the register"))
    }
    /// place a resting order, which must post in full; its id
    pub fn rest(&mut self, o: Ord) -> u128 {
        let b = o.base;
        let s = self.order(o).unwrap();
        assert_eq!(s.posted, b, "setup order did not post");
        s.id.unwrap()
    }
    pub fn cancel(&mut self, id: u128) -> Result<Sum, Fail> {
        let i = self.ix_cancel(id);
        self.exec(&i, false)?;
        Ok(self.register().expect("summary in the register"))
    }
    pub fn mass(&mut self, ids: &[u128]) -> Result<Sum, Fail> {
        let i = self.ix_mass(ids);
        self.exec(&i, false)?;
        Ok(self.register().expect("summary in the register"))
    }
    pub fn consume(&mut self, n: u64) -> Result<(), Fail> {
        let i = self.ix_consume(n);
        self.exec(&i, false)
    }
    pub fn close(&mut self) -> Result<(), Fail> {
        let i = self.ix_close();
        self.exec(&i, false)
    }
    /// pending events, oldest first, from the raw bytes
    pub fn events(&self) -> Vec<Ev> {
        let d = self.data(&self.eq);
        let cap = (d.len() - EQ_HEAD) / 104;
        let (head, count) = (u64at(d, 8) as usize, u64at(d, 16) as usize);
        (0..count)
            .map(|i| {
                let s = (head + i) % cap;
                let e = &d[EQ_HEAD + s * 40..EQ_HEAD + s * 40 + 40];
                let c = EQ_HEAD + cap * 40 + s * 64;
                if e[0] == 0 {
                    Ev::Fill {
                        taker_side: e[1],
                        quote: u64at(e, 8),
                        maker: u128at(e, 16),
                        base: u64at(e, 32),
                        maker_cb: d[c],
                        taker_cb: d[c + 32],
                    }
                } else {
                    Ev::Out {
                        side: e[1],
                        id: u128at(e, 16),
                        base: u64at(e, 32),
                        cb: d[c],
                    }
                }
            })
            .collect()
    }
    /// resting orders of a side in ascending key order: (id, base, user)
    pub fn book(&self, side: Side) -> Vec<(u128, u64, u8)> {
        let d = self.data(match side {
            Side::Bid => &self.bids,
            Side::Ask => &self.asks,
        });
        read_slab(d)
    }
}

pub fn read_slab(d: &[u8]) -> Vec<(u128, u64, u8)> {
    let cap = (d.len() - SLAB_HEAD - 56) / 88 + 1;
    let leaves = SLAB_HEAD;
    let inners = leaves + cap * 24;
    let cbs = inners + (cap - 1) * 32;
    let (root, n) = (u32at(d, 8 + 24), u32at(d, 8 + 28));
    let mut out = vec![];
    if n == 0 {
        return out;
    }
    let mut stack = vec![root];
    while let Some(h) = stack.pop() {
        if h >> 31 == 1 {
            let o = inners + (!h) as usize * 32;
            stack.push(u32at(d, o + 28));
            stack.push(u32at(d, o + 24));
        } else {
            let o = leaves + h as usize * 24;
            out.push((u128at(d, o), u64at(d, o + 16), d[cbs + h as usize * 32]));
        }
        assert!(out.len() <= n as usize, "more orders than counted");
    }
    assert_eq!(out.len(), n as usize, "fewer orders than counted");
    out
}
pub fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
/// Rent sysvar for market creation
pub struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() }
        0
    }
}
pub fn with_rent() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
}
