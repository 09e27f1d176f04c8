#![allow(dead_code)]
// A book in the layout the WebAssembly reader expects.
pub const CB: usize = 8;
pub const SLOT: usize = 33 + 8;

pub struct Book {
    pub data: Vec<u8>,
}

fn node(data: &mut [u8], k: usize) -> &mut [u8] {
    &mut data[65 + k * SLOT..65 + (k + 1) * SLOT]
}

fn build(data: &mut [u8], orders: &[(u128, u64)], next: &mut u32) -> u32 {
    let k = *next;
    *next += 1;
    if orders.len() == 1 {
        let n = node(data, k as usize);
        n[0] = 2;
        n[1..17].copy_from_slice(&orders[0].0.to_le_bytes());
        n[17..17 + CB].copy_from_slice(&[k as u8; CB]);
        n[17 + CB..25 + CB].copy_from_slice(&orders[0].1.to_le_bytes());
        return k;
    }
    let first = orders[0].0;
    let last = orders[orders.len() - 1].0;
    let prefix = (first ^ last).leading_zeros();
    let bit = 1u128 << (127 - prefix);
    let m = orders.iter().position(|o| o.0 & bit != 0).unwrap();
    let a = build(data, &orders[..m], next);
    let b = build(data, &orders[m..], next);
    let n = node(data, k as usize);
    n[0] = 1;
    n[1..5].copy_from_slice(&prefix.to_le_bytes());
    n[5..21].copy_from_slice(&first.to_le_bytes());
    n[21..25].copy_from_slice(&a.to_le_bytes());
    n[25..29].copy_from_slice(&b.to_le_bytes());
    k
}

impl Book {
    /// orders as (price, sequence number, base quantity)
    pub fn new(orders: &[(u64, u64, u64)]) -> Self {
        let mut v: Vec<(u128, u64)> = orders
            .iter()
            .map(|o| (((o.0 as u128) << 64) | o.1 as u128, o.2))
            .collect();
        v.sort();
        let mut data = vec![0u8; 65 + SLOT * 64];
        data[0] = 4;
        let mut next = 0;
        let root = if v.is_empty() { 0 } else { build(&mut data, &v, &mut next) };
        data[1..9].copy_from_slice(&(next as u64).to_le_bytes());
        data[21..25].copy_from_slice(&root.to_le_bytes());
        data[25..33].copy_from_slice(&(v.len() as u64).to_le_bytes());
        Book { data }
    }
    /// [(price, quantity)] best first
    pub fn l2(&mut self, depth: u64, increasing: bool) -> Vec<(u64, u64)> {
        let r = dex_wasm::find_l2_depth(&mut self.data, CB as u64, SLOT as u64, depth, increasing);
        r.chunks(2).map(|c| (c[1], c[0])).collect()
    }
    fn key(&self, h: u32) -> u128 {
        let o = 65 + h as usize * SLOT + 1;
        let mut b = [0; 16];
        b.copy_from_slice(&self.data[o..o + 16]);
        u128::from_le_bytes(b)
    }
    pub fn min(&mut self) -> Option<u64> {
        let h = dex_wasm::find_min(&mut self.data, CB as u64, SLOT as u64)?;
        Some((self.key(h) >> 64) as u64)
    }
    pub fn max(&mut self) -> Option<u64> {
        let h = dex_wasm::find_max(&mut self.data, CB as u64, SLOT as u64)?;
        Some((self.key(h) >> 64) as u64)
    }
}

